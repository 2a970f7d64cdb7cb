NOTEST = 'The runnable tests are six Python scripts that never execute the C library or a generated solver, and even upstream tests sample a few dimension/option combinations.'

prop('C01', 'Reported memory size covers everything setup carves out of the block',
 'For every library object that is set up inside a caller-provided memory block, and for every combination of dimensions and options, the number of bytes its size query reports is at least the number of bytes the matching setup step hands out from that block (alignment padding included), no two pieces handed out overlap, every piece is large enough for what is put in it during setup, and every piece starts at an address suitably aligned for its type (64 bytes for matrices) whenever the block itself is 8-byte aligned.',
 ['inputs', 'configurations'], 'all dimensions (horizon, nx, nu, nz, constraint and slack counts, ...), all option values, all modules',
 NOTEST, ['acados/ocp_nlp', 'acados/ocp_qp', 'acados/dense_qp', 'acados/sim', 'acados/utils/mem.c', 'interfaces/acados_c'],
 [('*_calculate_size / *_assign pairs', 'acados/**'), ('assign_and_advance_* helpers', 'acados/utils/mem.c')])

prop('C02', 'Solving, simulating and setting data never touch the heap',
 'Once a solver object has been created, no solve, simulate, evaluate, feedback/preparation, sensitivity, reset, get or set operation of the library itself allocates or releases heap memory; only the create/destroy/free entry points do (the third-party QP back ends Clarabel, OSQP and qpDUNES excepted inside their own setup calls).',
 ['inputs', 'histories', 'configurations'], 'every sequence of API calls after creation, every module selection',
 NOTEST, ['acados', 'interfaces/acados_c'], [('memory is carved from one block at creation', 'interfaces/acados_c/*_create'), ('work/mem arguments', 'acados/**')])

prop('C03', 'Every selectable module implements every operation the framework calls',
 'Whatever combination of cost, dynamics, constraint, regularization, globalization, integrator, condensing and QP-solver modules a user selects, every operation that the framework can invoke on the selected module is provided by it: no selection leaves an operation unset, every operation installed is the selected module\'s own implementation of that operation with the same parameters, and no selectable module kind is left without a case that installs it.',
 ['configurations'], 'all module selections', NOTEST,
 ['acados/**/*_common.h', 'interfaces/acados_c/ocp_nlp_interface.c', 'interfaces/acados_c/ocp_qp_interface.c', 'interfaces/acados_c/sim_interface.c'],
 [('config_initialize_default functions', 'acados/**'), ('plan switches', 'interfaces/acados_c')])

prop('C04', 'Every option starts from a defined default value',
 'After the options of any solver module have been created and default-initialized, every option field that the library later reads has been given its value by the default initialization (a few documented ones start as zero), without the user setting anything.',
 ['configurations', 'histories'], 'all modules, all option fields, any subset of options set by the user', NOTEST,
 ['acados/**/*_opts_initialize_default'], [('opts_initialize_default', 'acados/**')])

prop('C05', 'Untyped option and field values are read with the type they are passed with',
 'Whenever a value crosses an untyped field-name/pointer interface of the library (setting or getting solver, integrator, QP, cost, constraint and regularization options and data), the element type (int, double, bool, pointer) that the callee reads or writes through the untyped pointer for that name equals the element type of the variable that the caller - another part of the library, the generated solver code or the Python wrapper classes - passes for that name.',
 ['configurations', 'inputs'], 'all option names, all modules', NOTEST,
 ['acados/**/*_opts_set', 'interfaces/acados_template/acados_template/c_templates_tera'], [('opts_set dispatch', 'acados/**'), ('ocp_nlp_solver_opts_set calls', 'c_templates_tera')])

prop('C06', 'Unknown field names are rejected loudly',
 'Every name-dispatched setter and getter of the C library, when given a name it does not know, reports it and terminates the process or returns a failure code; it never returns normally as if the request had been served.',
 ['inputs'], 'all strings passed as a field name', NOTEST, ['acados', 'interfaces/acados_c'], [('strcmp dispatch chains', 'acados/**, interfaces/acados_c/**')])

prop('C08', 'QP solver outcomes are reported with the documented acados status',
 'Each QP solver module (HPIPM, qpOASES, DAQP, OSQP, qpDUNES, Clarabel) returns ACADOS_SUCCESS exactly when the last external solve ended optimal, ACADOS_MAXITER exactly when it hit its iteration limit, and otherwise an acados failure status: ACADOS_INFEASIBLE for HPIPM inconsistent equalities, qpOASES, DAQP, OSQP and qpDUNES primal infeasibility, ACADOS_UNBOUNDED for qpOASES and DAQP unboundedness, ACADOS_MINSTEP and ACADOS_NAN_DETECTED for those HPIPM outcomes, and neither ACADOS_INFEASIBLE nor ACADOS_UNBOUNDED for an outcome that means something else. The raw code of the solve is never returned (suboptimal termination of qpDUNES, and qpDUNES failing before its solve, excepted). The condensing QP solver and the C interface return the status of the solver module unchanged.',
 ['inputs', 'configurations'], 'all QP solvers, all outcomes', NOTEST, ['acados/ocp_qp/ocp_qp_*.c', 'acados/dense_qp/dense_qp_*.c'], [('evaluate operations', 'acados/ocp_qp/ocp_qp_hpipm.c'), ('evaluate operations', 'acados/dense_qp/dense_qp_daqp.c'), ('ocp_qp_xcond_solve', 'acados/ocp_qp/ocp_qp_xcond_solver.c')])

prop('C09', 'NLP solvers never report success after a failed step',
 'In each NLP solver (SQP, DDP, SQP with feasible QP, SQP-RTI): after a QP solve that failed (any status other than success or the iteration limit) no step is taken and the solve returns ACADOS_QP_FAILURE; after a globalization step that failed it returns a failure status; ACADOS_TIMEOUT is returned only when the time limit was found exceeded; the returned value equals the status stored in the solver memory. ACADOS_SUCCESS is returned only on paths on which residuals evaluated after the last step were each compared with their own tolerance (stationarity, equalities, inequalities, complementarity; for DDP, which is unconstrained, equalities and stationarity or a zero residual cost), and by SQP-RTI, which has no termination test of its own, only when the last QP solve and step succeeded.',
 ['inputs', 'fault_sequences', 'histories'], 'all exits of all solve functions', NOTEST, ['acados/ocp_nlp'], [('ocp_nlp_*_config.evaluate', 'acados/ocp_nlp'), ('check_termination', 'acados/ocp_nlp')])

prop('C18', 'The iteration limit bounds the number of QPs solved',
 'SQP, DDP and SQP with feasible QP solve no QP once their iteration counter has reached max_iter, and return ACADOS_MAXITER only when it has.',
 ['inputs', 'histories'], 'all iteration counts and limits', NOTEST, ['acados/ocp_nlp'], [('check_termination', 'acados/ocp_nlp'), ('nlp_mem->iter', 'acados/ocp_nlp')])

prop('C10', 'Solver instances share no mutable state',
 'The C library keeps no writable data outside the solver objects the caller owns, so distinct solver instances can be used concurrently and one instance never influences the result of another.',
 ['schedules', 'histories'], 'all interleavings of calls on distinct instances', NOTEST, ['acados', 'interfaces/acados_c'], [('no static or global variables', 'acados/**')])

prop('C11', 'Parallel loops only write data no other iteration uses',
 'In every loop that the library runs in parallel over the shooting stages, and in every batch function of a generated solver that runs in parallel over solver instances, one iteration writes no location that another iteration reads or writes: no shared scalar or scratch memory, no element that belongs to another stage or instance, and no memory reached through pointers that modules of different stages share. The memory and workspace blocks of modules that are processed in parallel start at different addresses. Results therefore do not depend on thread count or schedule.',
 ['schedules'], 'all thread counts and schedules', NOTEST, ['acados/ocp_nlp', 'acados/ocp_qp', 'interfaces/acados_template/acados_template/c_templates_tera'], [('omp parallel for loops', 'acados/ocp_nlp/*.c, acados/ocp_qp/ocp_qp_common.c'), ('ocp_nlp_alias_memory_to_submodules, ocp_nlp_workspace_assign', 'acados/ocp_nlp/ocp_nlp_common.c'), ('batch functions', 'acados_solver.in.c, acados_sim_solver.in.c')])

prop('C12', 'The OpenMP thread setting of the caller is restored on every exit',
 'A library function or generated function (solver entry points, batch functions) that calls omp_set_num_threads for its own use leaves the thread setting of the caller, on every way out including early termination and failure, as it found it.',
 ['histories', 'fault_sequences'], 'all exits of all functions that change the setting, all problem configurations', NOTEST, ['acados/ocp_nlp', 'interfaces/acados_template/acados_template/c_templates_tera'], [('omp_set_num_threads pairs', 'acados/ocp_nlp'), ('batch functions', 'acados_solver.in.c, acados_sim_solver.in.c')])

prop('C13', 'One-sided bounds are masked out consistently with the values set',
 'Whenever a constraint module setter stores a bound vector of a stage (bounds on states, inputs, general linear and nonlinear constraints, or slacks), it afterwards recomputes the mask entries of exactly those bounds from the stored values: 0 where a lower or slack bound is at or below minus ACADOS_INFTY or an upper bound at or above ACADOS_INFTY, 1 everywhere else. Whenever bounds or multipliers of a stage are set through the solver interface, all multipliers of that stage are multiplied with the mask afterwards.',
 ['inputs', 'histories'], 'all bound fields, all values, any order of sets', NOTEST, ['acados/ocp_nlp/ocp_nlp_constraints_bgh.c', 'acados/ocp_nlp/ocp_nlp_constraints_bgp.c'], [('update_mask helpers', 'acados/ocp_nlp/ocp_nlp_constraints_bg*.c')])

prop('C14', 'Reading a field returns what was written to it',
 'For every numerical field name that the setter and the getter of the same object accept under the same name (cost, constraint and dynamics modules, NLP input and output, integrator input and output, whole-horizon accessors, dimensions and options), the getter returns to each caller element the element of storage the setter stored that caller element in: same array, same row and column, same offset and stage, the same number of elements, with no further change of value. Different field names of one object use disjoint storage, except for documented composites and synonyms (for example s = [sl, su], ls = [lsbu, lsbx, lsg, lsh]). Setting or getting a field for the whole horizon moves exactly the concatenation, in stage order, of the per-stage values.',
 ['inputs', 'histories'], 'all fields with both directions, all dimensions', NOTEST, ['acados/ocp_nlp', 'acados/sim', 'interfaces/acados_c'], [('model_set/model_get pairs', 'acados/ocp_nlp'), ('ocp_nlp_out_set/get, ocp_nlp_set_all/get_all', 'interfaces/acados_c/ocp_nlp_interface.c')])

prop('C15', 'Reported field sizes equal the number of elements moved',
 'The size a size query of the solver interface reports for a field (ocp_nlp_dims_get_from_attr, ocp_nlp_cost_dims_get_from_attr, ocp_nlp_constraint_dims_get_from_attr, ocp_nlp_qp_dims_get_from_attr, ocp_nlp_dims_get_total_from_attr, sim_dims_get_from_attr; the product of both entries for matrices) is exactly the number of caller array elements the setters and getters of that field read or write at that stage (ocp_nlp_out_set/get, ocp_nlp_in_set/get, ocp_nlp_set, cost and constraint model set/get, ocp_nlp_get_at_stage for QP data of the original, relaxed and condensed QP, ocp_nlp_get_from_iterate, ocp_nlp_set_all/get_all, sim_in_set, sim_out_get), so that a caller who allocates the reported size is neither overrun nor left with unwritten entries.',
 ['inputs'], 'all fields, all dimensions, all module selections', NOTEST, ['interfaces/acados_c', 'acados/ocp_nlp', 'acados/sim'], [('ocp_nlp_*dims_get_from_attr', 'interfaces/acados_c/ocp_nlp_interface.c'), ('sim_dims_get_from_attr', 'interfaces/acados_c/sim_interface.c')])

prop('C17', 'Dimensions reach every module that keeps them',
 'After a dimension is set through the NLP dimension setters (ocp_nlp_dims_set_opt_vars, ocp_nlp_dims_set_global, ocp_nlp_dims_set_constraints), every module that keeps that dimension (cost, dynamics and its integrator, constraints, QP, relaxed QP, condensing, regularization) holds the value given for its stage, the dynamics hold nx and nu of the following stage as nx1 and nu1, and the derived dimensions equal their definition: nv = nu + nx + 2 ns, nb = nbx + nbu, ni, the number of general constraints of the QP = ng + nonlinear constraints, the slack counts of the relaxed QP and of the constraint modules, and the totals computed at precompute equal the sums over the stages.',
 ['inputs', 'histories'], 'all dimension names, all stages and horizon lengths, all module selections', NOTEST, ['acados/ocp_nlp/ocp_nlp_common.c', 'acados/ocp_nlp', 'acados/ocp_qp', 'acados/sim'], [('ocp_nlp_dims_set_*', 'acados/ocp_nlp/ocp_nlp_common.c'), ('*_dims_set', 'acados')])

prop('C16', 'Total solve time is refreshed on every way out of a solve',
 'On every exit of an NLP solve function, failures included, time_tot has been stored from a timer that was started in this call before any module was invoked, after the last module operation of the call. Every timer read in the solve was started in the same call, and every accumulated timing (time_lin, time_reg, time_qp_sol, time_sim, ...) is reset in the call before it is added to, except that a separate feedback phase of SQP-RTI continues the timings of its preparation phase.',
 ['histories', 'fault_sequences'], 'all exits of all solve functions', NOTEST, ['acados/ocp_nlp'], [('nlp_timings->time_tot', 'acados/ocp_nlp')])

prop('P20', 'Restricted options and dimensions accept exactly their documented values',
 'For every solver option, dimension and enumeration-like attribute (cost type, constraint type, integrator type, ...) of the Python description classes whose setter restricts its values, an assignment is accepted exactly for the documented values: the documented type (an integer for integers, a float for floats where documented so, a bool for flags), the documented strings, or the documented range (the bound itself included or excluded as documented; where the documentation of the bound is contradictory, the bound itself is not judged). Every other value raises, and then nothing is changed. The literal default of such an attribute is a value its setter accepts.',
 ['inputs'], 'all restricted attributes, all values up to type and position relative to the bounds', NOTEST, ['interfaces/acados_template/acados_template/acados_ocp_options.py', 'interfaces/acados_template/acados_template/acados_dims.py', 'interfaces/acados_template/acados_template/acados_sim.py'], [('property setters', 'acados_ocp_options.py'), ('property setters', 'acados_dims.py'), ('property setters', 'acados_sim.py')])

prop('P21', 'Reading an attribute of a description object returns what was assigned',
 'For every settable attribute of the Python problem, cost, constraint, model, dimension, simulation and option description objects, reading the attribute after an accepted assignment yields the assigned value, possibly normalised in type or shape (list to array, scalar to one-element array, sparse or nested storage), or the default where None or an empty value stands for it; whatever the other attributes hold. Assigning one attribute changes no other one except for the documented shorthands (x0, the selection matrices J*, tol, qp_tol, with_solution_sens_wrt_params, default labels), and a rejected assignment overwrites nothing.',
 ['inputs', 'histories'], 'all attributes, all value classes, any state of the other attributes', NOTEST, ['interfaces/acados_template/acados_template'], [('property/setter pairs', 'acados_template/*.py')])

prop('P22', 'Descriptions whose sizes do not fit are rejected before code generation',
 'make_consistent of a single-phase problem description rejects with an exception every description that differs from a fitting one in the size of one cost, constraint, slack or parameter array (rows of W, Vx, Vu, Vz, yref, C, D, bounds, soft-constraint bounds and penalties, parameter values; columns of Vx, Vu, Vz, C, D; lengths of the constraint and residual expressions against their bounds and weights), in the common size of a lower and an upper bound or of the slack penalties, or in an index of a bound or slack index set that is negative (below -1 for idxs_rev) or at or above the size it indexes - for LINEAR_LS, NONLINEAR_LS, CONVEX_OVER_NONLINEAR and EXTERNAL cost, h and phi constraints, slacks given by idxs* or idxs_rev, initial, path and terminal stages, with and without horizon. A fitting description is not rejected.',
 ['inputs', 'configurations'], 'all sizes, for the enumerated formulations', NOTEST, ['interfaces/acados_template/acados_template/acados_ocp.py', 'interfaces/acados_template/acados_template/utils.py'], [('_make_consistent_*', 'acados_ocp.py')])

prop('P23', 'Code templates only refer to data the Python interface provides',
 'Every attribute path a code-generation template refers to (in an output, a condition, a loop range or list, or an assignment), through loop variables, template variables and included or imported macros, exists on every Python description object that is rendered into that template (single-phase OCP, multi-phase OCP, simulation, ROS package), with the public name under which its fields are dumped; a path read only under an "is defined" guard is exempt, as is a condition on a path that exists in only one of the descriptions that share the template.',
 ['configurations'], 'all templates and branches, all descriptions rendered into them', NOTEST, ['interfaces/acados_template/acados_template/c_templates_tera', 'interfaces/acados_template/acados_template/custom_update_templates', 'interfaces/acados_template/acados_template/*.py'], [('tera templates', 'c_templates_tera'), ('attribute definitions', 'acados_template/*.py')])

prop('P24', 'Foreign-function declarations match the C prototypes they call',
 'Wherever a Python solver wrapper (OCP, batch OCP, integrator, batch integrator, OCP QP) declares argtypes or a restype for a function of the acados library or of a generated solver, the number of arguments and the kind of each (integer, double, pointer and what it points to) are those of the C prototype, and so is the result type where the result is used; a function whose arguments are addresses held as Python integers is called only with declared argument types (an undeclared address is cut to 32 bits), an undeclared result is only used where the prototype returns int, and every call passes as many arguments as the prototype has.',
 ['inputs', 'configurations'], 'all foreign calls of the solver wrappers', NOTEST, ['interfaces/acados_template/acados_template/*solver*.py', 'interfaces/acados_c/*.h'], [('argtypes/restype', 'acados_ocp_solver.py'), ('argtypes/restype', 'acados_ocp_qp_solver.py'), ('prototypes', 'interfaces/acados_c, c_templates_tera')])

prop('P25', 'Arrays handed to C by address have the type, layout and size C relies on',
 'Whenever a Python solver wrapper (OCP, batch OCP, integrator, batch integrator, OCP QP) hands the address of a numpy array to a function of the acados library or of a generated solver, then, on every path and whatever the caller passed: the elements have the type of the pointer (double or 32-bit int) and the memory is contiguous; the array is still referenced when the function is called; and its number of elements is the one the dimension query reports for the same field and stage (the array was allocated with it, or an array of another size was rejected), for solver statistics the extents the solver reports, for an OCP QP solution the dimensions of the stage, or it is passed along as the length argument. The buffer of a dimension query holds every integer the query writes. Problem data and options that the OCP QP wrapper hands over are covered as to type, layout and lifetime only.',
 ['inputs'], 'all arrays, all stages, all fields', NOTEST, ['interfaces/acados_template/acados_template/acados_ocp_solver.py', 'interfaces/acados_template/acados_template/acados_ocp_batch_solver.py', 'interfaces/acados_template/acados_template/acados_sim_solver.py', 'interfaces/acados_template/acados_template/acados_ocp_qp_solver.py'], [('get/set methods', 'acados_ocp_solver.py'), ('get/set methods', 'acados_sim_solver.py'), ('dimension queries', 'interfaces/acados_c/ocp_nlp_interface.c')])

prop('T30', 'Generated solvers release what they create',
 'In generated solver code (OCP, multi-phase, integrator, zoRO custom update, Simulink S-function, example main program), under every problem configuration, each heap block, each object handed out by a create function of the library and each external function object that creation sets up is released exactly once, by the matching release function, when the solver is freed with the same configuration, also after a reset or a change of the condensing horizon; nothing that was not created is released, and no block before the objects it holds.',
 ['configurations'], 'all problem configurations', NOTEST, ['interfaces/acados_template/acados_template/c_templates_tera'], [('create/free functions', 'acados_solver.in.c')])

prop('T31', 'Every name the generated code passes to the library is accepted by it',
 'Every option or field name that generated solver creation code passes to a name-dispatched library function is one that this function accepts for every module selection under which that call is generated and which the Python front end does not reject; names the library itself or a Python wrapper method with a fixed name list passes on are accepted by at least one module.',
 ['configurations'], 'all templates, all names', NOTEST, ['interfaces/acados_template/acados_template/c_templates_tera', 'acados'], [('*_set calls', 'c_templates_tera'), ('rejected combinations', 'acados_ocp.py')])

prop('T32', 'Single- and multi-phase generated solvers apply the same options',
 'When a single-phase problem and a multi-phase problem with equal phases are generated from the same solver options, the generated C solvers hand the same options with the same values to the library (per stage where an option is set per stage) and choose the same solver plan (NLP and QP solver, regularization, globalization, cost, dynamics and constraint modules, integrators).',
 ['configurations'], 'all options', NOTEST, ['acados_solver.in.c', 'acados_multi_solver.in.c'], [('create_set_opts, create_set_plan', 'c_templates_tera')])

prop('T33', 'No path reads a local variable that was never assigned',
 'No path through a function of the C library or of generated solver code reads a local variable before that path has assigned it, ends a value-returning function without a value, indexes a fixed-size array with a constant outside its bounds, returns the address of a local, or passes printf arguments that do not match the format.',
 ['inputs', 'configurations'], 'all paths of all functions, all problem configurations', NOTEST, ['acados', 'interfaces/acados_c', 'interfaces/acados_template/acados_template/c_templates_tera'], [('all functions', 'acados'), ('code templates', 'c_templates_tera')])

prop('T34', 'Generated code compiles for every supported problem description',
 'For every problem description that the Python front end accepts (integrators, cost and constraint types per stage kind, presence or absence of every dimension, solver options, sensitivities, zoRO, Simulink/MEX wrappers, multi-phase), the C code produced by the templates compiles, type-checks, and refers only to functions that the library, the generated files or the generated model functions provide.',
 ['configurations'], 'all template branches and their combinations', NOTEST, ['interfaces/acados_template/acados_template/c_templates_tera', 'interfaces/acados_template/acados_template/custom_update_templates'], [('capsule members vs uses', 'acados_solver.in.h/.in.c'), ('external function prototypes', 'model.in.h, cost.in.h, constraints.in.h')])

# not decided statically
prop('N90', 'A successful solve returns a point satisfying the KKT conditions to tolerance',
 'Whenever an NLP solve returns success, stationarity, feasibility and complementarity residuals of the returned point are below the configured tolerances.',
 ['inputs'], 'all problems', NOTEST, ['acados/ocp_nlp'], [('check_termination', 'acados/ocp_nlp')])
prop('N91', 'Condensing and expansion preserve the QP solution',
 'Solving the fully or partially condensed QP and expanding the result gives the solution of the original QP, primal and dual.',
 ['inputs'], 'all QPs and horizons', NOTEST, ['acados/ocp_qp'], [('condensing/expansion', 'acados/ocp_qp')])
prop('N92', 'Integrator sensitivities are the derivatives of the integrator',
 'Forward, adjoint and Hessian sensitivities returned by each integrator are the derivatives of the state map it computes.',
 ['inputs'], 'all models', NOTEST, ['acados/sim'], [('sim_* functions', 'acados/sim')])
prop('N93', 'Regularization returns a positive definite Hessian', 
 'After regularization with the project, mirror or convexify modules every stage (or reduced) Hessian is positive definite with the configured margin.',
 ['inputs'], 'all Hessians', NOTEST, ['acados/ocp_nlp'], [('ocp_nlp_reg_*', 'acados/ocp_nlp')])
prop('N94', 'A description written to JSON and read back is equal',
 'Saving an OCP or simulation description to JSON and loading it back yields an equal description.',
 ['inputs'], 'all descriptions', NOTEST, ['interfaces/acados_template/acados_template'], [('to_dict/from_dict', 'acados_ocp.py')])
