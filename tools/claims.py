TRUST = ' Trusts the clang 18 AST of every configuration parsed (OpenMP on and off), the external-API stub headers in stubs/, and the documented rule tables in the check.'
claims['C01'] = ('abstract interpretation of size queries and setup functions in a domain of polynomials over access paths', 'Every *_calculate_size/*_assign/*_cast_workspace pair is summarised symbolically for all dimensions and options (loops as sums, alignment as padding terms, conditionals as indicators) and size - carved is decided coefficientwise; a violation needs a concrete negative witness. BLASFEO/HPIPM sizes are opaque monotone functions, blocks are assumed 8-byte aligned, GNSF dimensions split as nx = nx1 + nx2, nz = nz1 + nz2. Undecided pairs are listed in the evidence and never raise an alarm.' + TRUST)
claims['C02'] = ('call-graph effect analysis (heap effects) over the clang AST', 'Decides absence of heap calls on every call path from non-creation entry points; function pointers resolved through the slots they are installed in.' + TRUST)
claims['C03'] = ('abstract interpretation of the configuration initialisers plus slot-coverage obligations', 'Every module selection reachable in the plan switches is interpreted; each operation the framework calls through a slot must be installed with a function of that module.' + TRUST)
claims['C04'] = ('must-assignment dataflow over option structs', 'Each option field that is read must be assigned on every path of the default initialiser (or be zero by documented choice from zero-filled memory).' + TRUST)
claims['C06'] = ('abstract interpretation of name dispatch with an unknown string', 'Each of the dispatchers is interpreted with a string equal to no literal; every path must end in a noreturn call or a failure value.' + TRUST)
claims['C10'] = ('storage-class lint over the type-checked program', 'Every file-scope or static local variable of the library must be const, and no constness is cast away.' + TRUST)
claims['C05'] = ('abstract interpretation of name dispatch combined with type inference of the passed and the read values', 'For every call site with a literal name (library, C templates, Python wrappers), the target set function is interpreted with that name, through function-pointer slots, and the element type it reads or writes through the untyped pointer is compared with the type of the variable passed. Call sites whose pointer has no static type are counted as skipped.' + TRUST)
claims['T31'] = ('abstract interpretation of name dispatch under enumerated module selections, with three-valued evaluation of the template conditions and of the front end guards', 'Every literal name passed by the generated code (all templates), by the library itself and by wrapper methods that filter names is decided for every module selection under which the call can be generated. Assumes dimensions are those computed by make_consistent (residual dimension zero for EXTERNAL cost, no algebraic variables in discrete dynamics); zoRO is documented for BGH only; mex templates are decided for at least one module.' + TRUST)
claims['C13'] = ('abstract interpretation of field setters into symbolic element-move summaries (index polynomials), compared between bound and mask stores', 'Every field name of every constraint module setter is interpreted once with symbolic dimensions; each store of caller values into the bound vector must be followed, at the same positions and extent, by mask stores equivalent to "0 iff infinite". The solver-level bound and multiplier setters must multiply all stage multipliers with the mask afterwards. Loop shapes outside the element model are reported as undecided.' + TRUST)
claims['C14'] = ('abstract interpretation of setter/getter pairs into symbolic element-move summaries (index polynomials), compared as maps', 'Each field of each setter/getter pair is interpreted under every module selection; the element maps are compared by identity testing of index polynomials on several samples of the dimension symbols. Assumes module dimensions equal the problem dimensions of the stage (C17).' + TRUST)
claims['C15'] = ('abstract interpretation of size queries and accessors into symbolic sizes and element-move summaries, compared', 'Every field name common to a size query and an accessor is interpreted under every module selection; reported size and touched caller elements are compared on several samples of the dimension symbols. HPIPM accessors are modelled by their documented extents.' + TRUST)
claims['C17'] = ('abstract interpretation of dimension setters into symbolic store summaries, checked against derived-dimension equations', 'All dimension names, stages 0..N of a symbolic horizon, every module selection; obligations are derived from the members of the dims records.' + TRUST)
claims['C12'] = ('typestate analysis (path-sensitive abstract interpretation) of the thread setting', 'Every function that reaches omp_set_num_threads is interpreted on all paths with helpers inlined, in the library and in the code generated for the synthetic family of problem descriptions.' + TRUST)
claims['T33'] = ('flow-sensitive compiler diagnostics plus a path-sensitive definite-assignment analysis', 'Candidates come from the front end; reads that are possibly unassigned are kept only if a path with consistent branch conditions reaches them. Paths that exist only when a loop runs zero times are listed as undecided. Heap cells and struct members are out of scope.' + TRUST)
claims['T34'] = ('template expansion under an enumerated family of symbolic problem descriptions and type checking of the result', 'About 145 descriptions that select all but a few of the template branches; combinations beyond the family are not covered. Template branches never selected are listed in the evidence.' + TRUST)
claims['C09'] = ('typestate analysis of the solve functions (path-sensitive abstract interpretation with field-based side effects)', 'Every path of the four solve functions and the globalizations with helpers inlined and loops run to a fixpoint; outcomes of QP solver and globalization are enumerated. A QP that hits its own iteration limit counts as usable, as in the code.' + TRUST)
claims['C16'] = ('typestate analysis of timers and timing fields over every path of the solve functions', 'Every path of the four solve functions, helpers inlined, loops to a fixpoint.' + TRUST)
claims['C18'] = ('path interpretation with order facts between iteration counter and limit, kept by increments and joins', 'Every path of the three solve loops, any max_iter >= 0.' + TRUST)
claims['P24'] = ('abstract interpretation of the wrapper methods against the C prototypes of the type-checked headers and generated units', 'Every method of the five solver wrapper classes; calls on which the name of the foreign function cannot be determined are listed as undecided. Prototypes of generated functions come from the enumerated family of descriptions, with the model name removed.' + TRUST)
claims['C08'] = ('abstract interpretation of every QP solver module, once per outcome of the external solver', 'Every path of the evaluate operations of seven modules; external outcomes and their codes come from the stub headers (HPIPM, OSQP, DAQP constants as published). The legacy wrappers qore, ooqp and hpmpc, which cannot be compiled on this commit, are outside.' + TRUST)
claims['T30'] = ('abstract interpretation of generated creation, reset and release code with a typestate per resource', 'Every generated unit of every description of the family; loops are unrolled with the sizes of the description. Creation is assumed to succeed. Whether a release function of the library frees everything inside the object is not part of the property.' + TRUST)
claims['C11'] = ('race analysis of OpenMP loops: interprocedural write summaries with a symbolic loop counter, points-to of stage module memory', 'All OpenMP work-sharing loops of the library (OpenMP build) and of the generated code of every description; module calls through slots are resolved to all implementations. Arrays that one module owns are taken as private to its stage when the module memory or workspace is indexed by the loop counter; indices that are not linear in the counter are reported as undecided. User-supplied external functions are assumed not to share state.' + TRUST)
claims['T32'] = ('differential abstract interpretation of the expanded single- and multi-phase solver templates', 'Option vectors are drawn from the option values the Python interface accepts, with a fixed seed (28 quick, 84 thorough), each expanded with both templates; the creation code is interpreted to a map from option name to value.' + TRUST)
claims['P20'] = ('abstract evaluation of the setters over a partition of values (type, string, position relative to every bound), compared with a table of the documented values', 'The table checks/options.json was transcribed from the docstrings; it is the oracle. Attributes without a restriction and array valued ones are not covered. Trusts the Python AST and the evaluator in lib/pysetter.py.')
claims['P25'] = ('path-sensitive abstract interpretation of the wrapper methods (element type, layout, lifetime and symbolic size of every array whose address is taken), dimension queries interpreted per field on the C side', 'Every method of the five wrapper classes in which the address of an array is taken; numpy is modelled (which operations convert, copy or keep a view). That the size a dimension query reports is the number of elements moved is property C15. AcadosOcpQpSolver.__init__ has too many paths and is listed as undecided (its helpers are analysed on their own). The Cython wrappers are outside (typed memory views).')
claims['P21'] = ('abstract evaluation of setter and getter pairs over a partition of values and states, with provenance of the stored value', 'Every settable attribute of the 12 description classes, helpers inlined. Values inside one class of the partition (for example all floats between two bounds that occur in the code) are not distinguished. Trusts the Python AST and the evaluator in lib/pysetter.py.')
claims['P23'] = ('reference resolution: template syntax trees against attribute sets inferred from the Python classes', 'All references of all templates for every description rendered into them; types of nested lists and objects follow from the constructors and annotations. Entries of dictionaries with computed keys are accepted. Trusts the rendering calls found in the Python sources.')
claims['P22'] = ('abstract interpretation of make_consistent in a domain of symbolic array shapes and index ranges', 'Sizes are symbols, so each obligation holds for all sizes; conditions on sizes alone are followed on both sides and a path counts as accepting only if some sizes realise it. Conditions on values (definiteness of weights, step sizes) are assumed not to reject. The model and code generation objects check themselves and are outside. Formulations are the eight enumerated ones.')
na['N90'] = 'Bounds on runtime residuals of floating-point iterations: no sound static argument in reach; only the control-flow part is claimed (C09).'
na['N91'] = 'Numerical equality of two linear-algebra algorithms carried out in external libraries (HPIPM/BLASFEO, sources not in this tree).'
na['N92'] = 'Equality of computed floating-point sensitivities with derivatives of user-supplied functions: a numerical property of runtime data.'
na['N93'] = 'Eigenvalue bounds of runtime matrices computed by iterative floating-point code; not boundable from the source by dataflow.'
na['N94'] = 'Depends on CasADi serialisation and numpy runtime values of arbitrary user objects (types not visible in the source).'
