HEAD = '''# Static decision of acados properties

Everything here is static analysis: each check re-reads /repo's current working tree, parses or type-checks it, and decides its rule from the
source. Nothing of acados is executed by a check (the planted-bug demonstrations do execute it; they are not part of any check).
This file is generated by `tools/design.py` from `tools/design_text.py`, the rules in `checks/`, `tools/claims.py`, the seeds and the findings.

Why static analysis reaches what the tests cannot: the six stable tests exercise a few Python paths and compile objects without linking;
no C function of the library, no template branch beyond the default ones and no failure path is executed by them.
The rules below quantify over every path, every name, every module selection, symbolic dimensions, or an enumerated family of problem descriptions.

## Machinery

* `lib/cfront.py` runs clang 18's front end over every C unit of `acados/` and `interfaces/acados_c/` (OpenMP on and off) and keeps the resolved,
  typed AST. External headers (BLASFEO, HPIPM, DAQP, OSQP, qpOASES, Clarabel, qpDUNES) are declarations in `stubs/`, because the submodules are empty here.
  Four legacy wrappers that cannot be compiled on this commit (qore, dense ooqp, ocp ooqp, hpmpc) are excluded. A unit that does not type-check
  gives no verdict (exit 2), never a pass. ASTs are cached by content hash below `/verif/.cache` (rebuilt when anything changes).
* `lib/cgraph.py`: call graph; a call through a function pointer in a record goes to every function installed in that slot anywhere.
* `lib/absint.py`: path-sensitive abstract interpreter over the typed AST: constants, constant strings and tables, access paths, opaque terms, facts,
  typestate; helpers inlined; constant-bound loops unrolled, others to a fixpoint.
* `lib/poly.py`, `lib/sizes.py`, `lib/moves.py`: polynomials over access paths; symbolic sizes of size queries and of what is carved from a block;
  symbolic summaries "which caller elements go to which element of which field".
* `lib/dispatch.py`, `lib/fields.py`: name-dispatched functions (strcmp chains, module prefixes, function-pointer slots) interpreted with a literal, or with an unknown name.
* `lib/solveflow.py`, `lib/effects.py`: typestate over the NLP solve functions (QP outcome, globalization outcome, freshness of residuals, timers, iteration limit).
* `lib/pyinterp.py`, `lib/pyffi.py`, `lib/pyguards.py`: abstract interpretation of the Python wrappers and of the checks of the Python front end.
* `lib/tera.py`, `lib/render.py`, `lib/gen.py`, `lib/templates.py`, `lib/tsel.py`: parser and evaluator of the Tera template language, and an enumerated family of
  synthetic problem descriptions (about 145: integrators, cost and constraint types per stage kind, dimensions zero/non-zero, options, sensitivities, zoRO, Simulink, multi-phase) under which every
  template is expanded and the result type-checked against the library headers. (t_renderer and CasADi code generation are not needed.)
* `lib/defassign.py`: definite assignment with consistent branch conditions.
* `checks/run.py ID` runs one check, writes `evidence/ID.json` (what was analysed, what stayed undecided) and compares violations with `known_findings.json`.
  What an analysis cannot decide is listed as undecided in the evidence and never reported as a violation; a check that finds no obligations at all
  (its anchors vanished) ends with exit 2 instead of passing.

Quick and thorough are the same full analysis for every property: there is no sampling that could be deepened. Costs are 3-40 s per check with a warm cache and about a minute cold.
'''

NOTES = {
 'C01': 'Padding and alignment terms are kept symbolic.',
 'C04': 'Known finding below: `ocp_nlp_ddp_opts.tol_zero_res`.',
 'C08': 'The qpDUNES wrapper passes the code of a suboptimal termination through; what it should map to is not documented, so that outcome is not judged. Early exits before the external solve are judged for DAQP only.',
 'C09': 'A QP solve that ends at its own iteration limit counts as usable, as the code intends. max_iter >= 0 is assumed. DDP maps a failed globalization to ACADOS_QP_FAILURE; this is tolerated (it is a failure status).',
 'C14': 'Assumes that module dimensions equal the problem dimensions of the same name, which C17 establishes.',
 'C15': 'Same assumption as C14, discharged by C17.',
 'C16': 'A separate FEEDBACK phase of SQP_RTI may continue the timing of its preparation phase.',
 'C18': 'Real-time iterations without a loop over max_iter are not concerned.',
 'T31': 'Assumptions: dimensions are those computed by make_consistent, ny = 0 for EXTERNAL costs, no algebraic variables in discrete dynamics, zoRO only with BGH constraints, at least one module in the MEX templates.',
 'T33': 'Reads that are only reachable when a loop runs zero times are listed as undecided, not reported.',
 'T34': 'Documented Python-side restrictions are respected by the family: parameter sensitivities only with DISCRETE dynamics and EXTERNAL/LINEAR_LS cost, rti_phase Simulink input only for SQP_RTI without custom update, zoRO Simulink outputs only with zoRO, sampling time only t0 or -1, no multi-phase parameter sensitivities.',
 'P24': 'The first version reported aliases, tables and declaration helpers as missing declarations; names are now evaluated through concatenation and f-strings, and private or module-level helpers are inlined.',
}

SEEDS = '''## Planted changes

Each was written from the property text, confirmed to build, to pass the stable tests and to be shown by its own demonstration (`/verif/seeded/<id>/demo.sh`: it builds the C library
of the checkout against the BLASFEO/HPIPM binaries shipped inside the casadi wheel, or expands templates and compiles them, in a scratch directory). In addition every check was tried on 5-20 unrecorded
textual mutations and on behaviour-preserving refactorings (helper extraction, table-driven rewriting, loop rewriting, renaming, reordering) with `tools/mut.py`.
'''

FIND = '''Genuine defects found while making the checks quiet on the unchanged tree. Repaired ones are "fix:" commits in /repo; `known_findings.json` identifies the others by site.
'''

TAIL = '''## What keeps equivalent code quiet (including the false alarms met on the way)

* C06: getters that return a failure value (-1, NULL) instead of ending the process are accepted as loud.
* C13: masks computed by a shared helper or by a different but equivalent condition are compared as conditions, not as text.
* C14/C15: element maps are compared as index polynomials on several samples; HPIPM accessors are modelled by their documented extents; fields with a single admissible value are not move-compared.
* C09/C16: must-tags are intersected at joins and the QP/globalization outcomes enumerated, so reordering and helper extraction do not matter.
* C08: constant translation tables (arrays of ints, of pairs, of structs, local or file scope) are evaluated.
* T31: template conditions are evaluated three-valued together with the guards of the Python front end; combinations the front end rejects are not obligations.
* T33: loops that may run zero times are undecided.
'''
