id='py-nlp-solver-type-prefix'; prop='P20'
needs='an nlp_solver_type that is a proper prefix of an accepted name, for example "SQP_WITH", or lower case names'
breaks='unknown solver names that abbreviate an accepted one are accepted and stored as they are; the generated code then names a solver that does not exist'
edits=[('interfaces/acados_template/acados_template/acados_ocp_options.py',"""        if nlp_solver_type in nlp_solver_types:
""","""        # allow abbreviations such as 'DDP' for longer names
        if any(name.startswith(nlp_solver_type) for name in nlp_solver_types):
""")]
files={'d.py':'''from acados_template import AcadosOcpOptions
names = ('SQP', 'SQP_RTI', 'DDP', 'SQP_WITH_FEASIBLE_QP')
o = AcadosOcpOptions()
for n in names:
    o.nlp_solver_type = n
    assert o.nlp_solver_type == n
for n in ('SQP_', 'SQP_WITH', 'D', 'SQP_RTI_', 'RTI', 'sqp', ''):
    try:
        o.nlp_solver_type = n
    except Exception:
        continue
    print('accepted', repr(n)); raise SystemExit(1)
'''}
demo='''HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD/interfaces/acados_template" /opt/acados-env/venv/bin/python -B "$HERE/d.py"
'''
