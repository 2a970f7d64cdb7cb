id='py-slack-count-guard'; prop='P22'
needs='soft nonlinear terminal constraints whose lsh_e is longer than idxsh_e'
breaks='a lower slack bound vector that is too long passes: the comparison with the number of soft constraints became one-sided; the generated code then silently uses its first entries'
edits=[('interfaces/acados_template/acados_template/acados_ocp.py','''        elif constraints.lsh_e.shape[0] != nsh_e:
''','''        elif constraints.lsh_e.shape[0] < nsh_e:
''')]
files={'d.py':r'''import numpy as np, casadi as ca
from acados_template import AcadosOcp, AcadosModel
def ocp(n):
    m = AcadosModel(); m.name = 'm'
    m.x = ca.SX.sym('x', 2); m.u = ca.SX.sym('u'); m.disc_dyn_expr = m.x
    m.con_h_expr_e = ca.vertcat(m.x, m.x[0] * m.x[1])
    o = AcadosOcp(); o.model = m
    o.solver_options.integrator_type = 'DISCRETE'; o.solver_options.N_horizon = 5; o.solver_options.tf = 1.0
    o.cost.cost_type = o.cost.cost_type_e = 'EXTERNAL'; m.cost_expr_ext_cost = m.u ** 2; m.cost_expr_ext_cost_e = m.x[0] ** 2
    c = o.constraints; c.lh_e = -np.ones(3); c.uh_e = np.ones(3); c.idxsh_e = np.array([0, 2])
    c.lsh_e = np.zeros(n); c.ush_e = np.zeros(2)
    for f in ('zl_e', 'zu_e', 'Zl_e', 'Zu_e'): setattr(o.cost, f, np.ones(2))
    o.code_gen_options.make_consistent = lambda *a, **k: None
    return o
ocp(2).make_consistent(verbose=False)
for n in (1, 3, 4):
    try:
        ocp(n).make_consistent(verbose=False)
    except ValueError:
        continue
    print('lsh_e of size', n, 'accepted for two soft constraints'); raise SystemExit(1)
'''}
demo='''HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD/interfaces/acados_template" /opt/acados-env/venv/bin/python -B "$HERE/d.py"
'''
