id='py-constraints-get-stage'; prop='P25'
needs='a problem whose number of constraints of a kind differs between the stages, values read at a stage other than 0'
breaks='the buffer for the values of a stage is allocated with the dimensions of stage 0, so reading a stage with more constraints makes C write past its end'
edits=[('interfaces/acados_template/acados_template/acados_ocp_solver.py',"""            self.nlp_dims, self.nlp_out, stage_, field, dims_data)

        # check whether field is vector-valued""","""            self.nlp_dims, self.nlp_out, 0, field, dims_data)

        # check whether field is vector-valued""")]
files={'d.py':r'''from types import SimpleNamespace as NS
import numpy as np
from acados_template.acados_ocp_solver import AcadosOcpSolver
dims = [2, 5]
class Lib:
    def ocp_nlp_constraint_dims_get_from_attr(self, config, d, out, stage, field, p):
        p[0] = dims[getattr(stage, 'value', stage)]
        p[1] = 0
    def ocp_nlp_constraints_model_get(self, *a):
        pass
s = AcadosOcpSolver.__new__(AcadosOcpSolver)
s.solver_created = False
s._AcadosOcpSolver__acados_lib = Lib()
for a in ('nlp_config', 'nlp_dims', 'nlp_in', 'nlp_out'):
    setattr(s, a, None)
try:
    s.N
    s._AcadosOcpSolver__N = 1
except AttributeError:
    s._AcadosOcpSolver__N = 1
n = [len(s.constraints_get(k, 'lbx')) for k in (0, 1)]
print('elements allocated per stage:', n, 'elements C writes:', dims)
raise SystemExit(0 if n == dims else 1)
'''}
demo='''HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD/interfaces/acados_template" /opt/acados-env/venv/bin/python -B "$HERE/d.py"
'''
