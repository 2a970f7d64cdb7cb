id='py-custom-update-dtype'; prop='P25'
needs='custom_update called with an array of integers (or of float32)'
breaks='the user data is made contiguous but no longer converted to double: the C side reads the bytes of integers as doubles'
edits=[('interfaces/acados_template/acados_template/acados_ocp_solver.py',"""        data = np.ascontiguousarray(data_, dtype=np.float64)
        c_data = cast(data.ctypes.data, POINTER(c_double))
        data_len = len(data)

        status = getattr(self.shared_lib, f"{self.ocp.name}_acados_custom_update")""","""        data = np.ascontiguousarray(data_)
        c_data = cast(data.ctypes.data, POINTER(c_double))
        data_len = len(data)

        status = getattr(self.shared_lib, f"{self.ocp.name}_acados_custom_update")""")]
files={'d.py':r'''from types import SimpleNamespace as NS
import numpy as np
from acados_template.acados_ocp_solver import AcadosOcpSolver
seen = []
class Lib:
    def m_acados_custom_update(self, capsule, p, n):
        seen.extend(p[i] for i in range(n))
        return 0
s = AcadosOcpSolver.__new__(AcadosOcpSolver)
s.solver_created = False
for k, v in (('shared_lib', Lib()), ('ocp', NS(name='m')), ('capsule', None)):
    try:
        setattr(s, k, v)
    except AttributeError:
        setattr(s, '_AcadosOcpSolver__' + k, v)
s.custom_update(np.array([1, 2, 3]))
print('the C side reads', seen)
raise SystemExit(0 if seen == [1.0, 2.0, 3.0] else 1)
'''}
demo='''HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD/interfaces/acados_template" /opt/acados-env/venv/bin/python -B "$HERE/d.py"
'''
