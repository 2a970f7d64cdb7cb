id='py-lbx0-moves-ubx0'; prop='P21'
needs='x0 assigned first (so that the initial state is fixed), then lbx_0 assigned a different vector and ubx_0 read or used'
breaks='while x0 is set, assigning lbx_0 also replaces ubx_0, so the upper bound on the initial state that the user gave is silently lost'
edits=[('interfaces/acados_template/acados_template/acados_ocp_constraints.py','''        self.__lbx_0 = cast_to_1d_nparray(lbx_0, "lbx_0")
''','''        lbx_0 = cast_to_1d_nparray(lbx_0, "lbx_0")
        if self.__has_x0 and lbx_0.shape == self.__lbx_0.shape:
            # keep the initial state fixed
            self.__ubx_0 = lbx_0
        self.__lbx_0 = lbx_0
''')]
files={'d.py':'''import numpy as np
from acados_template import AcadosOcpConstraints
c = AcadosOcpConstraints()
c.x0 = np.array([1., 2.])
c.lbx_0 = np.array([0., 0.])
print('lbx_0', c.lbx_0, 'ubx_0', c.ubx_0)
assert list(c.lbx_0) == [0., 0.] and list(c.ubx_0) == [1., 2.]
'''}
demo='''HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD/interfaces/acados_template" /opt/acados-env/venv/bin/python -B "$HERE/d.py"
'''
