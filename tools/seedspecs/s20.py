id='qp-stats-argtypes'; prop='P24'
needs='a 64-bit process whose solver object lies above 4 GB, and get_stats("statistics") on the standalone QP solver'
breaks='the address of the solver object is passed as a 32-bit int, so the statistics are read through a truncated pointer'
edits=[('interfaces/acados_template/acados_template/acados_ocp_qp_solver.py','''        self.__acados_lib.ocp_qp_solver_get_stats.argtypes = [c_void_p, POINTER(c_double), c_char_p]
''','''        self.__acados_lib.ocp_qp_solver_get_stats.argtypes = None
''')]
lib=True
files={'d.py':r'''import sys, os
import numpy as np
sys.path.insert(0, os.path.join(sys.argv[1], 'interfaces/acados_template'))
from acados_template.acados_ocp_qp import AcadosOcpQp
from acados_template.acados_ocp_qp_solver import AcadosOcpQpSolver
from acados_template.acados_ocp_options import AcadosOcpQpOptions
N = 2
qp = AcadosOcpQp(N=N)
z = np.zeros
for i in range(N + 1):
    nu = 1 if i < N else 0
    if i < N:
        qp.set('A', i, np.eye(2)); qp.set('B', i, np.ones((2, 1))); qp.set('b', i, z(2))
    qp.set('Q', i, np.eye(2)); qp.set('R', i, np.eye(nu)); qp.set('S', i, z((nu, 2))); qp.set('q', i, np.ones(2)); qp.set('r', i, z(nu))
    for f in ('zl', 'zu', 'Zl', 'Zu', 'lls', 'lus', 'lls_mask', 'lus_mask', 'lg', 'ug', 'lg_mask', 'ug_mask'):
        qp.set(f, i, z(0))
    qp.set('idxb', i, z(0, dtype=int) if i else np.arange(nu, nu + 2))
    for f in ('lbu', 'ubu', 'lbu_mask', 'ubu_mask'):
        qp.set(f, i, z(0))
    n = 2 if i == 0 else 0
    qp.set('lbx', i, np.ones(n)); qp.set('ubx', i, np.ones(n)); qp.set('lbx_mask', i, np.ones(n)); qp.set('ubx_mask', i, np.ones(n))
    qp.set('C', i, z((0, 2))); qp.set('D', i, z((0, nu))); qp.set('idxe', i, z(0, dtype=int)); qp.set('idxs_rev', i, -np.ones(n, dtype=int))
o = AcadosOcpQpOptions()
o.qp_solver = 'PARTIAL_CONDENSING_HPIPM'
orig = AcadosOcpQpSolver.opts_set
AcadosOcpQpSolver.opts_set = lambda self, f, v: None if f == 't0_init' else orig(self, f, v)  # not known to the shipped HPIPM
s = AcadosOcpQpSolver(qp, o, acados_lib_path=sys.argv[2])
st = s.solve()
t = s.get_stats('statistics')
print(st, t.shape, np.isfinite(t[:, :5]).all())
sys.exit(0 if np.isfinite(t[:, :5]).all() and np.abs(t).max() > 0 else 1)
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_closed_lib || exit 9

MALLOC_MMAP_THRESHOLD_=0 ACADOS_SOURCE_DIR="$REPO" LD_LIBRARY_PATH="$D" PYTHONDONTWRITEBYTECODE=1 /opt/acados-env/venv/bin/python "$HERE/d.py" "$REPO" "$W/lib"
'''
