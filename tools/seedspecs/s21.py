id='dense-nan-as-maxiter'; prop='C08'
needs='FULL_CONDENSING_HPIPM and a QP whose data make HPIPM end with a NaN in the solution'
breaks='the NaN outcome of HPIPM is reported as ACADOS_MAXITER, which the NLP solvers treat as a usable QP solution'
edits=[('acados/dense_qp/dense_qp_hpipm.c','    if (hpipm_status == MAX_ITER) return ACADOS_MAXITER;\n','    if (hpipm_status == MAX_ITER || hpipm_status == NAN_SOL) return ACADOS_MAXITER;\n')]
lib=True
files={'d.py':r'''import sys, os
import numpy as np
sys.path.insert(0, os.path.join(sys.argv[1], 'interfaces/acados_template'))
from acados_template.acados_ocp_qp import AcadosOcpQp
from acados_template.acados_ocp_qp_solver import AcadosOcpQpSolver
from acados_template.acados_ocp_options import AcadosOcpQpOptions
N = 2
qp = AcadosOcpQp(N=N)
z = np.zeros
for i in range(N + 1):
    nu = 1 if i < N else 0
    if i < N:
        qp.set('A', i, np.eye(2)); qp.set('B', i, np.ones((2, 1))); qp.set('b', i, z(2))
    qp.set('Q', i, np.eye(2)); qp.set('R', i, np.eye(nu)); qp.set('S', i, z((nu, 2))); qp.set('q', i, np.ones(2) * (np.nan if i == 1 else 1)); qp.set('r', i, z(nu))
    for f in ('zl', 'zu', 'Zl', 'Zu', 'lls', 'lus', 'lls_mask', 'lus_mask', 'lg', 'ug', 'lg_mask', 'ug_mask'):
        qp.set(f, i, z(0))
    qp.set('idxb', i, z(0, dtype=int) if i else np.arange(nu, nu + 2))
    for f in ('lbu', 'ubu', 'lbu_mask', 'ubu_mask'):
        qp.set(f, i, z(0))
    n = 2 if i == 0 else 0
    qp.set('lbx', i, np.ones(n)); qp.set('ubx', i, np.ones(n)); qp.set('lbx_mask', i, np.ones(n)); qp.set('ubx_mask', i, np.ones(n))
    qp.set('C', i, z((0, 2))); qp.set('D', i, z((0, nu))); qp.set('idxe', i, z(0, dtype=int)); qp.set('idxs_rev', i, -np.ones(n, dtype=int))
o = AcadosOcpQpOptions()
o.qp_solver = 'FULL_CONDENSING_HPIPM'
orig = AcadosOcpQpSolver.opts_set
AcadosOcpQpSolver.opts_set = lambda self, f, v: None if f == 't0_init' else orig(self, f, v)  # not known to the shipped HPIPM
s = AcadosOcpQpSolver(qp, o, acados_lib_path=sys.argv[2])
st = s.solve()
print('status', st)
sys.exit(0 if st not in (0, 2) else 1)
'''}
demo='''. "$(dirname "$0")/cdemo.sh"
build_closed_lib || exit 9

MALLOC_MMAP_THRESHOLD_=0 ACADOS_SOURCE_DIR="$REPO" LD_LIBRARY_PATH="$D" PYTHONDONTWRITEBYTECODE=1 /opt/acados-env/venv/bin/python "$HERE/d.py" "$REPO" "$W/lib"
'''
