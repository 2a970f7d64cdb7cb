"""C08: the outcome of the external QP solver is reported with the documented acados status."""
import re
import cfront as F, cgraph, absint
from report import AnalysisBroken

RULE = ('Every function installed as evaluate operation of a QP solver module is interpreted abstractly (helpers of the module inlined, loops to a fixpoint) once per outcome the '
        'external solver can have: the last external solve call, the status query or the status field yields that outcome. Each returned value is compared with the '
        'documented acados status: optimal -> ACADOS_SUCCESS, iteration limit -> ACADOS_MAXITER, infeasible / unbounded / NaN / minimum step -> their own status where the wrapper '
        'distinguishes them, every other outcome -> an acados failure status. The functions in between (condensing solver, C interface) return the value of the inner solver.')
A = dict(SUCCESS=0, NAN=1, MAXITER=2, MINSTEP=3, QPFAIL=4, UNBOUNDED=6, INFEASIBLE=9, UNKNOWN=-1)
FAIL = {'UNKNOWN', 'QPFAIL', 'NAN', 'MINSTEP'}
# external outcome -> admissible acados statuses; a set of more than one name: any failure that does not claim something else
OPT, LIM, INF, UNB, NAN, MST = {'SUCCESS'}, {'MAXITER'}, {'INFEASIBLE'}, {'UNBOUNDED'}, {'NAN'}, {'MINSTEP'}
INFQ, UNBQ = FAIL | INF, FAIL | UNB
FAMILIES = {
    'hpipm': dict(solve=r'd_(ocp|dense)_qp_ipm_solve$', query=r'd_(ocp|dense)_qp_ipm_get_status$', field=r'->status$',
                  table={'SUCCESS': OPT, 'MAX_ITER': LIM, 'MIN_STEP': MST, 'NAN_SOL': NAN, 'INCONS_EQ': INF, '?997': FAIL}),
    'qpoases': dict(solve=r'QProblemB?_(init|hotstart)\w*$', result=True,
                    table={'SUCCESSFUL_RETURN': OPT, 'RET_MAX_NWSR_REACHED': LIM, 'RET_INIT_FAILED_INFEASIBILITY': INF, 'RET_INIT_FAILED_UNBOUNDEDNESS': UNB,
                           'RET_QP_INFEASIBLE': INFQ, 'RET_QP_UNBOUNDED': UNBQ, '?997': FAIL | INF | UNB}),
    'daqp': dict(solve=r'daqp_(ldp|quadprog|solve)$', result=True, early=r'daqp_(check_bounds|activate_constraints)$', late=(-3, -4),      # found while iterating only
                 table={'DAQP_EXIT_OPTIMAL': OPT, 'DAQP_EXIT_SOFT_OPTIMAL': OPT, 'DAQP_EXIT_ITERLIMIT': LIM, 'DAQP_EXIT_INFEASIBLE': INF, 'DAQP_EXIT_UNBOUNDED': UNB,
                        'EXIT_CYCLE': FAIL, 'EXIT_NONCONVEX': FAIL | UNB, 'EXIT_OVERDETERMINED_INITIAL': FAIL, '?-997': FAIL}),
    'osqp': dict(solve=r'osqp_solve$', field=r'(->|\.)status_val$',
                 table={'OSQP_SOLVED': OPT, 'OSQP_MAX_ITER_REACHED': LIM, 'OSQP_PRIMAL_INFEASIBLE': INF, 'OSQP_DUAL_INFEASIBLE': UNBQ, 'OSQP_NON_CVX': UNBQ, 'OSQP_UNSOLVED': FAIL,
                        'OSQP_PRIMAL_INFEASIBLE_INACCURATE': INFQ, 'OSQP_DUAL_INFEASIBLE_INACCURATE': UNBQ, 'OSQP_SOLVED_INACCURATE': FAIL, '?997': FAIL}),
    'qpdunes': dict(solve=r'qpDUNES_solve$', result=True,
                    table={'QPDUNES_OK': OPT, 'QPDUNES_SUCC_OPTIMAL_SOLUTION_FOUND': OPT, 'QPDUNES_ERR_ITERATION_LIMIT_REACHED': LIM, 'QPDUNES_ERR_STAGE_QP_INFEASIBLE': INF,
                           'QPDUNES_ERR_STAGE_COUPLING_INFEASIBLE': INFQ, 'QPDUNES_ERR_DIVISION_BY_ZERO': FAIL, 'QPDUNES_ERR_UNKNOWN_ERROR': FAIL, '?997': FAIL}),
    'clarabel': dict(solve=r'clarabel_DefaultSolver\w*_solve$', field=r'(->|\.)solution\.status$|(->|\.)status$',
                     table={'ClarabelSolved': OPT, 'ClarabelMaxIterations': LIM, 'ClarabelUnsolved': FAIL, 'ClarabelPrimalInfeasible': INFQ, 'ClarabelDualInfeasible': UNBQ,
                            'ClarabelAlmostPrimalInfeasible': INFQ, 'ClarabelAlmostDualInfeasible': UNBQ, 'ClarabelMaxTime': FAIL, 'ClarabelNumericalError': FAIL,
                            'ClarabelInsufficientProgress': FAIL, 'ClarabelAlmostSolved': FAIL}),
}
HEADERS = {'osqp': ['osqp/include/constants.h'], 'daqp': ['daqp/include/constants.h']}


def constants(P, fam):
    r = dict(P.enums)
    import os
    for h in HEADERS.get(fam, ()):
        d = {}
        for m in re.finditer(r'^#\s*define\s+(\w+)\s+\(?(-?\w+)\)?', open(os.path.join(F.STUBS, h)).read(), re.M):
            d[m.group(1)] = m.group(2)
        for k, v in d.items():
            while v in d:
                v = d[v]
            if re.fullmatch(r'-?\d+', v):
                r[k] = int(v)
    return r


class C(absint.Client):
    max_states = 200
    inline_depth = 3

    def __init__(self, fam, value, path, wrapped=None):
        self.fam, self.value, self.path = fam, value, path
        self.returns = []
        self.sources = set()

    def key(self, st):
        return st.ts

    def inline(self, path, name, e):
        return path == self.path

    def on_call(self, e, name, slot, args, node, st):
        if name is None:
            return None
        f = self.fam
        if re.match(f['solve'], name):
            self.sources.add((name, node.l))
            e.havoc_args(args, node, st, name)
            st.ts = ('solved',)
            return [(('i', self.value) if f.get('result') else ('t', 'void'), st)]
        if 'query' in f and re.match(f['query'], name) and len(args) == 2 and args[1][0] in ('&', 'p'):
            e.kill(st, args[1][1])
            st.env[args[1][1]] = ('i', self.value) if st.ts else ('t', 'stale status')
            return [(('t', 'void'), st)]
        if 'early' in f and re.match(f['early'], name):
            e.havoc_args(args, node, st, name)
            out = [(('i', 0), st.copy())]
            if self.value < 0 and self.value not in f['late']:
                s2 = st.copy()
                s2.ts = ('solved',)
                out.append((('i', self.value), s2))
            return out
        return None


class Eng(absint.Engine):
    def load(self, loc, st, node=None):
        f = self.c.fam
        if 'field' in f and st.ts and loc not in st.env and re.search(f['field'], loc) and 'query' not in f:
            return ('i', self.c.value)
        return super().load(loc, st, node)


def run(ctx):
    P = F.load(omp=False)
    G = cgraph.CG(P)
    inv = {v: k for k, v in A.items()}
    inv[5], inv[7], inv[8] = 'READY', 'TIMEOUT', 'QPSCALING_BOUNDS_NOT_SATISFIED'
    sol = sorted(x for k, v in G.slots.items() if k == ('qp_solver_config', 'evaluate') for x in v if x[0] != '<ext>')
    for k, n in A.items():
        e = {'NAN': 'ACADOS_NAN_DETECTED', 'QPFAIL': 'ACADOS_QP_FAILURE'}.get(k, 'ACADOS_' + k)
        if P.enums.get(e) != n:
            raise AnalysisBroken('C08: enumerator %s is not %d' % (e, n))
    done = 0
    for path, name in sol:
        fam = next((f for f in FAMILIES if re.search(r'(^|_)%s' % f, name)), None)
        if fam is None:
            ctx.skip('%s: no table of outcomes for this solver' % name)
            continue
        F_ = FAMILIES[fam]
        const = constants(P, fam)
        src = set()
        for oc, ok in F_['table'].items():
            val = int(oc[1:]) if oc[0] == '?' else const.get(oc)
            if val is None:
                ctx.skip('%s: value of %s not known' % (name, oc))
                continue
            c = C(F_, val, path)
            e = Eng(P, c, G)
            try:
                outs = e.run(path, name)
            except absint.Unsupported as x:
                ctx.skip('%s: %s' % (name, x))
                continue
            src |= c.sources
            ctx.count('outcomes')
            bad = set()
            for v, st in outs:
                ctx.count('abstract_returns')
                if not st.ts:
                    continue            # left before the external solver was called
                if v[0] != 'i':
                    bad.add('a value that does not depend on the outcome (%s)' % absint.vtext(v)[:40])
                elif inv.get(v[1]) not in ok:
                    bad.add('ACADOS_' + inv[v[1]] if v[1] in inv else 'the raw code %d' % v[1])
            if not any(st.ts for v, st in outs):
                ctx.skip('%s: no path on which the external solver is called' % name)
                continue
            for b in sorted(bad):
                what = 'an outcome not listed' if oc[0] == '?' else oc
                ctx.violation('%s:%s' % (name, oc), '%s' % path, '%s can return %s when the QP solver ends with %s (expected %s)' % (
                    name, b, what, ' or '.join(sorted('ACADOS_' + {'NAN': 'NAN_DETECTED', 'QPFAIL': 'QP_FAILURE'}.get(x, x) for x in ok))))
        if src:
            done += 1
        ctx.count('solvers')
        ctx.sample('%s: external solves %s' % (name, sorted({n for n, l in src})))
    if done < 5:
        raise AnalysisBroken('C08: external solves found in %d QP solver modules only' % done)
    passing(ctx, P, G)


class Pass(absint.Client):
    max_states = 64
    inline_depth = 2

    def __init__(self, path, slots):
        self.path, self.slots = path, slots
        self.n = 0

    def inline(self, path, name, e):
        return path == self.path

    def on_call(self, e, name, slot, args, node, st):
        if slot in self.slots:
            self.n += 1
            e.havoc_args(args, node, st, name)
            st.ts = ('called',)
            return [(('t', 'qp status'), st)]
        return None


def passing(ctx, P, G):
    """functions between the caller and the solver module return the status of the module"""
    slots = {('qp_solver_config', 'evaluate'), ('ocp_qp_xcond_solver_config', 'evaluate')}
    fns = {x for x in G.slots.get(('ocp_qp_xcond_solver_config', 'evaluate'), ()) if x[0] != '<ext>'}
    for n in ('ocp_qp_solve', 'dense_qp_solve'):
        fns |= {(p, n) for p, f in P.functions.get(n, ())}
    for path, name in sorted(fns):
        c = Pass(path, slots)
        try:
            outs = absint.Engine(P, c, G).run(path, name)
        except absint.Unsupported as x:
            ctx.skip('%s: %s' % (name, x))
            continue
        if not c.n:
            ctx.skip('%s: no call of the inner solver seen' % name)
            continue
        ctx.count('passing_functions')
        for v, st in outs:
            ctx.count('abstract_returns')
            if st.ts and v != ('t', 'qp status'):
                ctx.violation('%s:pass' % name, path, '%s returns %s instead of the status of the QP solver it called' % (name, absint.vtext(v)[:60]))
