"""C18: an NLP solve starts no QP once the iteration limit is reached, and reports ACADOS_MAXITER only then."""
import cfront as F, cgraph, absint
import solveflow as S
from report import AnalysisBroken

RULE = ('Path interpretation of the functions installed in ocp_nlp_config.evaluate (helpers inlined, loops to a fixpoint) with order facts between the counter of the '
        'solve loop (the variable its condition compares with max_iter) and max_iter, kept across increments and joins: at every QP solve counter < max_iter is '
        'implied, and at every return of ACADOS_MAXITER counter >= max_iter is implied. Solvers without such a loop (real-time iterations) are not concerned.')


def run(ctx):
    P = F.load(omp=False)
    G = cgraph.CG(P)
    n = 0
    for path, name, outs, c, e in S.interpret(P, G):
        if isinstance(outs, Exception):
            ctx.skip('%s: %s' % (name, outs))
            n += 1
            continue
        if not c.counters:
            ctx.sample('%s: no loop bounded by max_iter' % name)
            continue
        n += 1
        ctx.count('solve_functions')
        for (p, f, l), ok in sorted(c.limits.items()):
            ctx.count('qp_solve_sites')
            if not ok:
                ctx.violation('%s:limit' % name, '%s:%s' % (p, l), '%s can solve a QP (in %s) after the iteration limit max_iter is reached' % (name, f))
        for v, status, ts, p, l in c.returns:
            ctx.count('abstract_returns')
            if v == ('i', S.MAXITER) and 'lim' not in ts:
                ctx.violation('%s:early' % name, '%s:%s' % (p, l), '%s can return ACADOS_MAXITER before max_iter iterations were performed' % name)
        ctx.sample('%s: counter %s, QP solve sites %s' % (name, [x.n or x.r[1] for x in c.counters], sorted(f for p, f, l in c.limits)))
    if n < 2:
        raise AnalysisBroken('C18: fewer than two solve loops found')
