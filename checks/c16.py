"""C16: on every exit of an NLP solve the total time of this call has been stored; sub-timings are reset before they are accumulated."""
import cfront as F, cgraph, absint
import solveflow as S
from report import AnalysisBroken

RULE = ('Typestate over every path of the functions installed in ocp_nlp_config.evaluate, helpers inlined: at each return ocp_nlp_timings.time_tot was stored '
        'from acados_toc() of a timer that was started before any module operation, after the last call of a module operation (QP solve, globalization, integrator, ...) on that path; a timing member is only added to '
        'after it was set in the same call, except in a separate feedback phase of a real-time iteration, which continues the preparation phase.')


def run(ctx):
    P = F.load(omp=False)
    G = cgraph.CG(P)
    for path, name, outs, c, e in S.interpret(P, G):
        if isinstance(outs, Exception):
            ctx.skip('%s: %s' % (name, outs))
            continue
        ctx.count('solve_functions')
        ctx.count('abstract_returns', len(c.returns))
        for (kind, _), (p, f, l, txt) in sorted(c.events.items()):
            if kind == 'toc':
                ctx.violation('%s:toc:%s' % (name, f), '%s:%s' % (p, l), '%s (called in %s) %s' % (f, name, txt))
            if kind == 'acc':
                ctx.violation('%s:acc:%s:%s' % (name, f, txt.split()[2]), '%s:%s' % (p, l), '%s (called in %s) %s' % (f, name, txt))
        for v, status, ts, p, l in c.returns:
            if 'timed' not in ts:
                ctx.violation('%s:time_tot' % name, '%s:%s' % (p, l), '%s can return (status %s) without having stored the total time of this solve'
                              % (name, absint.vtext(v)[:20]))
        ctx.sample('%s: %d abstract returns, all timed; timing members set: %s' % (name, len(c.returns), sorted({t[2:] for r in c.returns for t in r[2] if t.startswith('z:')})))
    if ctx.counts.get('solve_functions', 0) + len(ctx.skipped) < 2:
        raise AnalysisBroken('C16: no solve functions found')
