"""C09: an NLP solve whose QP solver or globalization failed never reports success; the returned status is the stored one; success needs the termination test."""
import cfront as F, cgraph, absint
import solveflow as S
from report import AnalysisBroken

RULE = ('Typestate over every path of the functions installed in ocp_nlp_config.evaluate (and of the globalizations), helpers inlined. A QP solve yields '
        '{success, iteration limit, failure}, a globalization step {success, failure}. (1) the returned value is the value of ocp_nlp_memory.status; '
        '(2) after a failed QP solve no step is taken and a path that ends with the last QP solve or step failed returns a status that is set in this '
        'call, is not ACADOS_SUCCESS and is ACADOS_QP_FAILURE if it was the QP; ACADOS_TIMEOUT needs timeout_max_time to be exceeded; (3) outside real-time algorithms ACADOS_SUCCESS is returned only on paths on which residuals computed after the '
        'last step were compared with their tolerances: stationarity, equalities, inequalities, complementarity (DDP, unconstrained: equalities and '
        'stationarity or zero residual cost); in real-time algorithms only if the last QP and step succeeded, or the status was not touched.')
GATES = {None: [{'inf_norm_res_stat|tol_stat', 'inf_norm_res_eq|tol_eq', 'inf_norm_res_ineq|tol_ineq', 'inf_norm_res_comp|tol_comp'}],
         'ocp_nlp_ddp': [{'inf_norm_res_eq|tol_eq', 'inf_norm_res_stat|tol_stat'}, {'inf_norm_res_eq|tol_eq', 'cost_value|tol_zero_res'}]}


def real_time(P, G, path):
    for k in G.slots:
        if k[1] == 'is_real_time_algorithm':
            for p, n in G.slots[k]:
                if p != path:
                    continue
                fn = dict(P.functions[n])[p]
                for a in fn.walk():
                    if a.k == 'ReturnStmt' and a.c:
                        v = F.strip_casts(a.c[0])
                        return str(v.v) in ('1', 'True', 'true')
    return False


def run(ctx):
    P = F.load(omp=False)
    G = cgraph.CG(P)
    for which in ('solve', 'globalization'):
        for path, name, outs, c, e in S.interpret(P, G, which):
            if isinstance(outs, Exception):
                ctx.skip('%s: %s' % (name, outs))
                continue
            ctx.count(which + '_functions')
            ctx.count('abstract_returns', len(c.returns))
            for k, v in c.counts.items():
                ctx.count(k, v)
            rt = real_time(P, G, path)
            gates = GATES.get(name, GATES[None])
            for (kind, _), (p, f, l, txt) in sorted(c.events.items()):
                if kind == 'step':
                    ctx.violation('%s:step:%s' % (name, f), '%s:%s' % (p, l), '%s (in %s) %s' % (f, name, txt))
            seen = set()
            for v, status, ts, p, l in c.returns:
                qf = [t for t in ts if t.startswith('qp:fail')]
                gf = [t for t in ts if t.startswith('gl:fail')]
                bad = None
                unknown = v[0] != 'i'
                if which == 'solve' and status is not None and v != status:
                    bad = ('status', 'returns %s although the stored solver status is %s' % (absint.vtext(v), absint.vtext(status)))
                elif which == 'globalization':
                    if qf and v == ('i', S.SUCCESS):
                        bad = ('qp', 'can return ACADOS_SUCCESS although a QP solved inside failed')
                elif (qf or gf) and (unknown or v == ('i', S.SUCCESS)):
                    bad = ('fail', 'returns %s although %s' % ('ACADOS_SUCCESS' if not unknown else 'a status that was not set in this call',
                           'the last QP solve failed' if qf else 'the last globalization step failed'))
                elif which == 'solve' and qf and v != ('i', S.QPFAIL):
                    bad = ('code', 'returns status %s although the last QP solve failed (ACADOS_QP_FAILURE is %d)' % (absint.vtext(v), S.QPFAIL))
                elif which == 'solve' and v == ('i', S.TIMEOUT) and 'late' not in ts:
                    bad = ('timeout', 'can return ACADOS_TIMEOUT without having found the time limit exceeded')
                elif not rt and unknown:
                    bad = ('unset', 'returns a status (%s) that is not determined by this solve' % absint.vtext(v)[:60])
                elif not rt and v == ('i', S.SUCCESS):
                    have = {t[3:] for t in ts if t.startswith('lt:')}
                    if 'fresh' not in ts or not any(g <= have for g in gates):
                        miss = min((sorted(g - have) for g in gates), key=len)
                        bad = ('gate', 'can return ACADOS_SUCCESS ' + ('without the test(s) %s' % ', '.join(m.replace('|', ' < ') for m in miss) if miss else
                               'based on residuals that were not computed after the last step'))
                elif rt and v == ('i', S.SUCCESS) and not any(t in ('qp:ok', 'qp:ok2') for t in ts):
                    bad = ('rt', 'can set ACADOS_SUCCESS without having solved a QP in this call')
                if bad:
                    ctx.violation('%s:%s' % (name, bad[0]), '%s:%s' % (p, l), '%s %s' % (name, bad[1]))
            ctx.sample('%s: %d abstract returns, values %s' % (name, len(c.returns), sorted({absint.vtext(r[0])[:12] for r in c.returns})))
    if ctx.counts.get('solve_functions', 0) + len(ctx.skipped) < 2:
        raise AnalysisBroken('C09: no solve functions found')
