"""T34: generated code compiles, type-checks and links for every supported kind of problem description."""
import re, os
import cfront as F, gen
from report import AnalysisBroken

RULE = ('Every C template is expanded for a family of synthetic problem descriptions chosen to select each template branch (one constraint kind, cost type, '
        'integrator, solver, sensitivity option or phase at a time and in combination) and handed to the compiler front end. A description for which a template '
        'throws, the front end reports an error, a pointer of an incompatible type or an integer is passed for a pointer, or code refers to a library or '
        'generated function that no library source and no generated file defines, is a violation. Text is only type-checked, never run.')
BAD_W = ('-Wincompatible-pointer-types]', '-Wincompatible-function-pointer-types]', '-Wint-conversion]', '-Wreturn-type]', '-Wimplicit-function-declaration]',
         '-Wformat-insufficient-args]', '-Wnon-literal-null-conversion]')


def norm(m):
    return re.sub(r"mod_x(_\d)?|ocp_x|mocp_\d", 'NAME', re.sub(r'\d+', '#', m))[:120]


def run(ctx):
    P = F.load(omp=True)
    lib = set(P.functions)
    G = gen.load()
    tmpl, taken = set(), 0
    seen_err = 0
    for g in G:
        ctx.count('descriptions')
        for rel, msg in g['errors']:
            if not ('template throws' in msg or 'undefined variable' in msg or ' out of ' in msg or 'of an empty array' in msg):
                ctx.skip('%s %s: %s' % (g['cfg'].name, rel, msg))
                continue
            ctx.violation('%s:%s' % (rel, norm(re.sub(r'line \d+', '', msg))), rel, 'expansion fails for description %s: %s' % (g['cfg'].name, msg[:160]))
        defined = set()
        for o, u in g['units'].items():
            if u.tu is not None:
                defined |= set(u.tu.functions)
        incomplete = any(u.tu is None for u in g['units'].values()) or bool(g['errors'])
        for o, u in g['units'].items():
            ctx.count('generated_files')
            tmpl.add(u.rel)
            for f, l, k, m in u.diags:
                if k in ('error', 'fatal error') or (k == 'warning' and m.endswith(BAD_W)):
                    w = gen.where(g, f, l) if f in g['maps'] else '%s (included from %s)' % (f, u.rel)
                    rel = w.rsplit(':', 1)[0]
                    seen_err += 1
                    ctx.violation('%s:%s' % (rel, norm(m)), w, 'code generated for description %s does not type-check: %s' % (g['cfg'].name, m[:160]))
            if u.tu is None or incomplete:
                continue
            for n, fn in u.tu.functions.items():
                for a in fn.walk():
                    if a.k != 'DeclRefExpr' or not a.r or a.r[0] != 'FunctionDecl':
                        continue
                    ctx.count('function_references')
                    sym = a.r[1]
                    if sym in defined or sym in lib:
                        continue
                    p = u.tu.protos.get(sym)
                    if p is None or p[1] == 'static':
                        continue
                    f = p[3] or ''
                    own = os.path.isabs(f) and f.startswith(u.root) and os.path.basename(f).startswith(('acados_', 'custom_update'))
                    repo = not os.path.isabs(f) and f.startswith(('acados/', 'interfaces/'))
                    if own or repo:
                        if sym in UNBUILT:
                            continue
                        w = gen.where(g, o, a.l)
                        ctx.violation('%s:undefined %s' % (u.rel, norm(sym)), w, 'refers to %s, which is declared in %s but defined in no library source and no '
                                      'generated file (description %s)' % (sym, os.path.relpath(f, u.root) if own else f, g['cfg'].name))
    ctx.counts['templates'] = len(tmpl)
    import render, tera
    cov = unc = 0
    br = set()
    for g in G:
        for b in g['branches'].values():
            br |= b

    def walk(nodes):
        nonlocal cov, unc
        for nd in nodes:
            if nd[0] == 'if':
                for b, (c, body) in enumerate(nd[1]):
                    if any(x[0] != 'text' or x[1].strip() for x in body):
                        if (id(nd), b) in br:
                            cov += 1
                            walk(body)
                        else:
                            unc += 1
                            ctx.skip('template branch never selected: line %s (%s)' % (nd[2], tera.etext(c)[:70] if c else 'else'))
            elif nd[0] == 'for':
                walk(nd[4])
    for rel, nd in render._nodes.items():
        walk(nd)
    ctx.counts['template_branches_selected'] = cov
    ctx.counts['template_branches_not_selected'] = unc
    ctx.floor('descriptions', 100)
    ctx.floor('generated_files', 300)
    if cov < 800:
        raise AnalysisBroken('T34: only %d template branches selected' % cov)


UNBUILT = set()
