"""T33: no locally evident undefined behaviour in the library or in generated code."""
import re, subprocess
from concurrent.futures import ThreadPoolExecutor
import cfront as F, gen, defassign
from report import AnalysisBroken

RULE = ('Flow-sensitive diagnostics of the compiler front end on every library source (with and without OpenMP) and on the code generated for the family of '
        'synthetic problem descriptions: a local variable read on a path that never assigned it, a constant index outside a fixed-size array, the address of a '
        'local returned or freed, memset/memcpy sized by a pointer, a function that can end without its return value, unsequenced modifications, and printf '
        'arguments that do not match the format.')
CATS = ('uninitialized', 'sometimes-uninitialized', 'conditional-uninitialized', 'array-bounds', 'return-stack-address', 'sizeof-pointer-memaccess', 'sizeof-array-argument', 'sizeof-pointer-div',
        'unsequenced', 'division-by-zero', 'format', 'format-insufficient-args', 'format-extra-args', 'dangling', 'free-nonheap-object', 'return-type')


def lib_one(a):
    f, omp = a
    p = subprocess.run([F.clang(), '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', '-fno-color-diagnostics', '-Wno-everything'] + gen.WARN + F.DEFS +
                       (F.OMP if omp else []) + F.INCS + ['-std=c99', f], cwd=F.REPO, capture_output=True)
    r = []
    for l in p.stderr.decode(errors='replace').splitlines():
        m = re.match(r'(.*?):(\d+):(\d+): (error|fatal error|warning): (.*)', l)
        if m:
            r.append((m.group(1), int(m.group(2)), m.group(4), m.group(5)))
    return f, omp, p.returncode, r


def cat(m):
    q = re.search(r'\[-W([\w-]+)(?:,[^\]]*)?\]$', m)
    return q.group(1) if q else None


UNINIT = ('uninitialized', 'sometimes-uninitialized', 'conditional-uninitialized')


def confirm(ctx, fns, l, m, what):
    """a path under consistent branch conditions reaches the read without an assignment"""
    v = re.search(r"variable '(\w+)'", m)
    fn = [f for f in fns if f.l <= l and any(a.l == l and a.k == 'DeclRefExpr' for a in f.walk())]
    if not v or not fn:
        # the diagnostic is anchored at the branch or declaration, not at the read
        fn = [f for f in fns if f.l <= l and any(a.l == l for a in f.walk())]
    if not v or not fn:
        return not m.endswith('[-Wconditional-uninitialized]')
    try:
        r = defassign.judge(fn[0], v.group(1))
    except defassign.Unsupported as x:
        ctx.skip('%s: %s' % (what, x))
        return False
    ctx.count('candidate_reads')
    if not r:
        return False
    if all(r.values()):
        ctx.skip('%s: only if a loop runs zero times' % what)
        return False
    return True


def norm(m):
    return re.sub(r"mod_x(_\d)?|ocp_x|mocp_\d", 'NAME', re.sub(r'\d+', '#', m))[:110]


def run(ctx):
    files = F.library_files()
    P = F.load(omp=True)
    P0 = F.load(omp=False)
    fns = lambda p, Q: [f for c in Q.functions.values() for q, f in c if f.f == p]
    with ThreadPoolExecutor(8) as ex:
        for f, omp, rc, ds in ex.map(lib_one, [(f, o) for f in files for o in (True, False)]):
            if rc:
                ctx.skip('%s does not parse' % f)
                continue
            ctx.count('library_units')
            for p, l, k, m in ds:
                if cat(m) in UNINIT and not confirm(ctx, fns(p, P if omp else P0), l, m, '%s:%s %s' % (p, l, m[:60])):
                    continue
                if cat(m) in CATS and not p.startswith('/'):
                    ctx.violation('%s:%s' % (p, norm(m)), '%s:%s' % (p, l), m[:180])
    memo = {}
    for g in gen.load():
        for o, u in g['units'].items():
            if u.tu is None:
                ctx.skip('%s of %s does not type-check' % (u.rel, g['cfg'].name))
                continue
            ctx.count('generated_units')
            ctx.count('generated_functions', len(u.tu.functions))
            for f, l, k, m in u.diags:
                if k == 'warning' and cat(m) in CATS:
                    w = gen.where(g, f, l) if f in g['maps'] else f
                    if cat(m) in UNINIT:
                        k = (u.rel, w, norm(m))
                        if k not in memo:
                            memo[k] = confirm(ctx, list(u.tu.functions.values()), l, m, '%s %s' % (w, m[:60]))
                        if not memo[k]:
                            continue
                    ctx.violation('%s:%s' % (w.rsplit(':', 1)[0], norm(m)), w, '%s (description %s)' % (m[:180], g['cfg'].name))
    ctx.floor('library_units', 60)
    ctx.floor('generated_units', 250)
