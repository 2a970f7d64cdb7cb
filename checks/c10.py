"""C10: no writable data with static storage duration in the library."""
import cfront as F

RULE = ('Every file-scope and function-local variable with static storage duration in every translation unit of acados/ and '
        'interfaces/acados_c/ (both with and without OpenMP) must be const-qualified at every level it can be written through; '
        'a non-const static object is shared mutable state. (Storage class and type are taken from the type-checked AST.)')

# objects confirmed by reading to be harmless; one line of reason each
ALLOWED = {}


def is_const(t):
    """the object itself is const (top-level const or array of const)"""
    t = t.strip()
    base = t
    while base.endswith(']'):
        base = base[:base.rindex('[')].strip()
    if base.endswith('*') or base.endswith('* restrict'):
        return False            # writable pointer
    if base.endswith('*const'):
        inner = base[:-len('*const')].strip()
        return inner.startswith('const ') or inner.endswith(' const') or '(' in inner or is_fn(inner)
    return base.startswith('const ') or base.endswith(' const') or ' const ' in base


def is_fn(t):
    return '(' in t


def run(ctx):
    for omp in (True, False):
        P = F.load(omp=omp)
        for path, tu in sorted(P.tus.items()):
            ctx.count('units')
            decls = [(None, g) for g in tu.globals]
            for n, fn in tu.functions.items():
                ctx.count('functions')
                for a in fn.walk():
                    if a.k == 'VarDecl' and (a.x or {}).get('storageClass') == 'static':
                        decls.append((n, a))
            for fn, g in decls:
                if (g.x or {}).get('storageClass') == 'extern' and not (g.x or {}).get('init'):
                    # a pure declaration: the definition is judged where it lives
                    pass
                ctx.count('static_objects')
                if is_const(g.t or ''):
                    ctx.sample('const: %s %s (%s)' % (g.t, g.n, g.f))
                    continue
                key = '%s:%s:%s' % (g.f, fn or '', g.n)
                if key in ALLOWED:
                    continue
                ctx.violation(key, '%s:%s' % (g.f, g.l), 'writable static object `%s %s`%s is shared by all solver instances'
                              % (g.t, g.n, ' in ' + fn if fn else ''))
    ctx.floor('functions', 2000)
