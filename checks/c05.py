"""C05: values crossing an untyped name/pointer interface are read with the type they were passed with."""
import re
import cfront as F, cgraph, dispatch, fields, templates, pyffi

RULE = ('Every name-dispatched C function is interpreted abstractly once per name that reaches it (name bound to the constant, value pointer symbolic; slots '
        'followed to every installed module), which yields the types it reads or writes through the value pointer. Every call site that passes a literal name '
        '- in the C library (clang AST), in the generated-code templates (declarations of the passed variable in the template), and in the Python wrappers '
        '(path-sensitive interpretation of each method per name; ctypes constructors, casts and dtypes give the type) - is compared with it. '
        'A pair (call site, using statement) with two different known types is the violation.')


def compat(passed, read):
    if passed == read:
        return True
    if passed == 'ptr' and read in ('ptr',):
        return True
    return False


class Kinds:
    """kinds a dispatcher reads/writes through its value pointers for a concrete name (memoised)"""

    def __init__(self, P, G, D):
        self.P, self.G, self.D = P, G, D
        self.memo = {}

    def get(self, path, name, field):
        k = (path, name, field)
        if k not in self.memo:
            r = fields.run_field(self.P, self.G, path, name, self.D[(path, name)], field)
            self.memo[k] = r
        return self.memo[k]


def ptr_kind(P, t):
    t = (t or '').strip()
    m = re.match(r'^(.*?)\s*\[\d*\]$', t)
    if m:
        return fields.canon(P, m.group(1))
    if t.endswith('*'):
        k = fields.canon(P, t[:-1])
        return None if k == 'void' else k
    return None


def judge(ctx, K, path, name, field, kinds, where, key):
    """kinds: {parameter index: kind passed}"""
    r = K.get(path, name, field)
    if r is None:
        ctx.skip('%s(%s): not analysable' % (name, field)); return
    c, outs = r
    fn = dict(K.P.functions[name])[path]
    ps = F.params(fn)
    ctx.count('values passed')
    seen = False
    for i, kind in kinds.items():
        if i >= len(ps) or kind is None:
            continue
        used = {}
        used.update(c.reads.get(ps[i].n, {}))
        used.update(c.outs.get(ps[i].n, {}))
        for u, w in sorted(used.items()):
            seen = True
            if u == 'ptr' or kind == 'ptr':
                if u == kind:
                    continue
            if not compat(kind, u):
                ctx.violation('%s:%s' % (key, w.split(':')[0] + ':' + u), where,
                              '%s passes "%s" as %s, but %s uses it as %s' % (name, field, kind, w, u))
    if seen:
        ctx.count('values with known type at both ends')


def run(ctx):
    P = F.load(); G = cgraph.CG(P)
    D = dispatch.dispatchers(P, G)
    K = Kinds(P, G, D)
    byname = {}
    for (path, name), idx in D.items():
        byname.setdefault(name, []).append(path)
    # library call sites
    for name, lst in sorted(P.functions.items()):
        for path, fn in lst:
            for a in fn.walk():
                if a.k != 'CallExpr':
                    continue
                t = F.callee(a)
                for (p2, n2) in dispatch.call_targets(P, G, a, t, path):
                    idx = D.get((p2, n2))
                    if idx is None or idx + 1 >= len(a.c):
                        continue
                    s = F.string_lit(a.c[1 + idx])
                    if s is None:
                        continue
                    kinds = {}
                    for j, x in enumerate(a.c[1:]):
                        if j > idx:
                            kinds[j] = ptr_kind(P, F.strip_casts(x).t)
                    if any(kinds.values()):
                        ctx.count('library call sites')
                        judge(ctx, K, p2, n2, s, kinds, '%s:%s' % (path, a.l), '%s:%s:%s' % (path, name, s))
    # generated code
    for tp in templates.files():
        sk = templates.skeleton(tp)
        for call in templates.calls(sk):
            if call.name not in byname:
                continue
            path = byname[call.name][0]
            idx = D[(path, call.name)]
            if idx >= len(call.args):
                continue
            s = templates.literal(call.args[idx])
            if s is None:
                if len(call.args[idx]) == 1 and call.args[idx][0].k == 'str':
                    ctx.count('names built by the template')
                continue
            kinds = {j: templates.ptr_kind(P, sk, call, a) for j, a in enumerate(call.args) if j > idx}
            ctx.count('template call sites')
            if not any(kinds.values()):
                ctx.count('template values of unknown type')
                continue
            judge(ctx, K, path, call.name, s, kinds, '%s:%d' % (tp, call.line), '%s:%s:%s' % (tp.split('/')[-1], call.name, s))
    # Python wrappers
    import pyinterp as PI
    for mod, cl in pyffi.WRAP:
        C = pyffi.module(mod).classes[cl]
        for mname, fn in sorted(C.methods.items()):
            names = set(pyffi.candidates(C, fn))
            r0 = pyffi.run_method(mod, cl, mname, {})
            named = set()
            for f, args, line in (pyffi.foreign(r0) if r0 is not None else ()):
                if f in byname:
                    k = (byname[f][0], f)
                    if D[k] < len(args):
                        named |= set(re.findall(r'\w+', PI.text(args[D[k]])))
                        named |= {x for c in [1] for x in pyffi.strparams(fn) if args[D[k]][0] == 'c'}
                    k = (byname[f][0], f)
                    if D[k] < len(args) and args[D[k]][0] != 'c':
                        names |= {n for n in dispatch.all_literals(P, G, D, k) if re.match(r'^[A-Za-z]\w*$', n)}
            bs = [{}] + [{q: c} for q in pyffi.strparams(fn) if q in named for c in sorted(names)]
            if r0 is None:
                ctx.skip('%s.%s: too many paths' % (cl, mname)); bs = []
            done = set()
            for b in bs:
                r = pyffi.run_method(mod, cl, mname, b)
                if r is None:
                    ctx.skip('%s.%s: too many paths' % (cl, mname)); continue
                for f, args, line in pyffi.foreign(r, lambda f, args: ends(K, D, byname, f, args)):
                    if f not in byname:
                        continue
                    path = byname[f][0]
                    idx = D[(path, f)]
                    if idx >= len(args) or args[idx][0] != 'c' or not isinstance(args[idx][1], bytes):
                        continue
                    s = args[idx][1].decode()
                    kinds = {j: pyffi.value_kind(a) for j, a in enumerate(args) if j > idx}
                    k = (f, s, tuple(sorted(kinds.items())))
                    if k in done:
                        continue
                    done.add(k)
                    ctx.count('wrapper call sites')
                    if any(kinds.values()):
                        judge(ctx, K, path, f, s, kinds, '%s/%s.py:%d' % (pyffi.BASE, mod, line), '%s.%s:%s:%s' % (cl, mname, f, s))
    ctx.floor('library call sites', 500)
    ctx.floor('template call sites', 600)
    ctx.floor('wrapper call sites', 200)
    ctx.floor('values with known type at both ends', 900)


def ends(K, D, byname, f, args):
    """the C function never returns for this name"""
    if f not in byname:
        return False
    path = byname[f][0]
    idx = D[(path, f)]
    if idx < len(args) and args[idx][0] == 'c' and isinstance(args[idx][1], bytes):
        r = K.get(path, f, args[idx][1].decode())
        return r is not None and not r[1]
    return False


def fn_calls(fn):
    import ast
    return {n.func.attr for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
