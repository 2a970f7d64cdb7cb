"""P24: foreign-function declarations of the Python wrappers agree with the C prototypes."""
import ast, re
import cfront as F, gen, pyffi, pyinterp as PI
from report import AnalysisBroken

RULE = ('Every method of the solver wrappers is interpreted abstractly (helpers inlined, loops over constants unrolled). Each assignment to .argtypes or .restype of a '
        'function of the acados library or of a generated solver, and each call of such a function, is compared with the C prototype found in the library headers '
        'and in the code generated for the family of synthetic descriptions (model name removed): argument count, kind of each argument, result type where the '
        'result is used (or is a pointer), argument count of each call, and that a function with pointer parameters is only called after its argument types '
        'were declared somewhere in the class.')
CLS = pyffi.WRAP + [('acados_ocp_qp_solver', 'AcadosOcpQpSolver')]
LIB = re.compile(r'(shared_lib|acados_lib)$|^(get_shared_lib|CDLL|ctypes\.CDLL)\(')
SCAL = {'c_int': 'int', 'c_int32': 'int', 'c_double': 'double', 'c_bool': 'bool', 'c_size_t': 'size_t', 'c_long': 'long', 'c_int64': 'long', 'c_float': 'float', 'c_char': 'char'}


def cname(v):
    """name of the C function a value denotes, model name as *, or None"""
    if v[0] == 'attr' and LIB.search(PI.text(v[1])):
        return v[2]
    if v[0] == 'call' and v[1] == 'getattr' and len(v[2]) >= 2 and LIB.search(PI.text(v[2][0])):
        return pyffi.strname(v[2][1], '*') or '?'
    return None


class Cl(pyffi.Inl):
    def __init__(self, C, merge):
        super().__init__(C, merge)
        self.decl = {}
        self.calls = {}
        self.fieldvals = {}

    def call(self, e, fname, fval, args, kw, node, st):
        n = cname(fval)
        if n:
            self.calls.setdefault((n, node.lineno), (node, args))
        return super().call(e, fname, fval, args, kw, node, st)


class Eng(PI.Py):
    def dedup(self, sts):
        # calls and declarations are collected on the way: the order of effects and earlier decisions do not matter
        for s in sts:
            s.eff = ()
            s.conds = ()
        return super().dedup(sts)

    def assign(self, t, v, st):
        if isinstance(t, ast.Attribute) and t.attr in ('argtypes', 'restype'):
            for b, s in self.ev(t.value, st):
                n = cname(b)
                if n:
                    self.c.decl.setdefault((n, t.attr, PI.text(v)), (v, t.lineno))
                else:
                    self.c.decl.setdefault((None, t.attr, t.lineno), (v, t.lineno))
        elif isinstance(t, ast.Attribute):
            self.c.fieldvals.setdefault(t.attr, []).append(v)
        return super().assign(t, v, st)


def ctype(v):
    """kind of a ctypes type value: 'int', ..., ('ptr', inner) , 'void', or None"""
    if v == ('c', None):
        return 'void'
    t = PI.text(v)
    m = re.fullmatch(r'(?:ctypes\.)?(c_\w+|wintypes\.\w+)', t)
    if m:
        if m.group(1) == 'c_void_p':
            return ('ptr', 'void')
        if m.group(1) == 'c_char_p':
            return ('ptr', 'char')
        return SCAL.get(m.group(1))
    m = re.fullmatch(r'(?:ctypes\.)?POINTER\((.*)\)', t)
    if m:
        m2 = re.fullmatch(r'(?:ctypes\.)?(c_\w+)', m.group(1))
        if m2:
            return ('ptr', 'ptr' if m2.group(1) in ('c_void_p', 'c_char_p') else SCAL.get(m2.group(1)))
        return ('ptr', 'ptr') if 'POINTER' in m.group(1) else None
    m = re.fullmatch(r'(?:np|numpy)\.ctypeslib\.ndpointer\(.*', t)
    if m:
        return ('ptr', pyffi.dtype_kind(v) or 'void')
    return None


def ckind(t):
    t = re.sub(r'\b(const|struct|volatile|restrict)\b', '', t).strip()
    t = re.sub(r'\s+', ' ', re.sub(r'\[\d*\]', '*', t))
    if t.count('*') > 1:
        return ('ptr', 'ptr')
    if '*' in t:
        b = t.replace('*', '').strip()
        return ('ptr', b if b in ('double', 'int', 'char', 'void', 'float', 'long', 'size_t') else 'bool' if b in ('bool', '_Bool') else 'obj')
    if t in ('_Bool', 'bool'):
        return 'bool'
    return t if t in ('int', 'double', 'void', 'size_t', 'long', 'float', 'char') else 'int'


def fits(d, c):
    if isinstance(d, tuple) and isinstance(c, tuple):
        return d[1] == 'void' or c[1] == 'void' or d[1] == c[1] or d[1] is None
    return d == c


def show(k):
    return '%s pointer' % k[1] if isinstance(k, tuple) else k


def run(ctx):
    P = F.load(omp=False)
    protos = {}

    def add(name, ty, ps, where):
        protos.setdefault(name, {}).setdefault((ckind(ty[:ty.index('(')].strip()), tuple(ckind(p) for p in ps)), where)
    for n, pr in P.protos.items():
        if pr[3] and not pr[3].startswith('/'):
            add(n, pr[0], pr[2], pr[3])
    for n, l in P.functions.items():
        for p, fn in l:
            if fn.t and '(' in (fn.t or '') and n not in protos:
                add(n, fn.t, [a.t for a in F.params(fn)], p)
    for g in gen.load():
        for o, u in g['units'].items():
            if u.tu is None:
                continue
            for n, fn in u.tu.functions.items():
                m = re.match(r'(?:mod_x|ocp_x|mocp_\d+|\w+?)_(acados_\w+)$', n)
                if m and '(' in (fn.t or ''):
                    add('*_' + m.group(1), fn.t, [a.t for a in F.params(fn)], u.rel)
    alld, work, fv = {}, [], {}
    for mod, cls in CLS:
        M = pyffi.module(mod)
        C = M.classes.get(cls)
        if C is None:
            ctx.skip('class %s not found' % cls)
            continue
        decl, calls = {}, {}
        path = '%s/%s.py' % (pyffi.BASE, mod)
        for name, fn in list(C.methods.items()) + list(C.getters.items()) + list(C.setters.items()):
            cl = Cl(C, True)
            e = Eng(cl, M.consts)
            try:
                e.run(fn, {'self': ('sym', 'self')})
            except PI.Limit:
                ctx.skip('%s.%s: too many paths; calls found on the explored ones only' % (cls, name))
            ctx.count('methods')
            for (n, a, t), (v, l) in cl.decl.items():
                decl.setdefault(n, {}).setdefault(a, []).append((v, l))
            for (n, l), x in cl.calls.items():
                calls.setdefault(n, {}).setdefault(l, x)
            for k, x in cl.fieldvals.items():
                fv.setdefault(k, []).extend(x)
        for n, d in decl.items():
            for a, x in d.items():
                alld.setdefault(n, {}).setdefault(a, []).extend(x)
        work.append((cls, path, C, decl, calls))
    for cls, path, C, decl, calls in work:
        exprs = {n.lineno for n in ast.walk(C.node) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)}
        for n, d in sorted(decl.items(), key=str):
            if n is None:
                continue
            ps = protos.get(n)
            if not ps:
                ctx.skip('%s: no C prototype of %s found' % (cls, n))
                continue
            for v, l in d.get('argtypes', ()):
                if v == ('c', None):
                    continue
                if v[0] not in ('list', 'tuple'):
                    ctx.skip('%s:%d: argument types of %s not constant' % (path, l, n))
                    continue
                ctx.count('declarations')
                for (res, par), w in ps.items():
                    if len(par) != len(v[1]):
                        ctx.violation('%s:%s:count' % (cls, n), '%s:%d' % (path, l), '%s is declared with %d arguments, its C prototype (%s) has %d' % (n, len(v[1]), w, len(par)))
                        continue
                    for i, (a, c) in enumerate(zip(v[1], par)):
                        k = ctype(a)
                        ctx.count('arguments')
                        if k is None:
                            ctx.skip('%s:%d: argument %d of %s: %s' % (path, l, i + 1, n, PI.text(a)[:60]))
                        elif not fits(k, c):
                            ctx.violation('%s:%s:arg%d' % (cls, n, i + 1), '%s:%d' % (path, l), 'argument %d of %s is declared %s, the C prototype (%s) has %s' % (i + 1, n, PI.text(a), w, show(c)))
        unknown = any(n is None or '?' in n or n == '*' for n in decl if n is None or decl[n])
        for n, at in sorted(calls.items()):
            ps = protos.get(n)
            if not ps:
                ctx.skip('%s: no C prototype of %s found' % (cls, n))
                continue
            d = decl.get(n) or alld.get(n, {})
            for l, (node, args) in sorted(at.items()):
                ctx.count('calls')
                used = l not in exprs
                star = any(isinstance(a, ast.Starred) for a in node.args)
                for (res, par), w in ps.items():
                    if not star and len(args) != len(par):
                        ctx.violation('%s:%s:call' % (cls, n), '%s:%d' % (path, l), '%s is called with %d arguments, its C prototype (%s) has %d' % (n, len(args), w, len(par)))
                    if not [v for v, _ in d.get('argtypes', ()) if v != ('c', None)] and not unknown:
                        for i, (a, c) in enumerate(zip(args, par)):
                            if isinstance(c, tuple) and raw_int(a, fv):
                                ctx.violation('%s:%s:undeclared' % (cls, n), '%s:%d' % (path, l), 'argument %d of %s is a pointer but the argument types are not declared: it is passed as a 32-bit int' % (i + 1, n))
                    rs = d.get('restype') or ([] if unknown else [(None, l)])
                    for v, l2 in rs:
                        k = ctype(v) if v is not None else 'int'
                        if used and k is not None and not fits(k, res):
                            ctx.violation('%s:%s:result' % (cls, n), '%s:%d' % (path, l2), 'the result of %s is used as %s, the C prototype (%s) returns %s' % (n, show(k), w, show(res)))
        ctx.sample('%s: %d functions declared, %d called' % (cls, len([n for n in decl if n]), len(calls)))
    if ctx.counts.get('declarations', 0) < 20 or ctx.counts.get('calls', 0) < 20:
        raise AnalysisBroken('P24: foreign-function declarations or calls not found')


def raw_int(a, fv, depth=0):
    """the value is a Python integer holding an address (result of a foreign function, or a field that was assigned one)"""
    if cname(a[4]) if a[0] == 'call' and len(a) > 4 else False:
        return True
    if a[0] == 'attr' and depth < 3:
        return any(raw_int(v, fv, depth + 1) for v in fv.get(a[2], ()))
    return False
