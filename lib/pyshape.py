"""Abstract interpretation of Python methods in a domain of array shapes (nothing is executed): sizes are linear expressions over symbols
with lower bounds and disequalities, arrays are known by shape and by bounds of their entries, everything else is opaque with the attributes it derives from.
Conditions are three-valued; an opaque one whose one branch raises is taken as not raising (and remembered), another one forks."""
import ast

MAXPATH = 600
MAXSTEP = 60000


class Stop(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, line, what=''):
        self.line = line; self.what = what


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Lin:
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = c; self.t = {k: v for k, v in (t or {}).items() if v}

    def key(self):
        return (self.c, tuple(sorted(self.t.items())))

    def __repr__(self):
        s = '+'.join((k if v == 1 else '%d*%s' % (v, k)) for k, v in sorted(self.t.items()))
        return s + ('%+d' % self.c if self.c and s else '' if s else str(self.c))


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, bool):
        return Lin(int(x))
    if isinstance(x, int):
        return Lin(x)
    return None


def sym(n):
    return Lin(0, {n: 1})


def add(a, b, s=1):
    t = dict(a.t)
    for k, v in b.t.items():
        t[k] = t.get(k, 0) + s * v
    return Lin(a.c + s * b.c, t)


def num(x):
    """Lin without symbols back to int"""
    return x.c if isinstance(x, Lin) and not x.t else x


class Arr:
    """kind: np / ca / list; hi: every entry < hi; over: some entry >= over; lo: every entry >= lo; under: some entry < under"""

    def __init__(self, kind, shape, src=(), **a):
        self.kind = kind; self.shape = list(shape); self.src = frozenset(src); self.a = a


class Obj:
    def __init__(self, cls, path):
        self.cls = cls; self.path = path; self.s = {}


class Op:
    def __init__(self, src=(), key=None):
        self.src = frozenset(src); self.key = key


class Elem:
    def __init__(self, arr):
        self.arr = arr


class AsSet(Elem):
    pass


class Ext:
    """largest or smallest entry"""

    def __init__(self, arr, which):
        self.arr = arr; self.which = which


class Mask:
    def __init__(self, arr, op, b):
        self.arr = arr; self.op = op; self.b = b


class LC:
    """a linear condition: a op b"""

    def __init__(self, op, a, b):
        self.op = op; self.a = a; self.b = b
        self.key = (op, a.key(), b.key())


class MB:
    """elementwise and / or of masks"""

    def __init__(self, op, parts):
        self.op = op; self.parts = parts


class BX:
    """and / or / not of conditions"""

    def __init__(self, op, parts):
        self.op = op; self.parts = parts


class SymSet(list):
    pass


class Rng:
    def __init__(self, lo, hi):
        self.lo = lo; self.hi = hi


class Fn:
    def __init__(self, node, env, self_=None, cls=None):
        self.node = node; self.env = env; self.self_ = self_; self.cls = cls


class Bi:
    def __init__(self, name, base=None):
        self.name = name; self.base = base


class Cls:
    def __init__(self, name):
        self.name = name


def srcs(*vs):
    out = set()
    for v in vs:
        if isinstance(v, (Op, Arr)):
            out |= v.src
        elif isinstance(v, (Elem, Ext)):
            out |= v.arr.src
        elif isinstance(v, Mask):
            out |= v.arr.src | srcs(v.b)
        elif isinstance(v, Rng):
            out |= srcs(v.lo, v.hi)
        elif isinstance(v, Lin):
            out |= {'$' + k for k in v.t}
        elif isinstance(v, LC):
            out |= srcs(v.a, v.b)
        elif isinstance(v, (BX, MB)):
            out |= srcs(*v.parts)
        elif isinstance(v, (list, tuple, set)):
            out |= srcs(*v)
        elif isinstance(v, dict):
            out |= srcs(*v.values())
    return out


class Facts:
    def __init__(self, lb=None, ne=()):
        self.lb = lb or {}
        self.ne = {(Lin(0, {}) if x is None else x).key() for x in ne}
        self.ne |= {Lin(-x.c, {k: -v for k, v in x.t.items()}).key() for x in ne}

    def rng(self, d):
        lo = hi = d.c
        for k, v in d.t.items():
            l = self.lb.get(k, 0)
            if v > 0:
                hi = None
                lo = None if lo is None else lo + v * l
            else:
                lo = None
                hi = None if hi is None else hi + v * l
        return lo, hi

    def cmp(self, op, a, b):
        d = add(a, b, -1)
        lo, hi = self.rng(d)
        if op == '==' or op == '!=':
            r = None
            if not d.t:
                r = d.c == 0
            elif d.key() in self.ne or (lo is not None and lo > 0) or (hi is not None and hi < 0):
                r = False
            return r if op == '==' or r is None else not r
        if op == '>':
            return True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
        if op == '>=':
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            return None
        if op == '<':
            return self.cmp('>', b, a)
        return self.cmp('>=', b, a)


OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
PYT = {'int': int, 'float': float, 'str': str, 'list': list, 'tuple': tuple, 'dict': dict, 'set': set, 'bool': bool}


class World:
    """classes: name -> ClassDef, funcs: name -> FunctionDef (module level)"""

    def __init__(self, trees):
        self.classes = {}; self.funcs = {}; self.consts = {}; self.where = {}; self.mem = {}
        for f, t in trees:
            for n in t.body:
                if isinstance(n, ast.ClassDef):
                    self.classes[n.name] = n; self.where[n.name] = f
                elif isinstance(n, ast.FunctionDef):
                    self.funcs.setdefault(n.name, n); self.where.setdefault(n.name, f)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    self.consts.setdefault(n.targets[0].id, n.value)

    def members(self, c):
        if c in self.mem:
            return self.mem[c]
        out = {}
        n = self.classes.get(c)
        if n is not None:
            for b in n.bases:
                if isinstance(b, ast.Name):
                    out.update(self.members(b.id))
            for x in n.body:
                if isinstance(x, ast.FunctionDef):
                    dec = [ast.unparse(d) for d in x.decorator_list]
                    if 'property' in dec:
                        out[x.name] = ('prop', x)
                    elif any(d.endswith('.setter') for d in dec):
                        out.setdefault(x.name, ('prop', x))
                    else:
                        out[x.name] = ('static' if 'staticmethod' in dec else 'class' if 'classmethod' in dec else 'meth', x)
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
                    out[x.target.id] = ('val', x.value)
                elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                    out[x.targets[0].id] = ('val', x.value)
        self.mem[c] = out
        return out


class Ev:
    def __init__(self, w, facts, skip=(), stubs=None):
        self.w = w; self.f = facts; self.skip = set(skip); self.stubs = stubs or {}
        self.dec = []; self.pos = 0; self.forks = []; self.assumed = []; self.steps = 0; self.depth = 0; self.atoms = {}; self.taint = None; self.pol = False

    # ---- truth
    def truth(self, v):
        if isinstance(v, Lin):
            return self.f.cmp('!=', v, Lin(0))
        if isinstance(v, (Op, Elem, Ext)):
            return None
        if isinstance(v, LC):
            return self.f.cmp(v.op, v.a, v.b)
        if isinstance(v, BX):
            ts = [self.truth(x) for x in v.parts]
            if v.op == 'not':
                return None if ts[0] is None else not ts[0]
            if v.op == 'or':
                return True if True in ts else None if None in ts else False
            return False if False in ts else None if None in ts else True
        if isinstance(v, (Mask, MB)):
            return None
        if isinstance(v, Arr):
            if v.kind == 'list':
                return self.f.cmp('!=', v.shape[0], Lin(0))
            return None
        if isinstance(v, (Obj, Fn, Bi, Cls)):
            return True
        return bool(v)

    def raises(self, body):
        for s in body:
            if isinstance(s, ast.Raise):
                return True
            if isinstance(s, ast.If) and s.orelse and self.raises(s.body) and self.raises(s.orelse):
                return True
        return False

    def decide(self, v, line, br=None):
        t = self.truth(v)
        if t is not None:
            return t
        if br is not None:
            r1, r2 = self.raises(br[0]), self.raises(br[1])
            if r1 != r2 and not exact(v):
                self.assumed.append((srcs(v), line))
                return r2
        k = ('m', id(v.arr), v.op, repr(v.b)) if isinstance(v, Mask) else ('l', v.key()) if isinstance(v, Lin) else ('o', v.key) if isinstance(v, (Op, LC)) and v.key else None
        if k is not None and k in self.atoms:
            return self.atoms[k]
        if self.taint is not None and not (srcs(v) & self.taint):
            self.forks.append((srcs(v), line, self.pol, v))
            return self.pol
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            d = True; self.dec.append(True)
        self.pos += 1
        self.forks.append((srcs(v), line, d, v))
        if k is not None:
            self.atoms[k] = d
        return d

    # ---- statements
    def run(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > MAXSTEP:
            raise Stop()
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            l = ast.copy_location(ast.Name(s.target.id, ast.Load()), s) if isinstance(s.target, ast.Name) else s.target
            old = self.ev(l, env)
            self.assign(s.target, self.binop(s.op, old, self.ev(s.value, env)), env)
        elif isinstance(s, ast.If):
            if self.decide(self.ev(s.test, env), s.lineno, (s.body, s.orelse)):
                self.run(s.body, env)
            else:
                self.run(s.orelse, env)
        elif isinstance(s, ast.For):
            it = self.iter(self.ev(s.iter, env))
            if it is None:
                # unknown number of iterations: one representative with an opaque element, its raises assumed away
                v = self.ev(s.iter, env)
                self.assign(s.target, Elem(v) if isinstance(v, Arr) and len(v.shape) == 1 else Op(srcs(v)), env)
                try:
                    self.run(s.body, env)
                except (Brk, Cont):
                    pass
                return
            for x in it:
                self.assign(s.target, x, env)
                try:
                    self.run(s.body, env)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.run(s.orelse, env)
        elif isinstance(s, ast.While):
            n = 0
            while True:
                t = self.truth(self.ev(s.test, env))
                if t is None:
                    raise Stop()
                if not t:
                    break
                n += 1
                if n > 200:
                    raise Stop()
                try:
                    self.run(s.body, env)
                except Brk:
                    break
                except Cont:
                    continue
        elif isinstance(s, ast.Return):
            raise Ret(None if s.value is None else self.ev(s.value, env))
        elif isinstance(s, ast.Raise):
            w = ''
            if s.exc is not None:
                for c in ast.walk(s.exc):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        w = c.value; break
            raise PyRaise(s.lineno, w)
        elif isinstance(s, ast.Assert):
            v = self.ev(s.test, env)
            t = self.truth(v)
            if t is False:
                raise PyRaise(s.lineno, 'assert')
            if t is None:
                self.assumed.append((srcs(v), s.lineno))
        elif isinstance(s, ast.Try):
            try:
                self.run(s.body, env)
            except PyRaise:
                if s.handlers:
                    self.run(s.handlers[0].body, env)
                else:
                    self.run(s.finalbody, env)
                    raise
            else:
                self.run(s.orelse, env)
            self.run(s.finalbody, env)
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            self.run(s.body, env)
        elif isinstance(s, (ast.FunctionDef,)):
            env[s.name] = Fn(s, env)
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cont()
        elif isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Delete)):
            pass
        elif isinstance(s, ast.Match):
            v = self.ev(s.subject, env)
            for c in s.cases:
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    t = True
                    if c.pattern.name:
                        env[c.pattern.name] = v
                else:
                    vals = c.pattern.patterns if isinstance(c.pattern, ast.MatchOr) else [c.pattern]
                    t = False
                    for p in vals:
                        if not isinstance(p, ast.MatchValue):
                            raise Stop()
                        x = self.compare('==', v, self.ev(p.value, env))
                        t = True if x is True else t if x is False else None
                    if t is None:
                        raise Stop()
                if t and c.guard is not None:
                    t = self.decide(self.ev(c.guard, env), c.guard.lineno)
                if t:
                    self.run(c.body, env)
                    break
        else:
            raise Stop()

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.iter(v)
            if it is None or len(it) != len(t.elts):
                it = [Op(srcs(v)) for _ in t.elts]
                if isinstance(v, Op) and v.key == 'shape':
                    it = [Op(v.src) for _ in t.elts]
            for a, b in zip(t.elts, it):
                self.assign(a, b, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                o.s[t.attr.lstrip('_') if t.attr.startswith('_') else t.attr] = v
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(o, dict):
                i = self.ev(t.slice, env)
                if isinstance(i, (str, int, bool, float, tuple)):
                    o[i] = v
        elif isinstance(t, ast.Starred):
            pass

    def iter(self, v):
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, set):
            return sorted(v, key=str)
        if isinstance(v, str):
            return list(v)
        return None

    # ---- expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > MAXSTEP:
            raise Stop()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return Op()
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        n = e.id
        c = env
        while c is not None:
            if n in c:
                return c[n]
            c = c.get('$up')
        if n in self.stubs:
            return Bi(n)
        if n in self.w.funcs:
            return Fn(self.w.funcs[n], {})
        if n in self.w.classes:
            return Cls(n)
        if n in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[n]
        if n in self.w.consts:
            return self.ev(self.w.consts[n], {})
        return Bi(n)

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.attr(o, e.attr)

    def attr(self, o, a):
        if isinstance(o, Obj):
            k = a.lstrip('_') if a.startswith('_') and not a.startswith('__dict') else a
            if a in o.s:
                return o.s[a]
            m = self.w.members(o.cls).get(a)
            if m is not None and m[0] in ('meth', 'static', 'class'):
                return Fn(m[1], {}, None if m[0] == 'static' else Cls(o.cls) if m[0] == 'class' else o, o.cls)
            if m is not None and m[0] == 'prop':
                if a in o.s:
                    return o.s[a]
                if m[1].args.args and len(m[1].args.args) == 1:
                    return self.invoke(Fn(m[1], {}, o, o.cls), [], {})
            if m is not None and m[0] == 'val':
                return self.ev(m[1], {})
            if k in o.s:
                return o.s[k]
            return Op({o.path + '.' + a}, o.path + '.' + a)
        if isinstance(o, Arr):
            if a == 'shape':
                return tuple(num(x) for x in o.shape)
            if a == 'size':
                return self.size(o)
            if a == 'ndim':
                return len(o.shape)
            if a == 'T' and len(o.shape) == 2:
                return Arr(o.kind, o.shape[::-1], o.src)
            return Bi(a, o)
        if isinstance(o, Bi) and o.base is None:
            return Bi(o.name + '.' + a)
        if isinstance(o, Cls):
            m = self.w.members(o.name).get(a)
            if m is not None and m[0] in ('static', 'meth', 'class'):
                return Fn(m[1], {}, o if m[0] == 'class' else None, o.name)
            if m is not None and m[0] == 'val':
                return self.ev(m[1], {})
            return Op()
        if isinstance(o, Op):
            return Bi(a, o)
        return Bi(a, o)

    def size(self, o):
        t = Lin(1)
        for x in o.shape:
            x = lin(x)
            if t.key() == (1, ()):
                t = x
            elif x.key() == (1, ()):
                pass
            elif x.key() == (0, ()) or t.key() == (0, ()):
                t = Lin(0)
            else:
                return Op(o.src)
        return num(t)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            if isinstance(o, (list, tuple, str)):
                b = [None if x is None else self.ev(x, env) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                if all(x is None or isinstance(x, int) for x in b):
                    return o[slice(*b)]
            return Op(srcs(o))
        i = self.ev(e.slice, env)
        try:
            if isinstance(o, (list, tuple, str)) and isinstance(i, int):
                return o[i]
            if isinstance(o, dict):
                return o[i]
        except (IndexError, KeyError, TypeError):
            raise PyRaise(e.lineno, 'index')
        return Op(srcs(o, i))

    def e_Tuple(self, e, env):
        return tuple(self.elts(e, env))

    def elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iter(self.ev(x.value, env))
                if it is None:
                    raise Stop()
                out += it
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, e, env):
        return list(self.elts(e, env))

    def e_Set(self, e, env):
        return self.mkset(self.elts(e, env))

    def mkset(self, v):
        if any(isinstance(x, Lin) for x in v):
            return SymSet(v)
        try:
            return set(v)
        except TypeError:
            return Op(srcs(v))

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                if isinstance(x, dict):
                    d.update(x)
                continue
            k = self.ev(k, env)
            v = self.ev(v, env)
            if isinstance(k, (str, int, float, bool, tuple, type(None))):
                d[k] = v
        return d

    def e_JoinedStr(self, e, env):
        out = ''
        for x in e.values:
            v = x.value if isinstance(x, ast.Constant) else self.ev(x.value, env)
            if isinstance(v, (str, int, float)):
                out += str(v)
            else:
                return Op()
        return out

    def e_Lambda(self, e, env):
        return Fn(e, env)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.decide(self.ev(e.test, env), e.lineno) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        unk = []
        v = None
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if t is None:
                unk.append(v)
            elif t != isand:
                return v
        if unk:
            return unk[0] if len(unk) == 1 and isinstance(unk[0], (Op, Mask, LC, BX)) else BX('and' if isand else 'or', unk)
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return BX('not', [v]) if t is None else not t
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Lin):
                return Lin(-v.c, {k: -x for k, x in v.t.items()})
            if isinstance(v, Arr):
                return Arr(v.kind, v.shape, v.src)
        return Op(srcs(v))

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        la, lb = lin(a), lin(b)
        if la is not None and lb is not None:
            if isinstance(op, ast.Add):
                return num(add(la, lb))
            if isinstance(op, ast.Sub):
                return num(add(la, lb, -1))
            if isinstance(op, ast.Mult):
                if not la.t:
                    return num(Lin(la.c * lb.c, {k: v * la.c for k, v in lb.t.items()}))
                if not lb.t:
                    return num(Lin(la.c * lb.c, {k: v * lb.c for k, v in la.t.items()}))
            if isinstance(op, ast.Mod) and not lb.t and lb.c == 1:
                return 0
        try:
            if isinstance(a, (int, float, str, list, tuple)) and isinstance(b, (int, float, str, list, tuple)):
                if isinstance(op, ast.Add):
                    return a + b
                if isinstance(op, ast.Sub):
                    return a - b
                if isinstance(op, ast.Mult):
                    return a * b
                if isinstance(op, ast.Div):
                    return a / b
                if isinstance(op, ast.Mod) and not isinstance(a, str):
                    return a % b
                if isinstance(op, ast.Pow):
                    return a ** b
        except (TypeError, ZeroDivisionError, OverflowError):
            return Op()
        if isinstance(a, (Mask, MB)) and isinstance(b, (Mask, MB)) and isinstance(op, (ast.BitOr, ast.BitAnd)):
            return MB('or' if isinstance(op, ast.BitOr) else 'and', [a, b])
        if isinstance(a, (Elem, Ext)) or isinstance(b, (Elem, Ext)):
            return Op(srcs(a, b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Arr) and not isinstance(y, Arr):
                return Arr(x.kind, x.shape, srcs(x, y))
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape):
            return Arr(a.kind, a.shape, srcs(a, b))
        return Op(srcs(a, b))

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env)
            v = self.cmpop(op, l, r)
            t = self.truth(v)
            if t is False:
                return False
            if t is None:
                if res is not True:
                    res = BX('and', [res, v])
                else:
                    res = v
            l = r
        return res

    def cmpop(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = None
            if a is None or b is None:
                o = b if a is None else a
                r = True if o is None else None if isinstance(o, Op) else False
            elif isinstance(a, bool) or isinstance(b, bool):
                r = a is b if not isinstance(a, Op) and not isinstance(b, Op) else None
            elif isinstance(a, Obj) or isinstance(b, Obj):
                r = a is b
            if r is None:
                return Op(srcs(a, b))
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            if isinstance(r, (Op, Mask)):
                if isinstance(op, ast.NotIn) and isinstance(r, Mask):
                    return Mask(r.arr, 'notin' if r.op == 'in' else 'in', r.b)
                return Op(srcs(a, b)) if isinstance(op, ast.NotIn) else r
            return r if isinstance(op, ast.In) else not r
        for x, y, o in ((a, b, OPS[type(op)]), (b, a, FLIP[OPS[type(op)]])):
            if isinstance(x, Ext) and lin(y) is not None and o not in ('==', '!='):
                up = o in ('>', '>=')
                if up == (x.which == 'max'):
                    return self.anymask(Mask(x.arr, o, y))
                return self.allmask(Mask(x.arr, o, y))
        la, lb = lin(a), lin(b)
        if la is not None and lb is not None and (la.t or lb.t):
            c = LC(OPS[type(op)], la, lb)
            t = self.truth(c)
            return c if t is None else t
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(op) in (ast.Eq, ast.NotEq):
            ps = [self.cmpop(ast.Eq(), x, y) for x, y in zip(a, b)]
            c = BX('and', ps)
            t = self.truth(c)
            c = c if t is None else t
            return c if isinstance(op, ast.Eq) else not c if t is not None else BX('not', [c])
        if (isinstance(a, SymSet) or isinstance(b, SymSet)) and type(op) in (ast.Eq, ast.NotEq) and self.iter(a) is not None and self.iter(b) is not None:
            x, y = self.iter(a), self.iter(b)
            c = BX('and', [BX('or', [self.cmpop(ast.Eq(), i, j) for j in y]) for i in x] + [BX('or', [self.cmpop(ast.Eq(), i, j) for i in x]) for j in y])
            t = self.truth(c)
            return BX('not' if isinstance(op, ast.NotEq) else 'and', [c]) if t is None else t == isinstance(op, ast.Eq)
        r = self.compare(OPS[type(op)], a, b)
        return Op(srcs(a, b)) if r is None else r

    def contains(self, a, b):
        if isinstance(b, Rng) and isinstance(a, Elem):
            return Mask(a.arr, 'in', (b.lo, b.hi))
        if isinstance(b, (list, tuple, set, dict)):
            un = False
            for x in b:
                r = self.compare('==', a, x)
                if r is True:
                    return True
                if r is not False:
                    un = True
            return Op(srcs(a, b)) if un else False
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        return Op(srcs(a, b))

    def compare(self, op, a, b):
        """True / False / None / Mask"""
        la, lb = lin(a), lin(b)
        if la is not None and lb is not None:
            return self.f.cmp(op, la, lb) if la.t or lb.t else self.native(op, a if not isinstance(a, Lin) else a.c, b if not isinstance(b, Lin) else b.c)
        for x, y, o in ((a, b, op), (b, a, FLIP[op])):
            if isinstance(x, (Arr, Elem)) and not isinstance(y, (Arr, Elem)) and (lin(y) is not None or isinstance(y, (Op, float))):
                arr = x.arr if isinstance(x, Elem) else x
                if isinstance(x, Elem) or x.kind != 'list':
                    return Mask(arr, o, y)
        if isinstance(a, Op) and isinstance(b, Op) and a.key and a.key == b.key and op in ('==', '!='):
            return op == '=='
        if isinstance(a, (Op, Elem, Ext, Mask, MB, Arr)) or isinstance(b, (Op, Elem, Ext, Mask, MB, Arr)):
            if isinstance(a, Arr) and isinstance(b, Arr) and op in ('==', '!='):
                if len(a.shape) == 1 and len(b.shape) == 1:
                    return Mask(a, op, b)
                return None
            if op in ('==', '!=') and (a is None or b is None or isinstance(a, str) or isinstance(b, str)) and not isinstance(a, Op) and not isinstance(b, Op):
                return op == '!='
            return None
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ('==', '!='):
            if len(a) != len(b):
                return op == '!='
            un = False
            for x, y in zip(a, b):
                r = self.compare('==', x, y)
                if r is False:
                    return op == '!='
                if r is not True:
                    un = True
            return None if un else op == '=='
        if isinstance(a, (list, dict)) and isinstance(b, (list, dict)) and not srcs(a, b):
            return self.native(op, a, b)
        if (la is not None) != (lb is not None) or isinstance(a, (Obj, Cls, Fn, Bi)) or isinstance(b, (Obj, Cls, Fn, Bi)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return self.native(op, a, b)
            if isinstance(a, Lin) or isinstance(b, Lin):
                x, y = (a, b) if isinstance(a, Lin) else (b, a)
                if isinstance(y, float):
                    if y == int(y) if abs(y) < 1e15 else False:
                        return self.f.cmp(op, lin(a) or Lin(int(a)), lin(b) or Lin(int(b)))
                    return None
            if op in ('==', '!='):
                return None if isinstance(a, Bi) or isinstance(b, Bi) else op == '!='
            return None
        return self.native(op, a, b)

    def native(self, op, a, b):
        try:
            return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        except TypeError:
            return None

    # any / all over a mask
    def anymask(self, m):
        if isinstance(m, MB):
            ps = [self.anymask(x) for x in m.parts]
            if m.op == 'or':
                c = BX('or', ps)
            elif False in ps:
                return False
            else:
                return Op(srcs(m))
            t = self.truth(c)
            return c if t is None else t
        a = m.arr
        n = lin(a.shape[0]) if a.shape else None
        if n is not None and self.f.cmp('==', n, Lin(0)) is True:
            return False
        if m.op in ('in', 'notin'):
            lo, hi = lin(m.b[0]), lin(m.b[1])
            if m.op == 'notin' and lo is not None and hi is not None:
                x = self.anymask(Mask(a, '>=', hi)); y = self.anymask(Mask(a, '<', lo))
                if x is True or y is True:
                    return True
                if x is False and y is False:
                    return False
                if exact(x) and exact(y):
                    return BX('or', [z for z in (x, y) if z is not False])
            return Op(srcs(m))
        b = lin(m.b)
        if b is None:
            if isinstance(m.b, float) and abs(m.b) > 1e8 and 'hi' in a.a:
                return False
            return Op(srcs(m))
        op = m.op
        if op in ('>=', '>') and 'max' in a.a and n is not None and self.f.cmp('>', n, Lin(0)) is True:
            c = LC(op, a.a['max'], b)
            t = self.truth(c)
            return c if t is None else t
        if op in ('<=', '<') and 'min' in a.a and n is not None and self.f.cmp('>', n, Lin(0)) is True:
            c = LC(op, a.a['min'], b)
            t = self.truth(c)
            return c if t is None else t
        if op == '>':
            op, b = '>=', add(b, Lin(1))
        if op == '<=':
            op, b = '<', add(b, Lin(1))
        if op == '>=':
            if 'over' in a.a and self.f.cmp('>=', a.a['over'], b) is True:
                return True
            if 'hi' in a.a and self.f.cmp('<=', a.a['hi'], b) is True:
                return False
        if op == '<':
            if 'under' in a.a and self.f.cmp('<=', a.a['under'], b) is True:
                return True
            if 'lo' in a.a and self.f.cmp('>=', a.a['lo'], b) is True:
                return False
        return Op(srcs(m))

    def allmask(self, m):
        if isinstance(m, MB):
            ps = [self.allmask(x) for x in m.parts]
            if m.op == 'and':
                c = BX('and', ps)
            elif True in ps:
                return True
            else:
                return Op(srcs(m))
            t = self.truth(c)
            return c if t is None else t
        inv = {'>=': '<', '<': '>=', '>': '<=', '<=': '>', 'in': 'notin', 'notin': 'in', '==': '!=', '!=': '=='}
        r = self.anymask(Mask(m.arr, inv[m.op], m.b))
        return BX('not', [r]) if not isinstance(r, bool) else not r

    def e_ListComp(self, e, env):
        return self.comp(e, env, e.elt)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        v = self.comp(e, env, e.elt)
        return self.mkset(v) if isinstance(v, list) else v

    def e_DictComp(self, e, env):
        v = self.comp(e, env, ast.Tuple([e.key, e.value], ast.Load()))
        if isinstance(v, list):
            try:
                return {k: x for k, x in v}
            except TypeError:
                pass
        return Op(srcs(v))

    def comp(self, e, env, elt):
        def rec(gs, en):
            if not gs:
                return [self.ev(elt, en)]
            g = gs[0]
            src = self.ev(g.iter, en)
            it = self.iter(src)
            if it is None:
                if isinstance(src, Arr) and len(src.shape) == 1 and len(gs) == 1 and not g.ifs:
                    e2 = {'$up': en}
                    self.assign(g.target, Elem(src), e2)
                    v = self.ev(elt, e2)
                    if isinstance(v, (Mask, MB)):
                        raise OneMask(v)
                    if isinstance(v, BX) and all(isinstance(x, Mask) for x in v.parts) and v.op in ('and', 'or'):
                        raise OneMask(MB(v.op, v.parts))
                    raise OneMask(Op(srcs(src, v)))
                raise OneMask(Op(srcs(src)))
            out = []
            for x in it:
                e2 = {'$up': en}
                self.assign(g.target, x, e2)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, e2))
                    if t is None:
                        raise OneMask(Op(srcs(it)))
                    if not t:
                        ok = False
                if ok:
                    out += rec(gs[1:], e2)
            return out
        try:
            return rec(e.generators, env)
        except OneMask as m:
            return m.v

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Await(self, e, env):
        return Op()

    # ---- calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                it = self.iter(self.ev(x.value, env))
                if it is None:
                    args.append(Op())
                else:
                    args += it
            else:
                args.append(self.ev(x, env))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg:
                kw[k.arg] = v
            elif isinstance(v, dict):
                kw.update({a: b for a, b in v.items() if isinstance(a, str)})
        if isinstance(f, Fn):
            nm = getattr(f.node, 'name', '')
            if nm in self.stubs:
                return self.stubs[nm](self, args, kw, e.lineno)
            if nm in self.skip:
                return Op()
            return self.invoke(f, args, kw, e.lineno)
        if isinstance(f, Cls):
            return self.new(f.name, args, kw)
        if isinstance(f, Bi):
            return self.builtin(f, args, kw, e.lineno)
        return Op(srcs(args))

    def new(self, name, args=(), kw=None, path=None):
        o = Obj(name, path or name)
        m = self.w.members(name).get('__init__')
        if m is not None and name not in self.skip:
            self.invoke(Fn(m[1], {}, o, name), list(args), kw or {})
        else:
            for k, v in self.w.members(name).items():
                if v[0] == 'val':
                    o.s[k] = self.ev(v[1], {})
            o.s.update(kw or {})
        return o

    def invoke(self, f, args, kw, line=0):
        self.depth += 1
        if self.depth > 25:
            raise Stop()
        try:
            n = f.node
            env = {'$up': f.env} if f.env else {}
            a = n.args
            names = [x.arg for x in a.posonlyargs + a.args]
            vals = ([f.self_] if f.self_ is not None else []) + list(args)
            for nm, v in zip(names, vals):
                env[nm] = v
            if a.vararg:
                env[a.vararg.arg] = tuple(vals[len(names):])
            elif len(vals) > len(names):
                raise PyRaise(line, 'arguments')
            for k, v in kw.items():
                env[k] = v
            ds = a.defaults
            for nm, d in zip(names[len(names) - len(ds):], ds):
                if nm not in env:
                    env[nm] = self.ev(d, {})
            for nm, d in zip(a.kwonlyargs, a.kw_defaults):
                if nm.arg not in env and d is not None:
                    env[nm.arg] = self.ev(d, {})
            if isinstance(n, ast.Lambda):
                return self.ev(n.body, env)
            try:
                self.run(n.body, env)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def isinst(self, v, t):
        """three valued"""
        if isinstance(t, tuple):
            rs = [self.isinst(v, x) for x in t]
            return True if True in rs else None if None in rs else False
        if isinstance(t, Cls):
            return v.cls == t.name if isinstance(v, Obj) else None if isinstance(v, Op) else False
        if isinstance(v, Op):
            return None
        if not isinstance(t, Bi):
            return None
        n = t.name.split('.')[-1]
        if n == 'ndarray':
            return isinstance(v, Arr) and v.kind == 'np'
        if n in ('SX', 'MX'):
            return (True if v.a.get('ca', 'SX') == n else False) if isinstance(v, Arr) and v.kind == 'ca' else False
        if n == 'DM':
            return False
        if n == 'list' and isinstance(v, Arr):
            return v.kind == 'list'
        if n in ('integer', 'floating', 'int64', 'float64'):
            return False
        if n in PYT:
            if isinstance(v, Lin):
                return n == 'int'
            return isinstance(v, PYT[n])
        return None if isinstance(v, (Obj, Arr)) else False

    def shape_arg(self, v):
        if isinstance(v, (tuple, list)):
            r = [lin(x) for x in v]
        else:
            r = [lin(v)]
        return None if any(x is None for x in r) else r

    def builtin(self, f, args, kw, line):
        n = f.name
        b = f.base
        if n in self.stubs:
            return self.stubs[n](self, args, kw, line)
        last = n.split('.')[-1]
        root = n.split('.')[0] if '.' in n else ''
        lib = root in ('np', 'numpy', 'ca', 'casadi')
        if b is not None:
            # method of a value
            if isinstance(b, Arr):
                if last in ('max', 'min') and not args:
                    return Ext(b, last)
                if last in ('any', 'all') and not args:
                    return Op(b.src)
                if last == 'is_empty':
                    return self.empty(b)
                if last == 'numel':
                    return self.size(b)
                if last in ('size1', 'rows') and b.shape:
                    return num(b.shape[0])
                if last in ('size2', 'columns') and len(b.shape) > 1:
                    return num(b.shape[1])
                if last in ('copy', 'astype', 'tolist'):
                    return Arr(b.kind, b.shape, b.src, **b.a)
                return Op(b.src)
            if isinstance(b, (Mask, MB)):
                if last == 'any':
                    return self.anymask(b)
                if last == 'all':
                    return self.allmask(b)
            if isinstance(b, AsSet) and last == 'issubset' and args and isinstance(args[0], Rng):
                return self.allmask(Mask(b.arr, 'in', (args[0].lo, args[0].hi)))
            if isinstance(b, list):
                if last == 'append' and args:
                    b.append(args[0]); return None
                if last == 'extend' and args and isinstance(args[0], list):
                    b.extend(args[0]); return None
            if isinstance(b, dict):
                if last == 'items':
                    return [(k, v) for k, v in b.items()]
                if last == 'values':
                    return list(b.values())
                if last == 'keys':
                    return list(b)
                if last == 'get' and args:
                    try:
                        return b.get(args[0], args[1] if len(args) > 1 else None)
                    except TypeError:
                        return Op()
            if isinstance(b, str):
                if all(isinstance(x, (str, int)) for x in args) and last in ('endswith', 'startswith', 'lower', 'upper', 'replace', 'strip', 'split', 'rstrip', 'lstrip'):
                    return getattr(b, last)(*args)
                if last == 'join' and args and isinstance(args[0], list) and all(isinstance(x, str) for x in args[0]):
                    return b.join(args[0])
                if last == 'format':
                    try:
                        return b.format(*args, **kw) if all(isinstance(x, (str, int)) for x in list(args) + list(kw.values())) else Op()
                    except (IndexError, KeyError):
                        return Op()
            return Op(srcs(b, args))
        if n in ('print', 'warnings.warn'):
            return None
        if last == 'isinstance':
            r = self.isinst(args[0], args[1])
            return Op(srcs(args[0])) if r is None else r
        if last == 'hasattr':
            return Op(srcs(args)) if not isinstance(args[0], Obj) else (args[1] in args[0].s or args[1] in self.w.members(args[0].cls))
        if n == 'getattr':
            if isinstance(args[1], str):
                return self.attr(args[0], args[1])
            return Op(srcs(args))
        if n == 'setattr':
            if isinstance(args[0], Obj) and isinstance(args[1], str):
                args[0].s[args[1].lstrip('_')] = args[2]
            return None
        if last == 'len' and args:
            v = args[0]
            if isinstance(v, Arr):
                return num(v.shape[0])
            if isinstance(v, (list, tuple, str, dict, set)):
                return len(v)
            return Op(srcs(v))
        if last in ('any', 'all') and args:
            v = args[0]
            if isinstance(v, (Mask, MB)):
                return self.anymask(v) if last == 'any' else self.allmask(v)
            it = self.iter(v)
            if it is None:
                return Op(srcs(v))
            ts = [self.truth(x) for x in it]
            un = [x for x, t in zip(it, ts) if t is None]
            if last == 'any':
                return True if True in ts else BX('or', un) if un else False
            return False if False in ts else BX('and', un) if un else True
        if n == 'range' and all(isinstance(x, int) for x in args):
            return list(range(*args)) if len(range(*args)) <= 200 else Op()
        if (lib and last == 'arange') or n == 'range':
            la = [lin(x) for x in args]
            if None not in la and len(la) in (1, 2):
                lo, hi = (Lin(0), la[0]) if len(la) == 1 else la
                return Rng(lo, hi)
            return Op(srcs(args))
        if n in ('list', 'tuple') and args:
            it = self.iter(args[0])
            return (it if n == 'list' else tuple(it)) if it is not None else args[0]
        if n in ('list', 'dict', 'tuple') and not args:
            return {'list': [], 'dict': dict(kw), 'tuple': ()}[n]
        if n == 'set':
            if args and isinstance(args[0], Arr):
                return AsSet(args[0])
            if args and isinstance(args[0], Rng):
                return args[0]
            it = self.iter(args[0]) if args else []
            return self.mkset(it) if it is not None else Op(srcs(args))
        if n == 'dict' and args and isinstance(args[0], dict):
            d = dict(args[0]); d.update(kw); return d
        if n in ('sorted', 'reversed') and args and isinstance(args[0], (list, tuple)):
            return list(args[0]) if n == 'sorted' else list(args[0])[::-1]
        if n == 'zip':
            its = [self.iter(x) for x in args]
            return [tuple(x) for x in zip(*its)] if None not in its else Op(srcs(args))
        if n == 'enumerate' and args:
            it = self.iter(args[0])
            return list(enumerate(it)) if it is not None else Op(srcs(args))
        if n == 'map' and len(args) == 2 and self.iter(args[1]) is not None:
            return [self.invoke(args[0], [x], {}) if isinstance(args[0], Fn) else self.builtin(args[0], [x], {}, line) if isinstance(args[0], Bi) else Op() for x in self.iter(args[1])]
        if n in ('int', 'float', 'str', 'bool') and args:
            v = args[0]
            if n == 'int' and (isinstance(v, Lin) or isinstance(v, int)):
                return v
            if n == 'bool':
                t = self.truth(v)
                return Op(srcs(v)) if t is None else t
            if n == 'str' and isinstance(v, (str, int)):
                return str(v)
            return Op(srcs(v))
        if last in ('sum',) and args and self.iter(args[0]) is not None:
            t = 0
            for x in self.iter(args[0]):
                t = self.binop(ast.Add(), t, x)
            return t
        if last in ('prod',) and args and isinstance(args[0], (tuple, list)):
            return self.size(Arr('np', [lin(x) for x in args[0]])) if all(lin(x) is not None for x in args[0]) else Op(srcs(args))
        if last in ('max', 'amax', 'min', 'amin') and len(args) == 1 and isinstance(args[0], Arr):
            return Ext(args[0], last[-3:])
        if last in ('max', 'min') and len(args) == 2 and all(lin(x) is not None for x in args):
            g = self.f.cmp('>=', lin(args[0]), lin(args[1]))
            if g is not None:
                return args[0] if g == (last == 'max') else args[1]
            return Op(srcs(args))
        if lib:
            if last in ('zeros', 'ones', 'empty') and args:
                sh = self.shape_arg(args[0] if len(args) == 1 or root in ('np', 'numpy') else list(args))
                if sh is not None:
                    return Arr('np' if root in ('np', 'numpy') else 'ca', sh)
                return Op(srcs(args))
            if last in ('array', 'asarray', 'atleast_1d', 'squeeze', 'ravel', 'abs', 'cumsum') and args:
                v = args[0]
                if isinstance(v, Arr):
                    return Arr('np', v.shape, v.src, **v.a)
                if isinstance(v, (list, tuple)) and last == 'array':
                    if not any(isinstance(x, (list, tuple, Arr, Op)) for x in v):
                        return Arr('np', [Lin(len(v))])
                return Op(srcs(v))
            if last == 'shape' and args and isinstance(args[0], Arr):
                return tuple(num(x) for x in args[0].shape)
            if last == 'size' and args and isinstance(args[0], Arr):
                return self.size(args[0])
            if last == 'append' and len(args) == 2 and isinstance(args[0], Arr) and isinstance(args[1], (int, float)):
                return Arr('np', [add(lin(args[0].shape[0]), Lin(1))], srcs(args))
            if last == 'concatenate' and args and isinstance(args[0], (tuple, list)) and all(isinstance(x, Arr) and len(x.shape) == 1 for x in args[0]):
                t = Lin(0)
                for x in args[0]:
                    t = add(t, lin(x.shape[0]))
                return Arr('np', [t], srcs(args))
            if last in ('eye', 'identity') and args and lin(args[0]) is not None:
                return Arr('np', [lin(args[0])] * 2)
            if last == 'diag' and args and isinstance(args[0], Arr):
                return Arr('np', [args[0].shape[0]] if len(args[0].shape) == 2 else [args[0].shape[0]] * 2, args[0].src)
        return Op(srcs(args))

    def empty(self, v):
        if isinstance(v, Arr):
            un = False
            for x in v.shape:
                r = self.f.cmp('==', lin(x), Lin(0))
                if r is True:
                    return True
                if r is None:
                    un = True
            return Op(v.src) if un else False
        if isinstance(v, Op):
            return Op(v.src)
        if v is None:
            return True
        if isinstance(v, (set, list, str, dict, tuple)):
            return len(v) == 0
        return False


def exact(v):
    """a condition on sizes alone"""
    if isinstance(v, (bool, LC, Lin)):
        return True
    if isinstance(v, BX):
        return all(exact(x) for x in v.parts)
    return False


def holds(v, val):
    """value of an exact condition under an assignment of the symbols"""
    def num_(l):
        return l.c + sum(c * val(k) for k, c in l.t.items())
    if isinstance(v, bool):
        return v
    if isinstance(v, Lin):
        return num_(v) != 0
    if isinstance(v, LC):
        return {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}[v.op](num_(v.a), num_(v.b))
    ps = [holds(x, val) for x in v.parts]
    return not ps[0] if v.op == 'not' else any(ps) if v.op == 'or' else all(ps)


def feasible(ev, n=4000):
    """some assignment of the size symbols meets the facts and the decided exact conditions of a path"""
    import random
    r = random.Random(1)
    conds = [(f[3], f[2]) for f in ev.forks if exact(f[3])]
    nes = [Lin(k[0], dict(k[1])) for k in ev.f.ne]
    if not conds:
        return True
    for i in range(n):
        m = {}
        hi = 2 + i % 6

        def val(k):
            if k not in m:
                m[k] = ev.f.lb.get(k, 0) + r.randrange(hi)
            return m[k]
        if all(holds(c, val) == d for c, d in conds) and all(holds(x, val) for x in nes):
            return True
    return False


class OneMask(Exception):
    def __init__(self, v):
        self.v = v


def s_empty(ev, a, kw, line):
    return ev.empty(a[0])


def s_len(ev, a, kw, line):
    v = a[0]
    if isinstance(v, Arr):
        return ev.size(v) if v.kind == 'ca' else num(v.shape[0])
    if v is None:
        return 0
    if isinstance(v, list):
        return len(v)
    return Op(srcs(v))


def s_ns(ev, a, kw, line):
    v = a[0]
    if isinstance(v, Arr) and 'ns' in v.a:
        return v.a['ns']
    return Op(srcs(v))


STUBS = {'is_empty': s_empty, 'casadi_length': s_len, 'is_none_or_empty_list': s_empty, 'ns_from_idxs_rev': s_ns}


def paths(make, call, taint=None, limit=MAXPATH):
    """make() -> (Ev, thing); call(ev, thing). yields (outcome, ev) over the decisions: outcome = ('return',) / ('raise', line, text) / ('stop',).
    with taint, undecided conditions that do not depend on it are taken all false and then all true; the others are enumerated"""
    out = []
    for pol in (False, True):
        dec = []
        while True:
            ev, th = make()
            ev.dec = list(dec); ev.pos = 0; ev.taint = taint; ev.pol = pol
            try:
                call(ev, th)
                o = ('return',)
            except PyRaise as r:
                o = ('raise', r.line, r.what)
            except (Stop, Brk, Cont, RecursionError):
                o = ('stop',)
            except Ret:
                o = ('return',)
            out.append((o, ev))
            d = ev.dec[:ev.pos]
            while d and not d[-1]:
                d.pop()
            if not d or len(out) >= limit:
                if d:
                    out.append((('stop',), ev))
                break
            d[-1] = False
            dec = d
    return out
