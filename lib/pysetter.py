"""Abstract evaluation of Python property setters and getters over a finite partition of the argument values (nothing is executed).

A value class describes a set of Python values by type and region: ('bool', True) ('int', lo, hi) ('float', lo, hi) (open intervals, lo == hi: the point)
('str', text or None = any other) ('none',) ('list', elem class or None = empty) ('tuple', ..) ('dict',) ('arr', ndim) ('sx',) ('obj',).
Abstract values: ('k', const); ('p', cls, tag) the argument, tag 'same' or how it was normalised; ('ref', path) content of an attribute before the call;
('self', path) object; ('fn', name); ('mod', name); ('typ', name); ('seq', kind, values); ('d', values it derives from); ('u',).
Conditions are three-valued; an undecided one forks."""
import ast, math

MAXPATH = 400
TYPES = {'bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'ndarray', 'integer', 'floating', 'SX', 'MX', 'DM', 'object', 'number', 'Number', 'complex', 'bool_', 'Callable'}
U = ('u',)
# library functions whose result is another value
ALTER = set('abs fabs absolute sort unique round rint floor ceil clip maximum minimum zeros ones zeros_like ones_like sum prod cumsum mean sqrt exp log negative flip transpose diag where nonzero arange linspace sorted reversed set len max min tile repeat full eye'.split())


class Stop(Exception):
    pass


class Raise(Exception):
    def __init__(self, what):
        self.what = what


def label(c):
    if c[0] in ('int', 'float'):
        return '%s %s' % (c[0], '%g' % c[1] if c[1] == c[2] else 'in (%g, %g)' % (c[1], c[2]))
    if c[0] == 'str':
        return repr(c[1]) if c[1] is not None else 'any other string'
    if c[0] == 'bool':
        return repr(c[1])
    if c[0] in ('list', 'tuple'):
        return 'empty ' + c[0] if c[1] is None else '%s of %s' % (c[0], label(c[1]))
    return {'none': 'None', 'dict': 'dict', 'arr': '%d-dimensional array' % c[1] if len(c) > 1 else '', 'sx': 'CasADi expression', 'obj': 'object of another type'}[c[0]]


def numeric(ths, ty):
    """open intervals and points cut at the thresholds"""
    ths = sorted(set(ths))
    if ty == 'int':
        pts = sorted({int(math.floor(t)) + d for t in ths for d in (-1, 0, 1)} | {-1, 0, 1, 2})
        out = [('int', -math.inf, pts[0])] + [('int', p, p) for p in pts] + [('int', pts[-1], math.inf)]
        for a, b in zip(pts, pts[1:]):
            if b - a > 1:
                out.append(('int', a, b))
        return out
    pts = sorted(set(ths) | {0.0, 1.0})
    out = [('float', -math.inf, pts[0])]
    for a, b in zip(pts, pts[1:] + [math.inf]):
        out += [('float', a, a), ('float', a, b)]
    return out


def istype(c, t):
    """does a value of class c have type t: True / False / None"""
    k = c[0]
    if t == 'object':
        return True
    if k == 'obj':
        return False if t in ('set', 'bool', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'ndarray', 'SX', 'MX', 'DM', 'integer', 'floating') else None
    if k == 'sx':
        return None if t in ('SX', 'MX', 'DM') else False
    return t in {'bool': ('bool', 'int', 'number', 'Number'), 'int': ('int', 'number', 'Number'), 'float': ('float', 'number', 'Number'), 'str': ('str',), 'list': ('list',), 'tuple': ('tuple',), 'dict': ('dict',), 'arr': ('ndarray',), 'none': ('NoneType',)}[k]


class Ev:
    """evaluator for one class; inline: name -> FunctionDef of module-level helpers; methods: name -> FunctionDef"""

    def __init__(self, cls, helpers, props=None, modconsts=None):
        self.cls, self.helpers, self.modconsts = cls, helpers, modconsts or {}
        self.methods = {m.name: m for m in cls.body if isinstance(m, ast.FunctionDef) and all(getattr(d, 'id', '') in ('staticmethod', 'classmethod') for d in m.decorator_list)} if cls else {}
        self.props = props or {}
        self.unknown = set()

    def mangle(self, a):
        return '_%s%s' % (self.cls.name.lstrip('_'), a) if self.cls is not None and a.startswith('__') and not a.endswith('__') else a

    # --- exploration: a script of decisions, replayed (simple and exact) ---
    def explore(self, run):
        out, todo = [], [[]]
        while todo:
            script = todo.pop()
            if len(out) > MAXPATH:
                raise Stop('too many paths')
            self.script, self.pos, self.dec, self.known = script, 0, [], {}
            self.heap, self.stores, self.conds, self.equal = {}, [], [], set()
            try:
                r = ('ok', run())
            except Raise as e:
                r = ('raise', e.what)
            out.append((r[0], r[1], list(self.stores), list(self.conds), dict(self.heap), set(self.equal)))
            for i in range(len(script), len(self.dec)):
                todo.append(self.dec[:i] + [False])
        return out

    def decide(self, v, text):
        if v is not None:
            return v
        if text in self.known:
            return self.known[text]
        d = self.script[self.pos] if self.pos < len(self.script) else True
        self.pos += 1
        self.dec.append(d)
        self.conds.append((text, d))
        q = self.eqs.get(text)
        if q and q[1] == d:
            self.equal.add(q[0])
        self.known[text] = d
        return d

    # --- statements ---
    def call(self, fn, args, kw, depth=0):
        if depth > 12:
            raise Stop('inlining too deep')
        env = {}
        names = [a.arg for a in fn.args.posonlyargs + fn.args.args]
        dflt = fn.args.defaults
        for n, d in zip(names[len(names) - len(dflt):], dflt):
            env[n] = self.ev(d, {}, depth)
        for a, d in zip(fn.args.kwonlyargs, fn.args.kw_defaults):
            if d is not None:
                env[a.arg] = self.ev(d, {}, depth)
        for n, v in zip(names, args):
            env[n] = v
        for n, v in kw:
            env[n] = v
        return self.block(fn.body, env, depth)[1] or ('k', None)

    def block(self, body, env, depth):
        for n in body:
            r = self.stmt(n, env, depth)
            if r[0] != 'next':
                return r
        return ('next', None)

    def stmt(self, n, env, dp):
        if isinstance(n, ast.Expr):
            if not isinstance(n.value, ast.Constant):
                self.ev(n.value, env, dp)
        elif isinstance(n, ast.Return):
            return ('return', self.ev(n.value, env, dp) if n.value else ('k', None))
        elif isinstance(n, ast.Raise):
            raise Raise(n.lineno)
        elif isinstance(n, ast.Assert):
            if not self.truth(n.test, env, dp):
                raise Raise(n.lineno)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)):
            if n.value is not None:
                v = self.ev(n.value, env, dp)
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    self.assign(t, v, env, dp, n.lineno)
        elif isinstance(n, ast.AugAssign):
            a = self.ev(ast.copy_location(ast.Name(n.target.id, ast.Load()), n) if isinstance(n.target, ast.Name) else n.target, env, dp)
            self.assign(n.target, ('d', [a, self.ev(n.value, env, dp)]), env, dp, n.lineno)
        elif isinstance(n, ast.If):
            return self.block(n.body if self.truth(n.test, env, dp) else n.orelse, env, dp)
        elif isinstance(n, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    env[a.asname or a.name] = ('typ', a.name) if a.name[:1].isupper() else ('fn', a.name)
        elif isinstance(n, ast.FunctionDef):
            env[n.name] = ('def', n)
        elif isinstance(n, ast.For):
            return self.loop(n, env, dp)
        elif isinstance(n, ast.While):
            if self.truth(n.test, env, dp):
                raise Stop('while loop')
        elif isinstance(n, ast.Try):
            try:
                r = self.block(n.body, env, dp)
            except Raise as e:
                if not n.handlers:
                    raise
                r = self.block(n.handlers[0].body, env, dp)
            else:
                if r[0] == 'next' and n.orelse:
                    r = self.block(n.orelse, env, dp)
            if n.finalbody:
                self.block(n.finalbody, env, dp)
            return r
        elif isinstance(n, ast.With):
            return self.block(n.body, env, dp)
        elif isinstance(n, ast.Break):
            return ('break', None)
        elif isinstance(n, ast.Continue):
            return ('continue', None)
        elif isinstance(n, ast.Delete):
            pass
        elif isinstance(n, ast.Match):
            s = self.ev(n.subject, env, dp)
            for c in n.cases:
                ps = c.pattern.patterns if isinstance(c.pattern, ast.MatchOr) else [c.pattern]
                for p in ps:
                    if isinstance(p, ast.MatchValue):
                        t = self.decide(self.cmp(ast.Eq(), s, self.ev(p.value, env, dp)), ast.unparse(n.subject) + '==' + ast.unparse(p.value))
                    elif isinstance(p, ast.MatchSingleton):
                        t = self.decide(self.cmp(ast.Is(), s, ('k', p.value)), ast.unparse(n.subject) + ' is ' + repr(p.value))
                    elif isinstance(p, ast.MatchAs) and p.pattern is None:
                        if p.name:
                            env[p.name] = s
                        t = True
                    elif isinstance(p, ast.MatchClass):
                        b = self.isinst(s, self.ev(p.cls, env, dp))
                        t = self.decide(b, ast.unparse(n.subject) + ' matches ' + ast.unparse(p.cls))
                    else:
                        raise Stop('match pattern')
                    if t and (c.guard is None or self.truth(c.guard, env, dp)):
                        return self.block(c.body, env, dp)
        else:
            raise Stop('statement %s' % type(n).__name__)
        return ('next', None)

    def elems(self, v):
        """list of elements (known) or a representative"""
        if v[0] == 'seq':
            return v[2], True
        if v[0] == 'k' and isinstance(v[1], (tuple, list, set, frozenset, str, dict)):
            return [('k', x) for x in v[1]], True
        if v[0] == 'k':
            raise Raise('iteration over ' + repr(v[1]))
        if v[0] == 'p':
            c = v[1]
            if c[0] in ('list', 'tuple'):
                return ([] if c[1] is None else [('p', c[1], 'elem')]), True
            if c[0] == 'str':
                return [('u',)], False
            if c[0] in ('arr', 'sx', 'dict', 'obj'):
                return [('d', [v])], False
            raise Raise('iteration over ' + label(c))
        return [('d', [v])], False

    def loop(self, n, env, dp):
        vs, exact = self.elems(self.ev(n.iter, env, dp))
        if not exact and not self.decide(None, 'iterations of ' + ast.unparse(n.iter)):
            return self.block(n.orelse, env, dp)
        for v in vs:
            self.bind(n.target, v, env, dp)
            r = self.block(n.body, env, dp)
            if r[0] == 'break':
                return ('next', None)
            if r[0] == 'return':
                return r
        return self.block(n.orelse, env, dp)

    def bind(self, t, v, env, dp):
        self.assign(t, v, env, dp, t.lineno)

    def assign(self, t, v, env, dp, line):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs, ex = self.elems(v)
            if not ex or len(vs) != len(t.elts):
                vs = [('d', [v])] * len(t.elts)
            for a, b in zip(t.elts, vs):
                self.assign(a, b, env, dp, line)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env, dp)
            if b[0] in ('self', 'ref'):
                self.setattr(b, t.attr, v, line, dp)
            else:
                raise Stop('store into an attribute of a local')
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env, dp)
            if b[0] in ('self', 'ref'):
                p = b[1] + '[%s]' % ast.unparse(t.slice)
                self.stores.append((p, v, line))
                self.heap[b[1]] = ('d', [b, v])
            elif isinstance(t.value, ast.Name):
                env[t.value.id] = ('d', [b, v])
        else:
            raise Stop('assignment target')

    def setattr(self, b, name, v, line, dp=0):
        if b == ('self', 'self') and name in self.props and self.props[name][1] is not None:
            self.call(self.props[name][1], [b, v], [], dp + 1)
            return
        p = b[1] + '.' + (self.mangle(name) if b[1] == 'self' else name)
        self.stores.append((p, v, line))
        self.heap[p] = v

    def getattr(self, b, name, dp):
        if b == ('self', 'self') and name in self.props and self.props[name][0] is not None:
            return self.call(self.props[name][0], [b], [], dp + 1)
        p = b[1] + '.' + (self.mangle(name) if b[1] == 'self' else name)
        if p in self.heap:
            return self.heap[p]
        if b == ('self', 'self') and name in self.methods:
            return ('method', name)
        if b == ('self', 'self') and self.mangle(name) in self.modconsts:
            return self.modconsts[self.mangle(name)]
        return ('ref', p)

    # --- expressions ---
    def truth(self, n, env, dp):
        if isinstance(n, ast.BoolOp):
            for x in n.values:
                t = self.truth(x, env, dp)
                if isinstance(n.op, ast.And) and not t:
                    return False
                if isinstance(n.op, ast.Or) and t:
                    return True
            return isinstance(n.op, ast.And)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return not self.truth(n.operand, env, dp)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('all', 'any') and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and len(n.args[0].generators) == 1:
            g = n.args[0].generators[0]
            vs, ex = self.elems(self.ev(g.iter, env, dp))
            allq = n.func.id == 'all'
            if not ex and not self.decide(None, 'iterations of ' + ast.unparse(g.iter)):
                return allq
            for v in vs:
                e2 = dict(env)
                self.bind(g.target, v, e2, dp)
                if all(self.truth(c, e2, dp) for c in g.ifs) and self.truth(n.args[0].elt, e2, dp) != allq:
                    return not allq
            return allq
        if isinstance(n, ast.Compare) and len(n.ops) > 1:
            l = n.left
            for o, r in zip(n.ops, n.comparators):
                if not self.truth(ast.copy_location(ast.Compare(l, [o], [r]), n), env, dp):
                    return False
                l = r
            return True
        v = self.ev(n, env, dp)
        return self.decide(self.bool(v), self.key(n, env))

    def key(self, n, env):
        return ast.unparse(n) + '|' + ','.join('%s=%r' % (x, env[x]) for x in sorted({y.id for y in ast.walk(n) if isinstance(y, ast.Name)}) if x in env and env[x][0] != 'def')

    def bool(self, v):
        if v[0] == 'k':
            return bool(v[1])
        if v[0] == 'b':
            return v[1]
        if v[0] == 'p':
            c = v[1]
            if c[0] == 'bool':
                return c[1]
            if c[0] in ('int', 'float'):
                return False if c[1] == c[2] == 0 else None if c[1] < 0 < c[2] else True
            if c[0] == 'str':
                return None if c[1] is None else bool(c[1])
            if c[0] == 'none':
                return False
            if c[0] in ('list', 'tuple'):
                return c[1] is not None
        if v[0] == 'seq':
            return bool(v[2])
        if v[0] in ('typ', 'fn', 'def', 'self'):
            return True
        return None

    def isinst(self, v, t):
        if t[0] == 'seq':
            r = [self.isinst(v, x) for x in t[2]]
            return True if True in r else None if None in r else False
        if t[0] != 'typ':
            return None
        if v[0] == 'k':
            x = v[1]
            m = {'bool': bool, 'int': int, 'float': float, 'str': str, 'list': list, 'tuple': tuple, 'dict': dict}.get(t[1])
            return isinstance(x, m) if m else t[1] == 'object' or (False if t[1] in TYPES else None)
        if v[0] == 'p':
            if t[1] not in TYPES:
                return False if v[1][0] != 'obj' else None
            if v[2] == 'arr':
                return t[1] == 'ndarray'
            return istype(v[1], t[1])
        if v[0] == 'seq':
            return t[1] == v[1]
        return None

    def cmp(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(a, b)
            return r if r is None or isinstance(op, ast.In) else not r
        if a[0] == 'k' and b[0] == 'k':
            try:
                return {ast.Eq: lambda: a[1] == b[1], ast.NotEq: lambda: a[1] != b[1], ast.Lt: lambda: a[1] < b[1], ast.LtE: lambda: a[1] <= b[1], ast.Gt: lambda: a[1] > b[1], ast.GtE: lambda: a[1] >= b[1],
                        ast.Is: lambda: a[1] is b[1] or a[1] == b[1] and type(a[1]) is type(b[1]), ast.IsNot: lambda: not (a[1] is b[1] or a[1] == b[1] and type(a[1]) is type(b[1]))}[type(op)]()
            except TypeError:
                raise Raise('comparison of different types')
        if a[0] == 'k' and b[0] == 'p':
            return self.cmp({ast.Lt: ast.Gt(), ast.LtE: ast.GtE(), ast.Gt: ast.Lt(), ast.GtE: ast.LtE()}.get(type(op), op), b, a)
        if a[0] == 'p' and b[0] == 'k':
            c, x = a[1], b[1]
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = c[0] == 'none' if x is None else (c[0] == 'bool' and c[1] is x if isinstance(x, bool) else None)
                return r if r is None or isinstance(op, ast.Is) else not r
            if isinstance(op, (ast.Eq, ast.NotEq)):
                r = self.eq(c, x)
                return r if r is None or isinstance(op, ast.Eq) else not r
            num = isinstance(x, (int, float))
            if c[0] in ('bool', 'int', 'float') and num:
                lo, hi = (c[1], c[2]) if c[0] != 'bool' else (int(c[1]), int(c[1]))
                op = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
                if lo == hi:
                    return {'<': lo < x, '<=': lo <= x, '>': lo > x, '>=': lo >= x}[op]
                if hi <= x:
                    return op in ('<', '<=')
                if lo >= x:
                    return op in ('>', '>=')
                return None
            if c[0] in ('str', 'none', 'dict', 'list', 'tuple') and num:
                raise Raise('comparison of ' + label(c) + ' with a number')
            return None
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and a[0] == b[0] == 'typ':
            r = a[1] == b[1]
            return r if isinstance(op, (ast.Is, ast.Eq)) else not r
        if a == b and a[0] in ('ref', 'p') and isinstance(op, (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            return isinstance(op, (ast.Eq, ast.Is)) if a[0] == 'ref' or a[1][0] not in ('arr', 'sx') else None
        return None

    def eq(self, c, x):
        k = c[0]
        if k == 'bool':
            return c[1] == x if isinstance(x, (bool, int, float)) else False
        if k in ('int', 'float'):
            if not isinstance(x, (int, float)):
                return False
            if c[1] == c[2]:
                return c[1] == x
            return None if c[1] < x < c[2] and not (k == 'int' and x != int(x)) else False
        if k == 'str':
            return c[1] == x if c[1] is not None else (False if not isinstance(x, str) or x in self.allstr else None)
        if k == 'none':
            return x is None
        if k in ('list', 'tuple', 'dict'):
            return False if not isinstance(x, (list, tuple, dict)) else None if c[0] == 'dict' or c[1] is not None else len(x) == 0
        if k == 'obj':
            return False
        return None

    allstr = frozenset()
    eqs = {}

    def member(self, a, b):
        if b[0] == 'k' and isinstance(b[1], str):
            if a[0] == 'p' and a[1][0] == 'str' and a[2] != 'arr':
                return a[1][1] in b[1] if a[1][1] is not None else None
            if a[0] == 'p' and a[1][0] in ('bool', 'int', 'float', 'none', 'list', 'tuple', 'dict'):
                raise Raise('in <string> requires a string')
            return None if a[0] != 'k' else isinstance(a[1], str) and a[1] in b[1]
        if b[0] == 'seq' or b[0] == 'k' and isinstance(b[1], (tuple, list, set, frozenset, dict)):
            vs = b[2] if b[0] == 'seq' else [('k', x) for x in b[1]]
            r = [self.cmp(ast.Eq(), a, v) for v in vs]
            if a[0] == 'p' and a[1][0] in ('dict', 'list') and b[0] == 'seq' and b[1] in ('set', 'dict'):
                raise Raise('unhashable')
            return True if True in r else None if None in r else False
        return None

    def ev(self, n, env, dp):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return U
        return m(n, env, dp)

    def e_Constant(self, n, env, dp):
        return ('k', n.value)

    def e_Name(self, n, env, dp):
        if n.id in env:
            return env[n.id]
        if n.id in self.modconsts:
            return self.modconsts[n.id]
        if n.id in self.helpers:
            return ('def', self.helpers[n.id])
        if n.id in TYPES:
            return ('typ', n.id)
        return ('fn', n.id) if not n.id[:1].isupper() else ('typ', n.id)

    def e_Attribute(self, n, env, dp):
        b = self.ev(n.value, env, dp)
        if b[0] in ('self', 'ref'):
            return self.getattr(b, n.attr, dp)
        if b[0] == 'p':
            c = b[1]
            if n.attr == 'ndim' and self.ndim(b) is not None:
                return ('k', self.ndim(b))
            if c[0] in ('bool', 'int', 'float', 'str', 'none', 'list', 'tuple', 'dict') and b[2] != 'arr' and n.attr in ('ndim', 'shape', 'size', 'reshape', 'flatten', 'ravel', 'numel', 'tolist'):
                raise Raise('%s has no attribute %s' % (label(c), n.attr))
            return ('pm', b, n.attr)
        if b[0] == 'typ' and self.cls is not None and b[1] == self.cls.name and n.attr in self.methods:
            return ('method', n.attr)
        if b[0] == 'fn' or b == ('typ', 'object'):
            q = b[1] + '.' + n.attr
            return ('typ', n.attr) if n.attr in TYPES else ('fn', q)
        return ('pm', b, n.attr)

    def ndim(self, v):
        c = v[1]
        if len(v) > 3 and v[3] is not None:
            return v[3]
        if c[0] == 'arr':
            return c[1]
        if v[2] == 'arr':
            if c[0] in ('list', 'tuple'):
                d, x = 1, c[1]
                while x is not None and x[0] in ('list', 'tuple'):
                    d, x = d + 1, x[1]
                return d
            return 0
        return None

    def seq(self, kind, n, env, dp):
        vs = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                w, ex = self.elems(self.ev(x.value, env, dp))
                if not ex:
                    return U
                vs += w
            else:
                vs.append(self.ev(x, env, dp))
        return ('seq', kind, vs)

    def e_Tuple(self, n, env, dp):
        return self.seq('tuple', n, env, dp)

    def e_List(self, n, env, dp):
        return self.seq('list', n, env, dp)

    def e_Set(self, n, env, dp):
        return self.seq('set', n, env, dp)

    def e_Dict(self, n, env, dp):
        return ('seq', 'dict', [self.ev(k, env, dp) for k in n.keys if k is not None])

    def e_JoinedStr(self, n, env, dp):
        r = ''
        for x in n.values:
            v = ('k', x.value) if isinstance(x, ast.Constant) else self.ev(x.value, env, dp)
            if v[0] != 'k':
                return U
            r += str(v[1])
        return ('k', r)

    def e_IfExp(self, n, env, dp):
        return self.ev(n.body if self.truth(n.test, env, dp) else n.orelse, env, dp)

    def e_BoolOp(self, n, env, dp):
        v = None
        for x in n.values:
            v = self.ev(x, env, dp)
            t = self.decide(self.bool(v), self.key(x, env))
            if t != isinstance(n.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, n, env, dp):
        if isinstance(n.op, ast.Not):
            return ('k', not self.truth(n.operand, env, dp))
        v = self.ev(n.operand, env, dp)
        if v[0] == 'k' and isinstance(v[1], (int, float)):
            return ('k', -v[1] if isinstance(n.op, ast.USub) else v[1])
        return ('d', [v])

    def e_BinOp(self, n, env, dp):
        a, b = self.ev(n.left, env, dp), self.ev(n.right, env, dp)
        if a[0] == 'k' and b[0] == 'k':
            try:
                return ('k', {ast.Add: lambda: a[1] + b[1], ast.Sub: lambda: a[1] - b[1], ast.Mult: lambda: a[1] * b[1], ast.Div: lambda: a[1] / b[1], ast.Pow: lambda: a[1] ** b[1]}[type(n.op)]())
            except (KeyError, TypeError, ZeroDivisionError):
                return U
        if isinstance(n.op, ast.Add) and a[0] == 'seq' and b[0] == 'seq':
            return ('seq', a[1], a[2] + b[2])
        return ('d', [a, b])

    def e_Compare(self, n, env, dp):
        if len(n.ops) > 1:
            return ('k', self.truth(n, env, dp))
        a, b = self.ev(n.left, env, dp), self.ev(n.comparators[0], env, dp)
        if {a[0], b[0]} == {'p', 'ref'} and isinstance(n.ops[0], (ast.Eq, ast.Is, ast.NotEq, ast.IsNot)):
            self.eqs = dict(self.eqs)
            self.eqs[self.key(n, env)] = ((a if a[0] == 'ref' else b)[1], isinstance(n.ops[0], (ast.Eq, ast.Is)))
        return ('b', self.cmp(n.ops[0], a, b), self.key(n, env))

    def e_Subscript(self, n, env, dp):
        v = self.ev(n.value, env, dp)
        i = self.ev(n.slice, env, dp)
        if v[0] == 'seq' and v[1] in ('list', 'tuple') and i[0] == 'k' and isinstance(i[1], int) and -len(v[2]) <= i[1] < len(v[2]):
            return v[2][i[1]]
        return ('d', [v])

    def e_ListComp(self, n, env, dp):
        if len(n.generators) != 1:
            return U
        g = n.generators[0]
        vs, ex = self.elems(self.ev(g.iter, env, dp))
        out = []
        for v in vs:
            e2 = dict(env)
            self.bind(g.target, v, e2, dp)
            if all(self.truth(c, e2, dp) for c in g.ifs):
                out.append(self.ev(n.elt, e2, dp))
        return ('seq', 'list', out) if ex else ('d', out)

    e_GeneratorExp = e_ListComp

    def e_NamedExpr(self, n, env, dp):
        env[n.target.id] = v = self.ev(n.value, env, dp)
        return v

    def e_Lambda(self, n, env, dp):
        return ('def', ast.copy_location(ast.FunctionDef('lambda', n.args, [ast.copy_location(ast.Return(n.body), n)], [], None, None, lineno=n.lineno), n))

    def e_Call(self, n, env, dp):
        f = self.ev(n.func, env, dp)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                return U
            args.append(self.ev(a, env, dp))
        kw = [(k.arg, self.ev(k.value, env, dp)) for k in n.keywords if k.arg]
        if f[0] == 'def':
            return self.call(f[1], args, kw, dp + 1)
        if f[0] == 'method':
            m = self.methods[f[1]]
            static = any(getattr(d, 'id', '') == 'staticmethod' for d in m.decorator_list)
            return self.call(m, args if static else [('self', 'self')] + args, kw, dp + 1)
        name = f[1] if f[0] in ('fn', 'typ') else None
        if f[0] == 'pm':
            return self.pmethod(f[1], f[2], args, kw)
        if name == 'isinstance' and len(args) == 2:
            return ('b', self.isinst(args[0], args[1]), self.key(n, env))
        if name == 'issubclass' or name == 'callable' or name == 'hasattr':
            return ('b', None, self.key(n, env))
        if name == 'type' and len(args) == 1 and args[0] != ('self', 'self'):
            v = args[0]
            if v[0] == 'p' and v[2] != 'arr':
                t = {'bool': 'bool', 'int': 'int', 'float': 'float', 'str': 'str', 'none': 'NoneType', 'list': 'list', 'tuple': 'tuple', 'dict': 'dict', 'arr': 'ndarray'}.get(v[1][0])
                return ('typ', t) if t else U
            return U
        if name == 'type' and args == [('self', 'self')]:
            return ('typ', self.cls.name)
        if name in ('set', 'frozenset', 'tuple', 'list') and len(args) == 1 and args[0][0] == 'seq' and not kw and all(x[0] == 'k' for x in args[0][2]):
            return ('seq', name.replace('frozen', ''), args[0][2])
        if name == 'str' and len(args) == 1:
            v = args[0]
            if v[0] == 'k':
                return ('k', str(v[1]))
            if v[0] == 'seq' and all(x[0] == 'k' for x in v[2]) and v[1] in ('tuple', 'list'):
                return ('k', str({'tuple': tuple, 'list': list}[v[1]](x[1] for x in v[2])))
        if name == 'len' and len(args) == 1:
            v = args[0]
            if v[0] == 'seq':
                return ('k', len(v[2]))
            if v[0] == 'k' and hasattr(v[1], '__len__'):
                return ('k', len(v[1]))
            if v[0] == 'p':
                if v[1][0] in ('list', 'tuple'):
                    return ('k', 0) if v[1][1] is None else ('p', ('int', 0, math.inf), 'len')
                if v[1][0] == 'str':
                    return ('k', len(v[1][1])) if v[1][1] is not None else ('p', ('int', 0, math.inf), 'len')
                if v[1][0] in ('bool', 'int', 'float', 'none'):
                    raise Raise('len of ' + label(v[1]))
            return ('d', args)
        if name in ('getattr', 'setattr') and len(args) >= 2 and args[0][0] in ('self', 'ref') and args[1][0] == 'k':
            if name == 'getattr':
                return self.getattr(args[0], args[1][1], dp)
            self.setattr(args[0], args[1][1], args[2], n.lineno, dp)
            return ('k', None)
        if name in ('object.__setattr__', 'object.__getattribute__') and len(args) >= 2 and args[0] == ('self', 'self') and args[1][0] == 'k':
            q = 'self.' + args[1][1]
            if len(args) == 2:
                return self.heap.get(q, ('ref', q))
            self.stores.append((q, args[2], n.lineno))
            self.heap[q] = args[2]
            return ('k', None)
        if name == 'setattr':
            self.stores.append(('setattr', tuple(args), n.lineno))
            return ('k', None)
        if name in ('max', 'min'):
            vs = args if len(args) > 1 else self.elems(args[0])[0] if args and args[0][0] in ('seq', 'k') else [('d', args)]
            if vs and all(v == vs[0] for v in vs):
                return vs[0]
            return ('d', args)
        if name == 'bool' and len(args) == 1:
            b = self.bool(args[0])
            return ('k', b) if b is not None and args[0][0] != 'p' else (('p', args[0][1], 'bool') if args[0][0] == 'p' and args[0][1][0] == 'bool' else ('b', b, self.key(n, env)))
        if name in ('float', 'int', 'str', 'list', 'tuple') and len(args) == 1:
            v = args[0]
            if v[0] == 'p':
                c = v[1]
                if name in ('float', 'int') and (c[0] in ('none', 'list', 'tuple', 'dict', 'obj') or c[0] == 'str' and c[1] is not None):
                    raise Raise('%s of %s' % (name, label(c)))
                keep = {'float': ('float', 'int', 'bool', 'arr'), 'int': ('int', 'bool', 'arr'), 'str': ('str',), 'list': ('list', 'tuple', 'arr'), 'tuple': ('tuple', 'list', 'arr')}[name]
                if name in ('list', 'tuple') and c[0] in ('bool', 'int', 'float', 'none'):
                    raise Raise('%s of %s' % (name, label(c)))
                if c[0] in keep:
                    return ('p', (('float',) + c[1:] if name == 'float' and c[0] == 'int' else c), v[2] if v[2] == 'same' and c[0] == name else 'norm')
                return ('d', args)
            if v[0] == 'k':
                try:
                    return ('k', {'float': float, 'int': int, 'str': str, 'list': list, 'tuple': tuple}[name](v[1]))
                except (TypeError, ValueError):
                    raise Raise(name)
            if v[0] == 'seq' and name in ('list', 'tuple'):
                return ('seq', name, v[2])
            return ('d', args)
        if name:
            return self.libcall(name, args, kw, n)
        return ('d', args + [v for _, v in kw])

    def libcall(self, name, args, kw, n):
        s = name.split('.')[-1]
        if s in ('asarray', 'array', 'atleast_1d', 'atleast_2d', 'squeeze', 'ascontiguousarray', 'copy', 'deepcopy', 'asfarray', 'reshape', 'ravel') and args:
            v = args[0]
            if v[0] == 'p':
                if s in ('copy', 'deepcopy') and not name.startswith('np'):
                    return v
                if v[1][0] == 'sx':
                    return v
                d = self.ndim(('p', v[1], 'arr') + v[3:])
                dt = next((x for k, x in kw if k == 'dtype'), args[1] if s in ('array', 'asarray') and len(args) > 1 else None)
                if dt is not None and dt not in (('typ', 'float'), ('k', None)) and not (dt[0] == 'fn' and dt[1].split('.')[-1] in ('float64', 'double', 'float_')):
                    return ('p', v[1], 'arr', d) if v[1] in (('list', ('int', 0, math.inf)),) else U
                if s == 'atleast_1d':
                    d = max(d, 1)
                elif s == 'atleast_2d':
                    d = max(d, 2)
                elif s == 'ravel':
                    d = 1
                elif s == 'squeeze' and d is not None and d > 1:
                    d = None            # depends on the sizes
                    for k in (1,):
                        d = 1 if self.decide(None, 'one dimension left after squeeze') else self.ndim(('p', v[1], 'arr') + v[3:])
                elif s == 'reshape':
                    d = None
                return ('p', v[1], 'arr', d)
            if v[0] == 'seq' and not v[2] or v[0] == 'k' and v[1] in ([], ()):
                return ('empty',)
            return ('d', args)
        if s in ('print', 'warn'):
            return ('k', None)
        if s == 'reshape' and args and args[0][0] == 'p':
            return args[0]
        self.unknown.add(name)
        if s in ('exists', 'isfile', 'isscalar', 'isnan', 'isfinite', 'isinf', 'all', 'any', 'allclose', 'array_equal'):
            if s == 'isscalar' and args and args[0][0] == 'p' and args[0][2] == 'same':
                return ('k', args[0][1][0] in ('bool', 'int', 'float', 'str')) if args[0][1][0] != 'obj' else ('b', None, self.key(n, {}))
            return ('b', None, ast.unparse(n))
        return ('d', args + [v for _, v in kw]) if s in ALTER else U

    def pmethod(self, v, m, args, kw):
        SM = ('upper', 'lower', 'strip', 'endswith', 'startswith', 'find', 'count', 'replace', 'split', 'casefold', 'removeprefix', 'removesuffix')
        def text(x):
            return x[1] if x[0] == 'k' else x[1][1] if x[0] == 'p' and x[1][0] == 'str' and x[1][1] is not None else None
        if m in SM and isinstance(text(v), str) and (v[0] == 'k' or any(a[0] == 'p' for a in args)) and all(isinstance(text(a), (str, int)) for a in args):
            try:
                return ('k', getattr(text(v), m)(*[text(a) for a in args]))
            except (TypeError, ValueError):
                raise Raise('%s' % m)
        if v[0] == 'p':
            c = v[1]
            if m in ('reshape', 'flatten', 'ravel', 'copy', 'squeeze') and (c[0] in ('arr', 'sx') or v[2] == 'arr'):
                d = 1 if m in ('flatten', 'ravel') or m == 'reshape' and (args == [('k', -1)] or args == [('seq', 'tuple', [('k', -1)])]) else None
                return ('p', c, 'arr', d if m != 'copy' else (v[3] if len(v) > 3 else None))
            if m == 'astype':
                return ('p', c, 'arr') if args and args[0] in (('typ', 'float'), ('fn', 'np.float64'), ('typ', 'float64')) else ('d', [v])
            if m in ('tolist', 'full'):
                return ('p', c, 'norm')
            if c[0] == 'str' and c[1] is not None and m in ('upper', 'lower', 'strip', 'endswith', 'startswith') and all(a[0] == 'k' for a in args):
                r = getattr(c[1], m)(*[a[1] for a in args])
                return ('k', r) if r != c[1] or isinstance(r, bool) else v
            if c[0] != 'str' and m in ('upper', 'lower', 'strip', 'endswith', 'startswith') and c[0] in ('bool', 'int', 'float', 'none', 'list', 'tuple', 'dict', 'arr'):
                raise Raise('%s has no attribute %s' % (label(c), m))
            return ('d', [v] + args)
        if v[0] == 'ref' or v[0] == 'self':
            return ('d', [v] + args)
        return ('d', [v] + args)


def classes(src_nodes, extra_strings=(), ths=(), arrays=True, unknown_strings=True):
    """partition of the argument values with respect to the constants occurring in the syntax trees"""
    nums, strs = set(ths), set(extra_strings)
    for t in src_nodes:
        for x in ast.walk(t):
            if isinstance(x, ast.Constant):
                if isinstance(x.value, (int, float)) and not isinstance(x.value, bool) and abs(x.value) < 1e9:
                    nums.add(float(x.value))
                elif isinstance(x.value, str) and len(x.value) < 60 and x.value == x.value.strip():
                    strs.add(x.value)
    out = [('bool', True), ('bool', False)] + numeric(nums, 'int') + numeric(nums, 'float')
    out += [('str', s) for s in sorted(strs)] + [('str', None), ('none',), ('list', None), ('list', ('int', 0, math.inf)), ('list', ('float', 0, math.inf)), ('list', ('str', None)), ('list', ('tuple', ('str', None))),
            ('list', ('list', ('float', 0, math.inf))), ('tuple', None), ('tuple', ('float', 0, math.inf)), ('dict',), ('obj',)]
    if arrays:
        out += [('arr', 1), ('arr', 2), ('arr', 3), ('sx',)]
    return out, frozenset(strs)


def load_class(tree, name):
    c = next((x for x in tree.body if isinstance(x, ast.ClassDef) and x.name == name), None)
    if c is None:
        return None
    props = {}
    for m in c.body:
        if isinstance(m, ast.FunctionDef):
            for d in m.decorator_list:
                if isinstance(d, ast.Name) and d.id == 'property':
                    props.setdefault(m.name, [None, None])[0] = m
                elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                    props.setdefault(m.name, [None, None])[1] = m
        elif isinstance(m, ast.Assign) and isinstance(m.value, ast.Call) and isinstance(m.value.func, ast.Name) and m.value.func.id == 'property' and isinstance(m.targets[0], ast.Name):
            fs = {x.name: x for x in c.body if isinstance(x, ast.FunctionDef)}
            a = [fs.get(x.id) if isinstance(x, ast.Name) else None for x in m.value.args]
            for k in m.value.keywords:
                while len(a) < 2:
                    a.append(None)
                a[{'fget': 0, 'fset': 1}.get(k.arg, 1)] = fs.get(k.value.id) if isinstance(k.value, ast.Name) else None
            props[m.targets[0].id] = (a + [None, None])[:2]
    return c, props


def module_env(tree, helpers_tree=None):
    helpers, consts = {}, {}
    for t in (helpers_tree, tree):
        if t is None:
            continue
        for x in t.body:
            if isinstance(x, ast.FunctionDef):
                helpers[x.name] = x
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                try:
                    consts[x.targets[0].id] = ('k', ast.literal_eval(x.value))
                except ValueError:
                    pass
            elif isinstance(x, ast.ClassDef) and t is tree:
                pass
    return helpers, consts
