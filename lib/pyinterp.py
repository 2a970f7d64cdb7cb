"""Path-sensitive abstract interpreter over Python syntax trees (nothing is executed).

Values: ('c', constant); ('list'|'tuple'|'set', (values...)); ('dict', ((k, v)...)); ('sym', text) unknown; ('attr', base, name);
('call', fname, args, kwargs) result of an unknown call; ('op', name, operands...) unevaluated operation; ('fstr', parts).
State: env (locals), heap ({text of attribute path: value}), conds ((value, truth) decisions taken), eff (effects in order)."""
import ast, os

UNK = ('sym', '?')


def text(v):
    k = v[0]
    if k == 'c':
        return repr(v[1])
    if k == 'sym':
        return v[1]
    if k == 'attr':
        return text(v[1]) + '.' + v[2]
    if k == 'call':
        return '%s(%s)' % (v[1], ','.join([text(a) for a in v[2]] + ['%s=%s' % (n, text(a)) for n, a in v[3]]))
    if k in ('list', 'tuple', 'set'):
        return '[%s]' % ','.join(map(text, v[1]))
    if k == 'dict':
        return '{%s}' % ','.join(text(a) + ':' + text(b) for a, b in v[1])
    if k == 'op':
        return '%s(%s)' % (v[1], ','.join(text(a) for a in v[2:]))
    if k == 'fstr':
        return 'f"%s"' % ''.join(p if isinstance(p, str) else '{%s}' % text(p) for p in v[1])
    return repr(v)


def isconst(v):
    return v[0] == 'c' or v[0] in ('list', 'tuple', 'set') and all(isconst(x) for x in v[1])


def pyval(v):
    if v[0] == 'c':
        return v[1]
    if v[0] == 'list':
        return [pyval(x) for x in v[1]]
    if v[0] == 'tuple':
        return tuple(pyval(x) for x in v[1])
    if v[0] == 'set':
        return {pyval(x) for x in v[1]}
    raise ValueError


def conv(x):
    if isinstance(x, list):
        return ('list', tuple(conv(y) for y in x))
    if isinstance(x, tuple):
        return ('tuple', tuple(conv(y) for y in x))
    return ('c', x)


class S:
    __slots__ = ('env', 'heap', 'conds', 'eff')

    def __init__(self, env=None, heap=None, conds=(), eff=()):
        self.env, self.heap, self.conds, self.eff = env or {}, heap or {}, conds, eff

    def copy(self):
        return S(dict(self.env), dict(self.heap), self.conds, self.eff)


class Limit(Exception):
    pass


class Client:
    max_paths = 4000
    unroll = 80
    merge = False

    def call(self, e, fname, fval, args, kw, node, st):
        """None: default; else list of (value, state)"""
        return None

    def load(self, e, v, st):
        return None

    def decide(self, e, v, st):
        """truth of an undecided condition, or None"""
        return None


class Py:
    def __init__(self, client=None, consts=None):
        self.c = client or Client()
        self.consts = consts or {}
        self.steps = 0

    # ---- functions ----------------------------------------------------------------------
    def run(self, fn, args, st=None):
        """args: {param: value}; returns [(kind, value, state)] with kind in return/raise"""
        st = st or S()
        for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs:
            st.env[a.arg] = args.get(a.arg, ('sym', a.arg))
        pos = fn.args.posonlyargs + fn.args.args
        for a, d in zip(pos[len(pos) - len(fn.args.defaults):], fn.args.defaults):
            if a.arg not in args and args.get('*defaults'):
                st.env[a.arg] = self.ev(d, st)[0][0]
        out = []
        for k, v, s in self.block(fn.body, [st]):
            if k == 'next':
                out.append(('return', ('c', None), s))
            else:
                out.append((k, v, s))
        return out

    def block(self, body, sts):
        """-> [(kind, value, state)], kind: next/return/raise/break/continue"""
        live = sts
        done = []
        for n in body:
            nxt = []
            for s in live:
                for k, v, s2 in self.stmt(n, s):
                    if k == 'next':
                        nxt.append(s2)
                    else:
                        done.append((k, v, s2))
            live = self.dedup(nxt)
            if len(live) + len(done) > self.c.max_paths:
                raise Limit('too many paths')
            if not live:
                break
        return done + [('next', None, s) for s in live]

    def dedup(self, sts):
        if len(sts) < 2:
            return sts
        out = []
        seen = {}
        for s in sts:
            k = (tuple(sorted(s.env.items(), key=lambda x: x[0])), tuple(sorted(s.heap.items(), key=lambda x: x[0])), s.eff, None if self.c.merge else s.conds)
            try:
                h = hash(k)
            except TypeError:
                out.append(s); continue
            if h in seen:
                o = seen[h]
                if self.c.merge:
                    o.conds = tuple(x for x in o.conds if x in s.conds)
                continue
            seen[h] = s
            out.append(s)
        return out

    # ---- statements ---------------------------------------------------------------------
    def stmt(self, n, st):
        self.steps += 1
        if self.steps > 3000000:
            raise Limit('steps')
        m = getattr(self, 's_' + type(n).__name__, None)
        if m:
            return m(n, st)
        return [('next', None, st)]

    def s_Expr(self, n, st):
        return self.wrap(self.ev(n.value, st))

    def wrap(self, vs):
        return [('next', None, s) if v[0] != 'raise' else ('raise', v[1], s) for v, s in vs]

    def s_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            if v[0] == 'raise':
                out.append(('raise', v[1], s)); continue
            sts = [s]
            for t in n.targets:
                sts = [s2 for s1 in sts for s2 in self.assign(t, v, s1)]
            out += [('next', None, s2) for s2 in sts]
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [('next', None, st)]
        return [('next', None, s2) for v, s in self.ev(n.value, st) for s2 in self.assign(n.target, v, s)]

    def s_AugAssign(self, n, st):
        out = []
        for a, s in self.ev(n.target, st):
            for b, s2 in self.ev(n.value, s):
                out += [('next', None, s3) for s3 in self.assign(n.target, self.binop(type(n.op).__name__, a, b), s2)]
        return out

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for b, s in self.ev(t.value, st):
                loc = text(b) + '.' + t.attr
                for k in [k for k in s.heap if k.startswith(loc + '.') or k.startswith(loc + '[')]:
                    del s.heap[k]
                s.heap[loc] = v
                s.eff = s.eff + (('set', loc, v, t.lineno),)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, s in self.ev(t.value, st):
                for i, s2 in self.ev(t.slice, s):
                    loc = '%s[%s]' % (text(b), text(i))
                    s2.heap[loc] = v
                    s2.eff = s2.eff + (('setitem', loc, v, t.lineno),)
                    if isinstance(t.value, ast.Name) and s2.env.get(t.value.id, ('',))[0] in ('list', 'dict'):
                        s2.env[t.value.id] = ('sym', t.value.id)
                    out.append(s2)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            if v[0] in ('list', 'tuple') and len(v[1]) == len(t.elts):
                vs = v[1]
            else:
                vs = [('op', 'item', v, ('c', i)) for i in range(len(t.elts))]
            sts = [st]
            for x, y in zip(t.elts, vs):
                sts = [s2 for s1 in sts for s2 in self.assign(x, y, s1)]
            return sts
        if isinstance(t, ast.Starred):
            return self.assign(t.value, UNK, st)
        return [st]

    def branch(self, test, st):
        """-> [(truth, state)]; raises inside the test come out as ('raise', state)"""
        out = []
        for v, s in self.cond(test, st):
            out.append((v, s))
        return out

    def cond(self, n, st):
        """short-circuit evaluation of a condition: [(True/False/('raise',x), state)]"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            live = [st]
            out = []
            for x in n.values:
                nxt = []
                for s in live:
                    for v, s2 in self.cond(x, s):
                        if v is isand:
                            nxt.append(s2)
                        else:
                            out.append((v, s2))
                live = nxt
            return out + [(isand, s) for s in live]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [((not v) if isinstance(v, bool) else v, s) for v, s in self.cond(n.operand, st)]
        out = []
        for v, s in self.ev(n, st):
            if v[0] == 'raise':
                out.append((v, s)); continue
            out += self.decide(v, s)
        return out

    def truth(self, v):
        if v[0] == 'c':
            return bool(v[1])
        if v[0] in ('list', 'tuple', 'set', 'dict'):
            return bool(v[1])
        return None

    def decide(self, v, s):
        t = self.truth(v)
        if t is None:
            t = self.c.decide(self, v, s)
        if t is None:
            for c, b in s.conds:
                if c == v:
                    t = b
        if t is None and v[0] == 'op' and v[1] == 'NotEq':
            for c, b in s.conds:
                if c == ('op', 'Eq') + v[2:]:
                    t = not b
        if t is None and v[0] == 'op' and v[1] == 'Eq':
            for c, b in s.conds:
                if c == ('op', 'NotEq') + v[2:]:
                    t = not b
                # x == const already decided true: other constants are false
                if b and c[0] == 'op' and c[1] == 'Eq' and c[2] == v[2] and c[3][0] == 'c' and v[3][0] == 'c' and c[3] != v[3]:
                    t = False
        if t is not None:
            return [(t, s)]
        a, b = s, s.copy()
        a.conds = a.conds + ((v, True),)
        b.conds = b.conds + ((v, False),)
        return [(True, a), (False, b)]

    def s_If(self, n, st):
        out = []
        T, Fs = [], []
        for v, s in self.cond(n.test, st):
            if v is True:
                T.append(s)
            elif v is False:
                Fs.append(s)
            else:
                out.append(('raise', v[1], s))
        T, Fs = self.dedup(T), self.dedup(Fs)
        if T:
            out += self.block(n.body, T)
        if Fs:
            out += self.block(n.orelse, Fs)
        return out

    def s_Return(self, n, st):
        if n.value is None:
            return [('return', ('c', None), st)]
        return [('return', v, s) if v[0] != 'raise' else ('raise', v[1], s) for v, s in self.ev(n.value, st)]

    def s_Raise(self, n, st):
        if n.exc is None:
            return [('raise', 'reraise', st)]
        f = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
        name = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '?')
        return [('raise', name, st)]

    def s_Assert(self, n, st):
        out = []
        for v, s in self.cond(n.test, st):
            out.append(('next', None, s) if v is True else ('raise', 'AssertionError', s))
        return out

    def s_Pass(self, n, st):
        return [('next', None, st)]

    def s_Break(self, n, st):
        return [('break', None, st)]

    def s_Continue(self, n, st):
        return [('continue', None, st)]

    def s_With(self, n, st):
        sts = [st]
        for i in n.items:
            nx = []
            for s in sts:
                for v, s2 in self.ev(i.context_expr, s):
                    if i.optional_vars is not None:
                        nx += self.assign(i.optional_vars, v, s2)
                    else:
                        nx.append(s2)
            sts = nx
        return self.block(n.body, sts)

    def s_Try(self, n, st):
        st0 = st.copy()
        out = []
        res = self.block(n.body, [st])
        raised = False
        for k, v, s in res:
            if k == 'raise':
                raised = True
                caught = False
                for h in n.handlers:
                    names = []
                    if h.type is not None:
                        for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                            names.append(t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '?'))
                    if not names or 'Exception' in names or v in names or 'BaseException' in names:
                        out += self.block(h.body, [s]); caught = True
                        break
                if not caught:
                    out.append((k, v, s))
            elif k == 'next':
                out += self.block(n.orelse, [s]) if n.orelse else [(k, v, s)]
            else:
                out.append((k, v, s))
        # an exception from an unmodelled call inside the body
        if any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute)) for b in n.body for x in ast.walk(b)):
            for h in n.handlers:
                s0 = st0.copy()
                for b in n.body:
                    for x in ast.walk(b):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            s0.env[x.id] = ('sym', x.id + '@try%d' % x.lineno)
                if h.name:
                    s0.env[h.name] = ('sym', h.name)
                s0.conds = s0.conds + ((('sym', 'exception@%d' % h.lineno), True),)
                out += self.block(h.body, [s0])
        if n.finalbody:
            o2 = []
            for k, v, s in out:
                for k2, v2, s2 in self.block(n.finalbody, [s]):
                    o2.append((k, v, s2) if k2 == 'next' else (k2, v2, s2))
            out = o2
        return out

    def s_For(self, n, st):
        out = []
        for it, s in self.ev(n.iter, st):
            items = None
            if it[0] in ('list', 'tuple') and len(it[1]) <= self.c.unroll:
                items = it[1]
            elif it[0] == 'dict' and len(it[1]) <= self.c.unroll:
                items = [k for k, v in it[1]]
            if items is not None:
                live = [s]
                brk = []
                for x in items:
                    nx = []
                    for s1 in live:
                        for s2 in self.assign(n.target, x, s1):
                            for k, v, s3 in self.block(n.body, [s2]):
                                if k in ('next', 'continue'):
                                    nx.append(s3)
                                elif k == 'break':
                                    brk.append(s3)
                                else:
                                    out.append((k, v, s3))
                    live = self.dedup(nx)
                    if not live:
                        break
                if n.orelse:
                    out += self.block(n.orelse, live)
                else:
                    out += [('next', None, x) for x in live]
                out += [('next', None, x) for x in brk]
            else:
                out += self.loop(n, s, ('op', 'elem', it))
        return out

    def s_While(self, n, st):
        return self.loop(n, st, None)

    def loop(self, n, st, elem):
        out = []
        skip = st.copy()
        self.havoc(n, st)
        sts = self.assign(n.target, elem, st) if elem is not None else [st]
        for s in sts:
            for k, v, s3 in self.block(n.body, [s]):
                if k in ('next', 'continue', 'break'):
                    self.havoc(n, s3)
                    out.append(('next', None, s3))
                else:
                    out.append((k, v, s3))
        out.append(('next', None, skip))
        return out

    def havoc(self, n, st):
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    st.env[x.id] = ('sym', '%s@loop%d' % (x.id, n.lineno))

    def s_FunctionDef(self, n, st):
        st.env[n.name] = ('sym', n.name)
        return [('next', None, st)]

    def s_Delete(self, n, st):
        return [('next', None, st)]

    def s_Match(self, n, st):
        out = []
        for c in n.cases:
            s = st.copy()
            s.conds = s.conds + ((('sym', 'case@%d' % c.pattern.lineno), True),)
            out += self.block(c.body, [s])
        out.append(('next', None, st))
        return out

    # ---- expressions --------------------------------------------------------------------
    def ev(self, n, st):
        """-> [(value, state)]"""
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m:
            return m(n, st)
        return [(('sym', ast.unparse(n)), st)]

    def evs(self, ns, st):
        cur = [((), st)]
        for x in ns:
            cur = [(vs + (v,), s2) for vs, s in cur for v, s2 in self.ev(x, s)]
        return cur

    def e_Constant(self, n, st):
        return [(('c', n.value), st)]

    def e_Name(self, n, st):
        if n.id in st.env:
            return [(st.env[n.id], st)]
        if n.id in self.consts:
            return [(self.consts[n.id], st)]
        return [(('sym', n.id), st)]

    def e_Attribute(self, n, st):
        out = []
        for b, s in self.ev(n.value, st):
            if b[0] == 'raise':
                out.append((b, s)); continue
            v = ('attr', b, n.attr)
            h = s.heap.get(text(v))
            if h is None:
                h = self.c.load(self, v, s)
            if isinstance(h, list):
                out += h
            else:
                out.append((h if h is not None else v, s))
        return out

    def e_List(self, n, st):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            out = []
            cur = [((), st)]
            ok = True
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    cur = [(vs + v[1] if v[0] in ('list', 'tuple') else vs + (('op', 'star', v),), s2) for vs, s in cur for v, s2 in self.ev(x.value, s)]
                else:
                    cur = [(vs + (v,), s2) for vs, s in cur for v, s2 in self.ev(x, s)]
            return [(('list', vs), s) for vs, s in cur]
        return [(('list', vs), s) for vs, s in self.evs(n.elts, st)]

    def e_Tuple(self, n, st):
        return [(('tuple', v[1]), s) for v, s in self.e_List(n, st)]

    def e_Set(self, n, st):
        return [(('set', v[1]), s) for v, s in self.e_List(n, st)]

    def e_Dict(self, n, st):
        if any(k is None for k in n.keys):
            return [(('sym', ast.unparse(n)), st)]
        out = []
        for ks, s in self.evs(n.keys, st):
            for vs, s2 in self.evs(n.values, s):
                out.append((('dict', tuple(zip(ks, vs))), s2))
        return out

    def e_JoinedStr(self, n, st):
        cur = [((), st)]
        for p in n.values:
            if isinstance(p, ast.Constant):
                cur = [(ps + (p.value,), s) for ps, s in cur]
            else:
                cur = [(ps + (v,), s2) for ps, s in cur for v, s2 in self.ev(p.value, s)]
        out = []
        for ps, s in cur:
            if all(isinstance(p, str) or p[0] == 'c' for p in ps):
                out.append((('c', ''.join(p if isinstance(p, str) else str(p[1]) for p in ps)), s))
            else:
                out.append((('fstr', ps), s))
        return out

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        live = [st]
        out = []
        for i, x in enumerate(n.values):
            nxt = []
            for s in live:
                for v, s2 in self.ev(x, s):
                    if v[0] == 'raise':
                        out.append((v, s2)); continue
                    if i == len(n.values) - 1:
                        out.append((v, s2)); continue
                    for t, s3 in self.decide(v, s2):
                        if t is isand:
                            nxt.append(s3)
                        else:
                            out.append((v if self.truth(v) is not None else ('c', t), s3))
            live = nxt
        return out

    def e_UnaryOp(self, n, st):
        out = []
        for v, s in self.ev(n.operand, st):
            o = type(n.op).__name__
            if v[0] == 'c' and not (o == 'Invert'):
                try:
                    r = {'Not': lambda x: not x, 'USub': lambda x: -x, 'UAdd': lambda x: +x}[o](v[1])
                    out.append((('c', r), s)); continue
                except Exception:
                    pass
            if o == 'Not' and self.truth(v) is not None:
                out.append((('c', not self.truth(v)), s)); continue
            out.append((('op', o, v), s))
        return out

    def binop(self, o, a, b):
        if isconst(a) and isconst(b) and a[0] != 'set' and b[0] != 'set':
            try:
                import operator
                f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'FloorDiv': operator.floordiv, 'Div': operator.truediv, 'Mod': operator.mod, 'Pow': operator.pow}[o]
                return conv(f(pyval(a), pyval(b)))
            except Exception:
                pass
        if o in ('BitOr', 'BitAnd', 'Sub') and a[0] == 'set' and b[0] == 'set' and isconst(a) and isconst(b):
            x = {'BitOr': lambda: a[1] + tuple(y for y in b[1] if y not in a[1]), 'BitAnd': lambda: tuple(y for y in a[1] if y in b[1]),
                 'Sub': lambda: tuple(y for y in a[1] if y not in b[1])}[o]()
            return ('set', x)
        if o == 'Add' and a[0] in ('list', 'tuple') and b[0] == a[0]:
            return (a[0], a[1] + b[1])
        return ('op', o, a, b)

    def e_BinOp(self, n, st):
        return [(self.binop(type(n.op).__name__, a, b), s2) for a, s in self.ev(n.left, st) for b, s2 in self.ev(n.right, s)]

    def e_Compare(self, n, st):
        if len(n.ops) > 1:
            return [(('op', 'chain:' + ','.join(type(o).__name__ for o in n.ops)) + vs, s) for vs, s in self.evs([n.left] + n.comparators, st)]
        out = []
        for a, s in self.ev(n.left, st):
            for b, s2 in self.ev(n.comparators[0], s):
                if a[0] == 'raise' or b[0] == 'raise':
                    out.append((a if a[0] == 'raise' else b, s2)); continue
                out.append((self.compare(type(n.ops[0]).__name__, a, b), s2))
        return out

    def compare(self, o, a, b):
        if o in ('In', 'NotIn') and b[0] in ('list', 'tuple', 'set', 'dict'):
            items = [k for k, v in b[1]] if b[0] == 'dict' else b[1]
            if a[0] == 'c' and all(isconst(x) for x in items):
                r = any(isconst(x) and pyval(x) == a[1] for x in items)
                return ('c', r if o == 'In' else not r)
        if isconst(a) and isconst(b):
            x, y = pyval(a), pyval(b)
            try:
                import operator
                if o in ('Is', 'IsNot'):
                    r = (x is y) if (x is None or y is None or isinstance(x, bool) or isinstance(y, bool)) else x == y
                    return ('c', r if o == 'Is' else not r)
                if o in ('In', 'NotIn'):
                    return ('c', (x in y) if o == 'In' else (x not in y))
                f = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[o]
                return ('c', f(x, y))
            except Exception:
                pass
        if o in ('Is', 'IsNot') and b == ('c', None) and a[0] in ('list', 'tuple', 'dict', 'set', 'fstr'):
            return ('c', o == 'IsNot')
        if o in ('Is', 'Eq') and a == b and a[0] != 'call':
            return ('c', True)
        if o == 'IsNot':
            return ('op', 'Not', ('op', 'Is', a, b)) if False else ('op', 'IsNot', a, b)
        return ('op', o, a, b)

    def e_IfExp(self, n, st):
        out = []
        for v, s in self.cond(n.test, st):
            if v is True:
                out += self.ev(n.body, s)
            elif v is False:
                out += self.ev(n.orelse, s)
            else:
                out.append((v, s))
        return out

    def e_Subscript(self, n, st):
        out = []
        for b, s in self.ev(n.value, st):
            for i, s2 in self.ev(n.slice, s):
                h = s2.heap.get('%s[%s]' % (text(b), text(i)))
                if h is not None:
                    out.append((h, s2)); continue
                if b[0] in ('list', 'tuple') and i[0] == 'c' and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
                    out.append((b[1][i[1]], s2)); continue
                if b[0] == 'dict' and i[0] == 'c':
                    d = [v for k, v in b[1] if k == i]
                    if d:
                        out.append((d[0], s2)); continue
                if b[0] == 'c' and isinstance(b[1], str) and i[0] == 'c':
                    try:
                        out.append((('c', b[1][i[1]]), s2)); continue
                    except Exception:
                        pass
                if b[0] == 'c' and isinstance(b[1], str) and i[0] == 'op' and i[1] == 'slice' and all(x[0] == 'c' for x in i[2:]):
                    out.append((('c', b[1][slice(*[x[1] for x in i[2:]])]), s2)); continue
                out.append((('op', 'item', b, i), s2))
        return out

    def e_Slice(self, n, st):
        cur = [((), st)]
        for x in (n.lower, n.upper, n.step):
            cur = [(vs + (v,), s2) for vs, s in cur for v, s2 in ([(('c', None), s)] if x is None else self.ev(x, s))]
        return [(('op', 'slice') + vs, s) for vs, s in cur]

    def e_Starred(self, n, st):
        return [(('op', 'star', v), s) for v, s in self.ev(n.value, st)]

    def e_NamedExpr(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            s.env[n.target.id] = v
            out.append((v, s))
        return out

    def e_Lambda(self, n, st):
        return [(('sym', ast.unparse(n)), st)]

    def comp(self, n, st, kind):
        if len(n.generators) == 1 and not n.generators[0].is_async:
            g = n.generators[0]
            r = self.ev(g.iter, st)
            if len(r) == 1:
                it, s = r[0]
                if it[0] in ('list', 'tuple', 'set') and len(it[1]) <= 300:
                    vals = []
                    for x in it[1]:
                        s2 = s.copy()
                        self.assign(g.target, x, s2)
                        ok = True
                        for c in g.ifs:
                            q = self.cond(c, s2.copy())
                            if len(q) != 1 or not isinstance(q[0][0], bool):
                                return None
                            ok = ok and q[0][0]
                        if ok:
                            e = self.ev(n.elt, s2)
                            if len(e) != 1:
                                return None
                            vals.append(e[0][0])
                    return [((kind, tuple(vals)), s)]
        return None

    def e_ListComp(self, n, st):
        r = self.comp(n, st, 'list')
        if r is None:
            return self.genexp(n, st)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st):
        r = self.comp(n, st, 'set')
        return r if r is not None else self.genexp(n, st)

    def genexp(self, n, st):
        s2 = st.copy()
        vals = []
        for g in n.generators:
            it = self.ev(g.iter, s2)[0][0]
            vals.append(it)
            self.assign(g.target, ('op', 'elem', it), s2)
        ifs = [self.ev(c, s2.copy())[0][0] for g in n.generators for c in g.ifs]
        e = self.ev(n.elt, s2.copy())[0][0]
        return [(('op', 'comp', e) + tuple(vals) + tuple(ifs), st)]

    def e_Call(self, n, st):
        out = []
        for f, s in self.callee(n.func, st):
            if f[0] == 'raise':
                out.append((f, s)); continue
            for args, s2 in self.evs(n.args, s):
                cur = [((), s2)]
                for k in n.keywords:
                    cur = [(ks + ((k.arg or '**', v),), s4) for ks, s3 in cur for v, s4 in self.ev(k.value, s3)]
                for kw, s3 in cur:
                    bad = [a for a in args if a[0] == 'raise']
                    if bad:
                        out.append((bad[0], s3)); continue
                    out += self.do_call(f, args, kw, n, s3)
        return out

    def callee(self, n, st):
        return self.ev(n, st)

    def do_call(self, f, args, kw, n, st):
        name = text(f)
        r = self.c.call(self, name, f, args, kw, n, st)
        if r is not None:
            return r
        st.eff = st.eff + (('call', name, args, kw, n.lineno, f),)
        # methods of constants
        if f[0] == 'attr' and isconst(f[1]) and all(isconst(a) for a in args) and not kw:
            try:
                b = pyval(f[1])
                if isinstance(b, (str, bytes)) and f[2] in ('encode', 'decode', 'startswith', 'endswith', 'lower', 'upper', 'strip', 'split', 'replace', 'join', 'find', 'format', 'lstrip', 'rstrip', 'removeprefix', 'count', 'rsplit', 'isdigit'):
                    return [(conv(getattr(b, f[2])(*[pyval(a) for a in args])), st)]
                if isinstance(b, (list, tuple)) and f[2] in ('index', 'count'):
                    return [(conv(getattr(b, f[2])(*[pyval(a) for a in args])), st)]
            except Exception:
                pass
        if f[0] == 'attr' and f[2] in ('keys', 'values', 'items') and f[1][0] == 'dict' and not args:
            d = f[1][1]
            return [(('list', tuple({'keys': k, 'values': v, 'items': ('tuple', (k, v))}[f[2]] for k, v in d)), st)]
        if f[0] == 'attr' and f[2] == 'append' and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            v = st.env.get(n.func.value.id)
            if v and v[0] == 'list' and len(args) == 1:
                st.env[n.func.value.id] = ('list', v[1] + (args[0],))
                return [(('c', None), st)]
        if f[0] == 'sym' and f[1] in ('len', 'range', 'list', 'tuple', 'sorted', 'str', 'int', 'float', 'bool', 'max', 'min', 'sum', 'any', 'all', 'isinstance', 'enumerate', 'zip', 'set', 'abs', 'hasattr', 'getattr', 'setattr', 'print'):
            r = self.builtin(f[1], args, kw, st)
            if r is not None:
                return r
        return [(('call', name, args, kw, f), st)]

    def builtin(self, name, args, kw, st):
        try:
            if name in ('len', 'range', 'str', 'int', 'float', 'bool', 'max', 'min', 'sum', 'any', 'all', 'abs', 'sorted') and args and not kw and all(isconst(a) for a in args):
                import builtins
                r = getattr(builtins, name)(*[pyval(a) for a in args])
                return [(conv(list(r)) if name == 'range' else conv(r), st)]
            if name == 'len' and args[0][0] in ('list', 'tuple', 'dict'):
                return [(('c', len(args[0][1])), st)]
            if name in ('list', 'tuple') and len(args) == 1 and args[0][0] in ('list', 'tuple'):
                return [((name, args[0][1]), st)]
            if name == 'list' and not args:
                return [(('list', ()), st)]
            if name == 'enumerate' and len(args) == 1 and args[0][0] in ('list', 'tuple'):
                return [(('list', tuple(('tuple', (('c', i), x)) for i, x in enumerate(args[0][1]))), st)]
            if name == 'zip' and all(a[0] in ('list', 'tuple') for a in args):
                return [(('list', tuple(('tuple', x) for x in zip(*[a[1] for a in args]))), st)]
            if name == 'isinstance' and args[0][0] == 'c':
                t = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'tuple': tuple, 'bytes': bytes, 'dict': dict}
                ts = [args[1]] if args[1][0] == 'sym' else list(args[1][1])
                if all(x[0] == 'sym' and x[1] in t for x in ts):
                    return [(('c', isinstance(args[0][1], tuple(t[x[1]] for x in ts))), st)]
            if name == 'getattr' and args[1][0] == 'c':
                v = ('attr', args[0], args[1][1])
                return [(st.heap.get(text(v), v), st)]
            if name == 'setattr' and args[1][0] == 'c':
                loc = text(args[0]) + '.' + args[1][1]
                st.heap[loc] = args[2]
                st.eff = st.eff + (('set', loc, args[2], 0),)
                return [(('c', None), st)]
        except Exception:
            pass
        return None


# ---- module index -----------------------------------------------------------------------
class Module:
    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(open(path, encoding='utf-8').read())
        self.classes = {n.name: Class(n, self) for n in self.tree.body if isinstance(n, ast.ClassDef)}
        self.functions = {n.name: n for n in self.tree.body if isinstance(n, ast.FunctionDef)}
        self.consts = {}
        e = Py()
        for n in self.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                try:
                    v = e.ev(n.value, S(env=dict(self.consts)))[0][0]
                    if isconst(v) or v[0] in ('list', 'dict', 'tuple'):
                        self.consts[n.targets[0].id] = v
                except Exception:
                    pass


class Class:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.methods, self.getters, self.setters = {}, {}, {}
        self.bases = [b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '?') for b in node.bases]
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                dec = [d for d in n.decorator_list]
                names = [d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else getattr(getattr(d, 'func', None), 'id', '?')) for d in dec]
                if 'property' in names:
                    self.getters[n.name] = n
                elif 'setter' in names:
                    self.setters[n.name] = n
                else:
                    self.methods[n.name] = n
