"""Data-movement summaries: which elements of which storage a function copies where, for one concrete field name.

A function is interpreted abstractly (lib/absint.py) with the name bound to a constant; counted loops are entered once with a
symbolic loop variable; BLASFEO packing/copy routines are modelled by their documented element mapping.  Every copy becomes a
Move: dst[index] = src[index] + offset for all values of the loop variables in their ranges, indices as polynomials."""
import re
import cfront as F, absint as A


# ---- polynomials over access paths (text form of absint values is parsed back) ------------------------------------------
def pc(c):
    return {(): c} if c else {}


def pa(a):
    return {(a,): 1}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            q = tuple(sorted(m + n))
            r[q] = r.get(q, 0) + c * d
            if r[q] == 0:
                del r[q]
    return r


def ptext(p):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda x: (len(x[0]), x[0])):
        t = '*'.join(m)
        out.append(('%d' % c if not t else (t if c == 1 else '-' + t if c == -1 else '%d*%s' % (c, t))))
    return '+'.join(out).replace('+-', '-')


def psubst(p, a, q):
    r = {}
    for m, c in p.items():
        k = m.count(a)
        x = pmul(pc(c), {tuple(y for y in m if y != a): 1})
        for _ in range(k):
            x = pmul(x, q)
        r = padd(r, x)
    return r


def poly(v):
    """polynomial of an absint value, or None"""
    k = v[0]
    if k == 'i':
        return pc(v[1])
    if k == 'f' and v[1] == int(v[1]):
        return pc(int(v[1]))
    if k == 'p':
        return pa(v[1])
    if k == 't':
        return pa('<%s>' % (v[1],))
    if k == 'e' and len(v) == 4 and v[1] in '+-*':
        a, b = poly(v[2]), poly(v[3])
        if a is None or b is None:
            return None
        return padd(a, b) if v[1] == '+' else padd(a, b, -1) if v[1] == '-' else pmul(a, b)
    if k == 'e' and len(v) == 3 and v[1] == '-':
        a = poly(v[2])
        return None if a is None else pmul(pc(-1), a)
    return pa(A.vtext(v))


class PT:
    """parser for the text of index expressions"""

    def __init__(self, s):
        self.s, self.i = s, 0

    def parse(self):
        p = self.add()
        if self.i != len(self.s):
            return pa(self.s)
        return p

    def pk(self):
        return self.s[self.i] if self.i < len(self.s) else ''

    def add(self):
        p = self.mul()
        while self.pk() in ('+', '-') and self.pk() and not self.s.startswith('->', self.i):
            o = self.pk()
            self.i += 1
            p = padd(p, self.mul(), 1 if o == '+' else -1)
        return p

    def mul(self):
        p = self.un()
        while self.pk() == '*':
            self.i += 1
            p = pmul(p, self.un())
        return p

    def un(self):
        if self.pk() == '-' and not self.s.startswith('->', self.i):
            self.i += 1
            return pmul(pc(-1), self.un())
        if self.pk() == '(':
            j = self.i
            self.i += 1
            p = self.add()
            if self.pk() == ')':
                self.i += 1
                if self.s.startswith('->', self.i) or self.pk() in ('.', '['):
                    self.i = j
                    return pa(self.atom())
                return p
            self.i = j
            return pa(self.atom())
        m = re.compile(r'\d+').match(self.s, self.i)
        if m:
            self.i = m.end()
            return pc(int(m.group(0)))
        return pa(self.atom())

    def atom(self):
        i = self.i
        d = 0
        while self.i < len(self.s):
            ch = self.s[self.i]
            if self.s.startswith('->', self.i):
                self.i += 2
                continue
            if ch in '([<{':
                d += 1
            elif ch in ')]>}':
                if d == 0:
                    break
                d -= 1
            elif d == 0 and ch in '+-*/%,=!&|':
                break
            self.i += 1
        if self.i == i:
            self.i = len(self.s)
        return canon_path(self.s[i:self.i])


def parse(s):
    return PT(s).parse()


def split_index(loc):
    """('base', ['i', 'j']) of a location text ending in [..]"""
    idx = []
    while loc.endswith(']'):
        d = 0
        for j in range(len(loc) - 1, -1, -1):
            if loc[j] == ']':
                d += 1
            elif loc[j] == '[':
                d -= 1
                if d == 0:
                    break
        idx.insert(0, loc[j + 1:-1])
        loc = loc[:j]
        if loc.endswith('.pa') or loc.endswith('->pa'):
            break
    return loc, idx


def canon_path(s):
    """struct pointers and their objects get one spelling: x.f == x->f, x[0].f == x->f"""
    s = s.replace('[0].', '->').replace('[0]->', '->')
    s = re.sub(r'(?<=[\w\])])\.(?=[A-Za-z_])', '->', s)
    return s


def vec_base(loc):
    loc = canon_path(loc)
    for suf in ('->pa', '->pA'):
        if loc.endswith(suf):
            return loc[:-len(suf)], suf
    return loc, None


def obj(v):
    """(storage name) of a pointer-to-struct argument"""
    if v[0] == '&':
        return canon_path(v[1])
    if v[0] == 'e' and v[1] == '+' and len(v) == 4:
        return canon_path('%s[%s]' % (A.vtext(v[2]), A.vtext(v[3])))
    return canon_path(A.vtext(v))


def ptr(v):
    """(base, index polynomial) of a raw pointer value"""
    if v[0] == '&':
        b, idx = split_index(v[1])
        if len(idx) == 1:
            return vec_base(b)[0], parse(idx[0])
        return canon_path(v[1]), {}
    if v[0] == 'p':
        return vec_base(v[1])[0], {}
    if v[0] == 'e' and v[1] in '+-' and len(v) == 4:
        b, i = ptr(v[2])
        return b, padd(i, poly(v[3]) or pa('?'), 1 if v[1] == '+' else -1)
    return canon_path(A.vtext(v)), {}


def panel(t):
    """(i, j) of a panel-major element index (i-(i&3))*cn + j*4 + (i&3), else None"""
    m = re.match(r'^\(\(\(\((.*)-\((.*)&3\)\)\*([\w>.\[\]()-]*?cn)\)\+\((.*)\*4\)\)\+\((.*)&3\)\)$', t)
    if m and m.group(1) == m.group(2) == m.group(5):
        return m.group(1), m.group(4)
    m = re.match(r'^\((.*)\*4\)$', t)          # row 0
    if m:
        return '0', m.group(1)
    return None


class Move:
    __slots__ = ('dst', 'src', 'off', 'nest', 'line', 'path', 'op', 'conds')

    def __init__(self, dst, src, off, nest, line, path, op='copy', conds=()):
        self.dst, self.src, self.off, self.nest, self.line, self.path, self.op, self.conds = dst, src, off, nest, line, path, op, conds

    def __repr__(self):
        f = lambda x: '%s[%s]' % (x[0], ','.join(map(ptext, x[1]))) if x else 'const'
        return '%s %s = %s + %s  for %s%s' % (self.op, f(self.dst), f(self.src), ptext(self.off) if self.off is not None else '?',
                                          '; '.join('%s<%s' % (s, ptext(h)) for s, h in self.nest), ' if ' + ' & '.join(self.conds) if self.conds else '')


class Cli(A.Client):
    inline_depth = 6
    max_states = 48

    def __init__(self, P, G):
        self.P, self.G = P, G
        self.moves = []
        self.opaque = []
        self.allowed = None
        self.contested = {}
        self.size = {}
        self.n = 0

    def inline(self, path, name, e):
        k = (path, name)
        if k not in self.size:
            self.size[k] = sum(1 for _ in dict(self.P.functions[name])[path].walk())
        return self.size[k] < 12000

    def where(self, e, n):
        return e.cur().path

    def fresh(self):
        self.n += 1
        return '@%d' % self.n

    def conds(self, st):
        return tuple(sorted(('' if v else '!') + canon_path(k) for k, v in st.facts.items() if '@' in k))

    def add(self, e, dst, src, off, extra, n, st, op='copy'):
        nest = list(e.nest) + list(extra)
        conds = self.conds(st)
        self.moves.append(Move(dst, src, off, [(s, hi) for s, lo, hi in nest], n.l, e.cur().path, op, conds))

    def element(self, loc, e, n):
        b, idx = split_index(loc)
        base, suf = vec_base(b)
        if suf == '->pA' and len(idx) == 1:
            ij = panel(idx[0])
            if ij is not None:
                return base, [parse(ij[0]), parse(ij[1])]
            self.opaque.append(('loop', (loc,), e.cur().path, n.l))
            return base, [pa(idx[0])]
        if len(idx) > 1 and suf is None:
            base = canon_path(loc[:len(loc) - len(idx[-1]) - 2])
            idx = idx[-1:]
        return base, [parse(i) for i in idx]

    def on_write(self, e, loc, val, n, st):
        if not ('->' in loc or '[' in loc or '.' in loc) or loc.startswith('<lv'):
            return
        if re.match(r'^[\w/:]*:\w+(\.|\[)', loc) and not '->' in loc:
            return
        dst = self.element(loc, e, n)
        p = poly(val)
        src, off = None, None
        if n.k != 'BinaryOperator':
            self.add(e, dst, None, None, (), n, st, 'update')
            return
        if p is not None:
            loads = [(m, c) for m, c in p.items() if len(m) == 1 and c == 1 and ('[' in m[0] or '->' in m[0]) and m[0][0] not in '(!']
            # one loaded element with coefficient 1, the rest is the offset
            best = [x for x in loads if re.search(r'\[', x[0][0])]
            if len(p) == 1 and loads:
                best = loads
            if len(best) > 1:
                v = [x for x in best if x[0][0].startswith('value')]
                best = v or best
            if best:
                m = best[0][0][0]
                src = self.element(m, e, n)
                off = padd(p, {(m,): 1}, -1)
            else:
                off = p
        self.add(e, dst, src, off, (), n, st)

    def on_call(self, e, name, slot, args, n, st):
        if name in ('printf', 'fprintf', 'exit', 'abort', 'strcmp', 'strncmp', 'strlen', 'strchr', 'strcpy', 'strncpy'):
            return None
        if name is None and slot:
            return self.follow(e, slot, args, n, st)
        if name in BL:
            BL[name](self, e, args, n, st)
            return [(('t', 'void'), st)]
        if name and self.P.lookup(name, e.cur().path) is None and not name.startswith('__builtin') and name not in ('fabs', 'fmin', 'fmax', 'sqrt', 'floor', 'ceil', 'isnan', 'isinf'):
            self.opaque.append((name, tuple(A.vtext(a) for a in args), e.cur().path, n.l))
        return None

    def follow(self, e, slot, args, n, st):
        ts = sorted(x for x in self.G.slots.get(slot, ()) if x[0] != '<ext>')
        if len(ts) > 1:
            self.contested[slot] = ts
        if self.allowed is not None:
            ts = [x for x in ts if self.allowed(x)]
        if not ts or len(e.frames) > self.inline_depth:
            self.opaque.append(('slot %s.%s' % slot if isinstance(slot, tuple) else str(slot), (), e.cur().path, n.l))
            return None
        out = []
        for path, name in ts:
            fn = dict(self.P.functions[name])[path]
            if any(fr.name == name for fr in e.frames):
                continue
            out += e.call_fn(path, name, fn, list(args), st.copy())
        return out

    # the engine discards aborted unrolling attempts
    def snapshot(self):
        return len(self.moves), len(self.opaque)

    def restore(self, x):
        if x:
            del self.moves[x[0]:]
            del self.opaque[x[1]:]


def P_(v):
    p = poly(v)
    return p if p is not None else pa('?')


def _vec(dstf, srcf):
    def f(c, e, a, n, st):
        k = c.fresh()
        nn, dst, src = dstf(a, pa(k)), None, None
        cnt, d = nn
        s, off = srcf(a, pa(k))
        c.add(e, d, s, off, [(k, {}, cnt)], n, st)
    return f


def _pack_dvec(c, e, a, n, st):
    k = c.fresh()
    b, i = ptr(a[1])
    c.add(e, (obj(a[3]), [padd(P_(a[4]), pa(k))]), (b, [padd(i, pmul(pa(k), P_(a[2])))]), {}, [(k, {}, P_(a[0]))], n, st)


def _unpack_dvec(c, e, a, n, st):
    k = c.fresh()
    b, i = ptr(a[3])
    c.add(e, (b, [padd(i, pmul(pa(k), P_(a[4])))]), (obj(a[1]), [padd(P_(a[2]), pa(k))]), {}, [(k, {}, P_(a[0]))], n, st)


def _mat(pack, tran):
    def f(c, e, a, n, st):
        x, y = c.fresh(), c.fresh()
        m, nn = P_(a[0]), P_(a[1])
        if pack:
            arr, ld, mat, ai, aj = a[2], a[3], a[4], a[5], a[6]
        else:
            mat, ai, aj, arr, ld = a[2], a[3], a[4], a[5], a[6]
        b, o = ptr(arr)
        i, j = (pa(x), pa(y))
        if tran and not pack:
            A_ = (b, [padd(o, padd(j, pmul(i, P_(ld))))])
        else:
            A_ = (b, [padd(o, padd(i, pmul(j, P_(ld))))])
        if tran and pack:
            M = (obj(mat), [padd(P_(ai), j), padd(P_(aj), i)])
        else:
            M = (obj(mat), [padd(P_(ai), i), padd(P_(aj), j)])
        c.add(e, M if pack else A_, A_ if pack else M, {}, [(x, {}, m), (y, {}, nn)], n, st)
    return f


def _dveccp(c, e, a, n, st):
    k = c.fresh()
    c.add(e, (obj(a[3]), [padd(P_(a[4]), pa(k))]), (obj(a[1]), [padd(P_(a[2]), pa(k))]), {}, [(k, {}, P_(a[0]))], n, st)


def _dvecse(c, e, a, n, st):
    k = c.fresh()
    c.add(e, (obj(a[2]), [padd(P_(a[3]), pa(k))]), None, P_(a[1]), [(k, {}, P_(a[0]))], n, st)


def _dgese(c, e, a, n, st):
    x, y = c.fresh(), c.fresh()
    c.add(e, (obj(a[3]), [padd(P_(a[4]), pa(x)), padd(P_(a[5]), pa(y))]), None, P_(a[2]), [(x, {}, P_(a[0])), (y, {}, P_(a[1]))], n, st)


def _dgecp(c, e, a, n, st):
    x, y = c.fresh(), c.fresh()
    c.add(e, (obj(a[5]), [padd(P_(a[6]), pa(x)), padd(P_(a[7]), pa(y))]), (obj(a[2]), [padd(P_(a[3]), pa(x)), padd(P_(a[4]), pa(y))]), {},
          [(x, {}, P_(a[0])), (y, {}, P_(a[1]))], n, st)


def _upd_vec(iz):
    def f(c, e, a, n, st):
        k = c.fresh()
        c.add(e, (obj(a[iz]), [padd(P_(a[iz + 1]), pa(k))]), None, None, [(k, {}, P_(a[0]))], n, st, 'update')
    return f


def _mul(c, e, a, n, st):
    k = c.fresh()
    for x in (1, 3):
        c.add(e, (obj(a[5]), [padd(P_(a[6]), pa(k))]), (obj(a[x]), [padd(P_(a[x + 1]), pa(k))]), None, [(k, {}, P_(a[0]))], n, st, 'mul')


def _memcpy(c, e, a, n, st):
    k = c.fresh()
    bd, i = ptr(a[0]); bs, j = ptr(a[1])
    cnt = P_(a[2])
    # byte count -> element count
    so = [a for mo in cnt for a in mo if a.startswith('<sizeof ')]
    if so and all(mo.count(so[0]) == 1 for mo in cnt):
        cnt = {tuple(a for a in mo if a != so[0]): v for mo, v in cnt.items()}
        c.add(e, (bd, [padd(i, pa(k))]), (bs, [padd(j, pa(k))]), {}, [(k, {}, cnt)], n, st)
        return
    for sz in (8, 4):
        if cnt and all(v % sz == 0 for v in cnt.values()):
            cnt = {m: v // sz for m, v in cnt.items()}
            break
    c.add(e, (bd, [padd(i, pa(k))]), (bs, [padd(j, pa(k))]), {}, [(k, {}, cnt)], n, st)


def _diain(c, e, a, n, st):
    pass


BL = {'blasfeo_pack_dvec': _pack_dvec, 'blasfeo_unpack_dvec': _unpack_dvec, 'blasfeo_pack_dmat': _mat(True, False), 'blasfeo_pack_tran_dmat': _mat(True, True),
      'blasfeo_unpack_dmat': _mat(False, False), 'blasfeo_unpack_tran_dmat': _mat(False, True), 'blasfeo_dveccp': _dveccp, 'blasfeo_dvecse': _dvecse,
      'blasfeo_dgese': _dgese, 'blasfeo_dgecp': _dgecp, 'blasfeo_dvecsc': _upd_vec(2), 'blasfeo_dvecad': _upd_vec(4), 'blasfeo_daxpy': _upd_vec(6), 'blasfeo_dvecmul': _mul, 'memcpy': _memcpy}


class E(A.Engine):
    maxd = 16

    def __init__(self, P, client, cg=None):
        A.Engine.__init__(self, P, client, cg)
        self.nest = []

    def x_ForStmt(self, n, sts, fl):
        init, cv, cond, step, body = n.c[0], n.c[1], n.c[2], n.c[3], n.c[4]
        if init.k != 'Null':
            sts = self.ex(init, sts)['next']
        self.counted(n, sts, fl, cond, body, step)

    def x_WhileStmt(self, n, sts, fl):
        self.counted(n, sts, fl, n.c[-2], n.c[-1], None)

    def counted(self, n, sts, fl, cond, body, step):
        if step is None or step.k == 'Null':
            step, body2 = self.tail_step(body)
        else:
            body2 = body
        h = self.header(cond, step, body2) if step is not None else None
        if h is None:
            return self.generic(n, sts, fl, cond, body, step if body2 is body else None)
        var, up, bound, incl = h
        for s in sts:
            a = self.load(var, s)
            for b, s2 in self.ev(bound, s):
                if a[0] == 'i' and b[0] == 'i' and abs(b[1] - a[1]) <= 12:
                    self.generic(n, [s2], fl, cond, body, step if body2 is body else None)
                    continue
                one = ('i', 1)
                if up:
                    lo, hi = a, (('e', '+', b, one) if incl else b)
                    end = hi
                else:
                    lo, hi = (b if incl else ('e', '+', b, one)), ('e', '+', a, one)
                    end = ('e', '-', lo, one)
                self.symbolic(n, var, lo, hi, end, body2, s2, fl)

    def generic(self, n, sts, fl, cond, body, step):
        k = len(self.c.moves)
        self.loop(n, sts, fl, cond, body, step)
        if getattr(self, 'generic_loop', False) and len(self.c.moves) > k:
            self.c.opaque.append(('loop', (), self.cur().path, n.l))

    def x_DoStmt(self, n, sts, fl):
        k = len(self.c.moves)
        A.Engine.x_DoStmt(self, n, sts, fl)
        if getattr(self, 'generic_loop', False) and len(self.c.moves) > k:
            self.c.opaque.append(('loop', (), self.cur().path, n.l))

    def tail_step(self, body):
        """(step, body without it) when the last statement of a loop body advances a counter"""
        if body.k == 'CompoundStmt' and body.c and not any(x.k == 'ContinueStmt' for x in body.walk()):
            if self.step_of(body.c[-1]) is not None:
                nb = F.N('CompoundStmt')
                nb.c, nb.l, nb.id, nb.f = body.c[:-1], body.l, body.id, body.f
                return body.c[-1], nb
        return None, body

    def step_of(self, s):
        """(declaration id, +1 or -1)"""
        one = lambda x: F.strip_casts(x).k == 'IntegerLiteral' and str(F.strip_casts(x).v) == '1'
        q = d = None
        if s.k == 'UnaryOperator' and s.op in ('++', '--'):
            q, d = s.c[0], 1 if s.op == '++' else -1
        elif s.k == 'CompoundAssignOperator' and s.op in ('+=', '-=') and one(s.c[1]):
            q, d = s.c[0], 1 if s.op == '+=' else -1
        elif s.k == 'BinaryOperator' and s.op == '=':
            r = F.strip_casts(s.c[1])
            l, x = F.strip_casts(s.c[0]), F.strip_casts(r.c[0]) if r.c else None
            if r.k == 'BinaryOperator' and r.op in '+-' and one(r.c[1]) and l.k == 'DeclRefExpr' and x.k == 'DeclRefExpr' and l.r[3] == x.r[3]:
                q, d = s.c[0], 1 if r.op == '+' else -1
        if q is None:
            return None
        q = F.strip_casts(q)
        return (q.r[3], d) if q.k == 'DeclRefExpr' else None

    def header(self, cond, step, body):
        """(counter location, upwards?, bound node, bound included?)"""
        so = self.step_of(step)
        if so is None or cond is None or cond.k == 'Null':
            return None
        cond = F.strip_casts(cond)
        if cond.k != 'BinaryOperator' or cond.op not in ('<', '<=', '>', '>=', '!='):
            return None
        l, r, op = F.strip_casts(cond.c[0]), cond.c[1], cond.op
        if not (l.k == 'DeclRefExpr' and l.r[3] == so[0]):
            l, r = F.strip_casts(cond.c[1]), cond.c[0]
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '!=': '!='}[op]
        if l.k != 'DeclRefExpr' or l.r[3] != so[0] or so[0] not in self.cur().ids:
            return None
        for x in body.walk():
            if x is not step and self.step_of(x) is not None and self.step_of(x)[0] == so[0]:
                return None
            if x.k in ('BinaryOperator', 'CompoundAssignOperator') and (x.op == '=' or x.k[0] == 'C'):
                t = F.strip_casts(x.c[0])
                if t.k == 'DeclRefExpr' and t.r[3] == so[0]:
                    return None
        up = so[1] > 0
        if (up and op in ('>', '>=')) or (not up and op in ('<', '<=')):
            return None
        return self.cur().ids[so[0]], up, r, op in ('<=', '>=')

    def symbolic(self, n, var, lo, hi, end, body, st, fl):
        k = self.c.fresh()
        zero = lo[0] == 'i' and lo[1] == 0
        vv = ('p', k) if zero else ('e', '+', ('p', k), lo)
        h = poly(hi)
        l = poly(lo)
        cnt = padd(h, l, -1) if h is not None and l is not None else pa('?')
        assigned = set()
        for a in body.walk():
            tgt = None
            if (a.k == 'BinaryOperator' and a.op == '=') or a.k == 'CompoundAssignOperator' or (a.k == 'UnaryOperator' and a.op in ('++', '--')):
                tgt = F.strip_casts(a.c[0])
            if tgt is not None and tgt.k == 'DeclRefExpr' and tgt.r[3] in self.cur().ids:
                q = self.cur().ids[tgt.r[3]]
                if q != var:
                    assigned.add(q)
        acc = {}
        st0 = st
        for attempt in (0, 1):
            st = st0.copy()
            for q in assigned:
                v0 = self.load_name(st0, q)
                self.kill(st, q)
                if q in acc and v0 is not None:
                    st.env[q] = ('e', '+', v0, ('p', '$S{%s|%s}' % (k, ptext(acc[q]))))
                else:
                    st.env[q] = ('t', '%s@l%d' % (q, n.l))
            self.write_local(st, var, vv)
            snap = self.snapshot()
            self.nest.append((k, {}, cnt))
            f = self.ex(body, [st])
            self.nest.pop()
            if attempt == 0 and assigned and len(f['next'] + f['cont']) >= 1 and not f['brk']:
                for q in assigned:
                    inc = None
                    for s in f['next'] + f['cont']:
                        p = poly(s.env[q]) if q in s.env else None
                        m0 = '<%s@l%d>' % (q, n.l)
                        i = padd(p, pa(m0), -1) if p is not None else None
                        if i is None or any(m0 in a for mo in i for a in mo) or not i or (inc is not None and i != inc):
                            inc = False
                            break
                        inc = i
                    if inc:
                        acc[q] = inc
                if acc:
                    self.restore(snap)
                    continue
            break
        fl['ret'] += f['ret']; fl['goto'] += f['goto']
        out = f['next'] + f['cont'] + f['brk']
        for s in out:
            # facts about the loop variable of this iteration do not survive it
            self.write_local(s, var, end)
            for q in [q for q in s.facts if k in q]:
                del s.facts[q]
            for q in acc:
                v0 = self.load_name(st0, q)
                if v0 is not None:
                    full = pmul(acc[q], cnt) if not any(k in a for mo in acc[q] for a in mo) else pa('$S{%s<%s|%s}' % (k, ptext(cnt), ptext(acc[q])))
                    s.env[q] = ('e', '+', v0, ('p', '$P{%s}' % ptext(full)))
            for q in [q for q, v in s.env.items() if (k in q or k in A.vtext(v)) and q not in acc]:
                if q == var:
                    continue
                if '->' in q or '[' in q:
                    del s.env[q]
                else:
                    s.env[q] = ('t', '%s@l%d' % (q, n.l))
        fl['next'] += self.merge_states(out, 'f%d' % n.l) if out else []

    def load_name(self, st, q):
        return st.env.get(q)

    def write_local(self, st, var, v):
        self.kill(st, var)
        st.env[var] = v


def run(P, G, path, name, bind, allowed=None, cls=Cli):
    """bind: {parameter name: absint value}.  Returns (client, returns) or None"""
    fn = dict(P.functions[name])[path]
    c = cls(P, G)
    c.allowed = allowed
    e = E(P, c, G)
    args = [bind.get(p.n, ('p', p.n or 'arg%d' % i)) for i, p in enumerate(F.params(fn))]
    try:
        outs = e.run(path, name, args)
    except A.Unsupported as ex:
        return None
    return c, outs


def fieldparam(P, path, name, idx):
    return F.params(dict(P.functions[name])[path])[idx].n


def rename(m):
    """canonical copy of a move: loop variables named by their order"""
    return m
