"""Symbolic size/offset summaries: abstract interpretation of straight-line/loop code in the domain of polynomials
over access paths (lib/poly.py).  Used for the calculate_size / assign obligations (C01)."""
import re
import cfront as F
from poly import *

NORETURN = {'exit', 'abort', '_exit', '__assert_fail'}


class Unsup(Exception):
    pass


PRIM = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, '_Bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'unsigned': 4,
        'long': 8, 'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'float': 4, 'double': 8, 'size_t': 8, 'acados_size_t': 8, 'hpipm_size_t': 8}


def sizeof(P, t, depth=0):
    """(size, align) under LP64, or None"""
    t = t.strip()
    for q in ('const ', 'volatile ', 'restrict '):
        t = t.replace(q, '')
    t = t.strip()
    m = re.match(r'^(.*?)\s*((?:\[\d+\])+)$', t)
    if m and '(*' not in m.group(1):
        b = sizeof(P, m.group(1), depth)
        if b is None:
            return None
        n = 1
        for d in re.findall(r'\[(\d+)\]', m.group(2)):
            n *= int(d)
        return (b[0] * n, b[1])
    if t.endswith('*') or '(*' in t or t.endswith('*const') or t.endswith('* const'):
        return (8, 8)
    if t in PRIM:
        return (PRIM[t], PRIM[t])
    if t.startswith('enum ') or t in P.enum_types:
        return (4, 4)
    r = P.rec_of(t)
    if r in PRIM:
        return (PRIM[r], PRIM[r])
    if r in P.records and depth < 12:
        o, al = 0, 1
        for f in P.records[r]:
            s = sizeof(P, f[2] if '(' not in f[1] else f[1], depth + 1) or sizeof(P, f[1], depth + 1)
            if s is None:
                return None
            o = (o + s[1] - 1) // s[1] * s[1] + s[0]
            al = max(al, s[1])
        return ((o + al - 1) // al * al, al)
    if t in P.typedefs and depth < 12 and P.typedefs[t] != t:
        return sizeof(P, P.typedefs[t], depth + 1)
    if 'enum' in (P.typedefs.get(t) or ''):
        return (4, 4)
    return None


def symargs(fn, a):
    if fn == 'blasfeo_memsize_dmat':
        return tuple(sorted(a, key=repr))
    return a


class Handout:
    def __init__(self, off, what, node, kind, fn=None, args=None, tsize=None, depth=0):
        self.off = off; self.what = what; self.node = node; self.kind = kind; self.fn = fn; self.args = args
        self.tsize = tsize; self.delta = None; self.shared = None


class It:
    """one interpretation (either of a size function or of an assign function)"""
    uid = 0

    def __init__(self, P, expand=0, on_assert=None):
        self.P = P
        self.expand = expand          # how many levels of *_calculate_size calls to expand
        self.env = {}
        self.handouts = []
        self.notes = []
        self.asserts = []
        self.stack = []
        self.align = {8: ZERO}        # known: base + offset is a multiple of the key
        self.approx = []
        self.written = set()
        self.retv = None
        self.loops = []
        self.path = None
        self.lb = 0
        self.allocs = {}
        self.acc0 = {}
        self.bounds = {}              # loop level -> iteration count
        self.writes = []              # (byte offset, size, node) of stores into the block
        self.returned = False
        self.advsites = []

    # ---- values ---------------------------------------------------------------------------
    def unk(self, why):
        It.uid += 1
        return ('n', atom(('unk', '%s#%d' % (why, It.uid))))

    def load(self, loc, t):
        if loc in self.env:
            return self.env[loc]
        # element of an array that was filled symbolically
        if loc[0] == '[]' and ('arr', loc[1]) in self.env:
            _, level, lo, p = self.env[('arr', loc[1])]
            return ('n', subst(p, ('bv', level), sub(loc[2], lo)))
        if loc[0] == '[]' and loc[1] == ('rawmem',):
            for k, v in self.env.items():
                if isinstance(k, tuple) and k[0] == 'fill':
                    d = sub(loc[2], k[1])
                    if all(len(m) == 1 and m[0][0] == 'bv' for m, c in d) and all(c % v[2] == 0 for m, c in d):
                        return ('n', subst(v[3], ('bv', v[1]), mk({m: c // v[2] for m, c in d})))
        r = self.root(loc)
        tt = (t or '')
        if tt.endswith('*') or '(*' in tt or tt.endswith(']'):
            if tt.endswith(']') and not '(*' in tt:
                return ('P', loc, ZERO)      # array decays to pointer to its first element
            return ('P', loc, ZERO)
        if r in self.written and r[0] == 'l':
            return self.unk('local')
        return ('n', atom(('ld', loc)))

    def root(self, loc):
        while loc and loc[0] in ('.', '[]'):
            loc = loc[1]
        return loc

    def ptr(self, v):
        """(ident, index) of a pointer value"""
        if v[0] == 'P':
            return v[1], v[2]
        if v[0] == 'A':
            l = v[1]
            if l[0] == '[]':
                return l[1], l[2]
            return ('&', l), ZERO
        if v[0] == 'raw':
            return ('rawmem',), v[1]
        if v[0] == 'n':
            return ('int', v[1]), ZERO
        return ('opaque', v), ZERO

    def deref(self, v, idx=ZERO):
        if v[0] == 'A' and idx == ZERO:
            return v[1]
        ident, i = self.ptr(v)
        if ident[0] == '&' and add(i, idx) == ZERO:
            return ident[1]
        return ('[]', ident, add(i, idx))

    # ---- lvalues --------------------------------------------------------------------------
    def lv(self, n):
        k = n.k
        if k == 'DeclRefExpr':
            return self.var(n)
        if k == 'MemberExpr':
            b = n.c[0]
            if (n.x or {}).get('isArrow'):
                base = self.deref(self.ev(b))
            else:
                base = self.lv(b)
            return ('.', base, n.n)
        if k == 'ArraySubscriptExpr':
            b = self.ev(n.c[0]); i = self.ev(n.c[1])
            if b[0] == 'n':
                b, i = i, b
            if i[0] != 'n':
                i = self.unk('index')
            if b[0] == 'raw':
                e = sizeof(self.P, n.t or '')
                return self.deref(b, scale(i[1], e[0]) if e else self.unk('elem')[1])
            return self.deref(b, i[1])
        if k == 'UnaryOperator' and n.op == '*':
            return self.deref(self.ev(n.c[0]))
        if k == 'CStyleCastExpr':
            return self.lv(n.c[-1])
        raise Unsup('lvalue ' + k)

    def var(self, n):
        return ('l', len(self.stack), n.r[3]) if n.r[3] in self.locals() else self.globalvar(n)

    def globalvar(self, n):
        # a variable of an enclosing inlined frame cannot be named here; file-scope objects
        return ('g', n.r[1])

    def locals(self):
        return self.stack[-1]['ids']

    # ---- expressions ----------------------------------------------------------------------
    def ev(self, n):
        k = n.k
        if k == 'IntegerLiteral':
            return ('n', const(int(n.v)))
        if k == 'CharacterLiteral':
            return ('n', const(int(n.v or 0)))
        if k == 'FloatingLiteral':
            return self.unk('float')
        if k == 'CStyleCastExpr':
            v = self.ev(n.c[-1])
            if v[0] == 'raw' and (n.t or '').replace(' ', '') not in ('char*', 'void*', 'unsignedlong', 'size_t', 'acados_size_t') and (n.t or '').endswith('*'):
                return ('raw', v[1], n.t)
            return v
        if k == 'DeclRefExpr':
            if n.r[0] == 'EnumConstantDecl':
                c = self.P.enums.get(n.r[1])
                return ('n', const(c)) if isinstance(c, int) else ('n', atom(('ld', ('g', n.r[1]))))
            if n.r[0] == 'FunctionDecl':
                return ('fn', n.r[1])
            return self.load(self.var(n), n.t)
        if k in ('MemberExpr', 'ArraySubscriptExpr'):
            return self.load(self.lv(n), n.t)
        if k == 'UnaryOperator':
            op = n.op
            if op == '&':
                l = self.lv(n.c[0])
                return ('A', l)
            if op == '*':
                return self.load(self.lv(n), n.t)
            if op in ('++', '--'):
                l = self.lv(n.c[0])
                v = self.load(l, n.c[0].t)
                d = const(1 if op == '++' else -1)
                nv = self.plus(v, d, n.c[0].t)
                self.store(l, nv, n)
                return v if (n.x or {}).get('isPostfix') else nv
            v = self.ev(n.c[0])
            if v[0] != 'n':
                if op == '!':
                    return ('n', ind(('not', self.cond(n.c[0]))) if False else atom(('ind', ('nz', v))))
                return self.unk(op)
            if op == '-':
                return ('n', scale(v[1], -1))
            if op == '+':
                return v
            if op == '!':
                return ('n', ind(('not', self.cond(n.c[0]))))
            return self.unk(op)
        if k == 'UnaryExprOrTypeTraitExpr':
            t = None
            at = (n.x or {}).get('argType')
            if at:
                t = at.get('desugaredQualType') or at.get('qualType')
                s = sizeof(self.P, at.get('qualType')) or sizeof(self.P, t)
            elif n.c:
                t = n.c[0].t
                s = sizeof(self.P, t)
            else:
                raise Unsup('sizeof')
            if s is None:
                return ('n', atom(('call', 'sizeof', (('s', t),))))
            return ('n', const(s[0]))
        if k == 'BinaryOperator':
            return self.binop(n)
        if k == 'CompoundAssignOperator':
            l = self.lv(n.c[0])
            v = self.load(l, n.c[0].t)
            r = self.ev(n.c[1])
            if n.op == '+=' and r[0] == 'n':
                nv = self.plus(v, r[1], n.c[0].t, n)
            elif n.op == '-=' and r[0] == 'n':
                nv = self.plus(v, scale(r[1], -1), n.c[0].t, n)
            elif n.op == '*=' and r[0] == 'n' and v[0] == 'n':
                nv = ('n', mul(v[1], r[1]))
            else:
                nv = self.unk(n.op)
            self.store(l, nv, n)
            return nv
        if k == 'ConditionalOperator':
            if self.is_assert(n):
                self.asserts.append(n)
                return ('n', ZERO)
            c = self.cond(n.c[0])
            if c is True:
                return self.ev(n.c[1])
            if c is False:
                return self.ev(n.c[2])
            a, b = self.ev(n.c[1]), self.ev(n.c[2])
            return self.select(c, a, b)
        if k == 'CallExpr':
            return self.call(n)
        if k == 'StringLiteral':
            return ('s', n.v)
        if k == 'InitListExpr':
            return ('t', 'init')
        if k in ('StmtExpr',):
            raise Unsup(k)
        if k == 'ImplicitValueInitExpr':
            return ('n', ZERO)
        raise Unsup('expr ' + k)

    def is_assert(self, n):
        return any(F.callee(c) == '__assert_fail' for c in n.c)

    def select(self, c, a, b):
        if a == b:
            return a
        if a[0] == 'n' and b[0] == 'n':
            # max / min idioms
            if c[0] == 'cmp' and c[1] == '>':
                if c[2] == sub(a[1], b[1]):
                    return ('n', pmax(a[1], b[1]))
                if c[2] == sub(b[1], a[1]):
                    return ('n', pmin(a[1], b[1]))
            if c[0] == 'not' and c[1][0] == 'cmp' and c[1][1] == '>':
                if c[1][2] == sub(b[1], a[1]):
                    return ('n', pmax(a[1], b[1]))
                if c[1][2] == sub(a[1], b[1]):
                    return ('n', pmin(a[1], b[1]))
            i = ind(c)
            return ('n', add(mul(i, a[1]), mul(sub(ONE, i), b[1])))
        if a[0] == 'raw' and b[0] == 'raw':
            i = ind(c)
            return ('raw', add(mul(i, a[1]), mul(sub(ONE, i), b[1])))
        It.uid += 1
        return ('t', 'sel%d' % It.uid)

    def cond(self, n):
        """canonical condition: True / False / ('cmp', '>'|'=', poly) / ('not', c) / ('and'|'or', a, b) / ('nz', value)"""
        n = F.strip_casts(n)
        if n.k == 'BinaryOperator' and n.op in ('&&', '||'):
            a, b = self.cond(n.c[0]), self.cond(n.c[1])
            if n.op == '&&':
                if a is False or b is False:
                    return False
                if a is True:
                    return b
                if b is True:
                    return a
                return ('and', a, b)
            if a is True or b is True:
                return True
            if a is False:
                return b
            if b is False:
                return a
            return ('or', a, b)
        if n.k == 'UnaryOperator' and n.op == '!':
            c = self.cond(n.c[0])
            return (not c) if isinstance(c, bool) else (c[1] if c[0] == 'not' else ('not', c))
        if n.k == 'BinaryOperator' and n.op in ('<', '>', '<=', '>=', '==', '!='):
            a, b = self.ev(n.c[0]), self.ev(n.c[1])
            if a[0] == 'n' and b[0] == 'n':
                if n.op == '>':
                    return self.cmp('>', sub(a[1], b[1]))
                if n.op == '<':
                    return self.cmp('>', sub(b[1], a[1]))
                if n.op == '>=':
                    return self.neg(self.cmp('>', sub(b[1], a[1])))
                if n.op == '<=':
                    return self.neg(self.cmp('>', sub(a[1], b[1])))
                d = sub(a[1], b[1])
                d2 = scale(d, -1)
                d = min(d, d2, key=repr)
                c = self.cmp('=', d)
                return c if n.op == '==' else self.neg(c)
            xs = sorted([a, b], key=repr)
            if n.op in ('==', '!='):
                if a == b:
                    return n.op == '=='
                c = ('eq', xs[0], xs[1])
                return c if n.op == '==' else ('not', c)
            return ('rel', n.op, a, b)
        v = self.ev(n)
        if v[0] == 'n':
            if len(v[1]) == 1 and v[1][0][1] == 1 and len(v[1][0][0]) == 1 and v[1][0][0][0][0] == 'ind':
                return v[1][0][0][0][1]
            c = self.cmp('=', v[1])
            return self.neg(c)
        return ('nz', v)

    def cmp(self, op, p):
        c = cval(p)
        if c is not None:
            return (c > 0) if op == '>' else (c == 0)
        if op == '>' and all(k <= 0 for m, k in p):
            return False
        if op == '>' and all(k >= 0 for m, k in p) and cpart(p) > 0:
            return True
        if op == '=' and cpart(p) != 0 and (all(k >= 0 for m, k in p) or all(k <= 0 for m, k in p)):
            return False
        return ('cmp', op, p)

    def neg(self, c):
        if isinstance(c, bool):
            return not c
        return c[1] if c[0] == 'not' else ('not', c)

    def elem(self, t):
        t = (t or '').strip()
        if t.endswith('*'):
            s = sizeof(self.P, t[:-1].strip())
            if t.replace(' ', '') == 'void*':
                return 1
            return s[0] if s else None
        return 1

    def plus(self, v, d, t, node=None):
        if v[0] == 'n':
            return ('n', add(v[1], d))
        if v[0] == 'raw':
            e = self.elem(t)
            if e is None:
                raise Unsup('pointer arithmetic')
            nv = ('raw', add(v[1], scale(d, e)))
            if node is not None:
                self.advanced(v[1], nv[1], node)
            return nv
        if v[0] in ('P', 'A'):
            ident, i = self.ptr(v)
            return ('P', ident, add(i, d))
        return self.unk('plus')

    def binop(self, n):
        op = n.op
        if op == '=':
            l = self.lv(n.c[0])
            v = self.ev(n.c[1])
            if v[0] == 'raw':
                old = self.env.get(l)
                if old is not None and old[0] == 'raw' and old[1] != v[1]:
                    self.advanced(old[1], v[1], n)
            self.store(l, v, n)
            return v
        if op == ',':
            self.ev(n.c[0])
            return self.ev(n.c[1])
        if op in ('&&', '||', '<', '>', '<=', '>=', '==', '!='):
            c = self.cond(n)
            if isinstance(c, bool):
                return ('n', ONE if c else ZERO)
            return ('n', ind(c))
        a, b = self.ev(n.c[0]), self.ev(n.c[1])
        if a[0] == 'n' and b[0] == 'n':
            if op == '+':
                return ('n', add(a[1], b[1]))
            if op == '-':
                return ('n', sub(a[1], b[1]))
            if op == '*':
                return ('n', mul(a[1], b[1]))
            if op == '/':
                return ('n', pdiv(a[1], b[1]))
            if op == '%':
                return ('n', pmod(a[1], b[1]))
            ca, cb = cval(a[1]), cval(b[1])
            if ca is not None and cb is not None and op in ('<<', '>>', '&', '|'):
                ca, cb = int(ca), int(cb)
                return ('n', const({'<<': ca << cb if cb < 64 else 0, '>>': ca >> cb if cb < 64 else 0, '&': ca & cb, '|': ca | cb}[op]))
            return self.unk(op)
        if op == '+':
            if a[0] == 'n':
                a, b = b, a
                return self.plus(a, b[1], n.c[1].t)
            if b[0] == 'n':
                return self.plus(a, b[1], n.c[0].t)
        if op == '-':
            if a[0] == 'raw' and b[0] == 'raw':
                return ('n', sub(a[1], b[1]))
            if b[0] == 'n':
                return self.plus(a, scale(b[1], -1), n.c[0].t)
        if op == '%':
            return self.unk('%')
        return self.unk(op)

    # ---- stores / handouts ----------------------------------------------------------------
    def wrote(self, loc, size, node):
        while loc and loc[0] == '.':
            loc = loc[1]
        if loc and loc[0] == '[]' and loc[1] == ('rawmem',):
            self.writes.append((loc[2], size, node))

    def store(self, loc, v, node):
        r = self.root(loc)
        self.wrote(loc, None, node)
        self.written.add(loc)
        if loc[0] == '[]':
            self.env.pop(('arr', loc[1]), None)
        if loc[0] == '[]' and loc[1] == ('rawmem',):
            b0 = loc[2]
            for a in sorted({a for m, c in b0 for a in m if a[0] == 'bv'}):
                b0 = subst(b0, a, ZERO)
            self.env.pop(('fill', b0), None)
        elif loc[0] == '[]' and cval(loc[2]) is None:
            # weak update of other elements of the same array
            for k in [k for k in self.env if isinstance(k, tuple) and k[0] == '[]' and k[1] == loc[1] and k != loc]:
                del self.env[k]
        if v[0] == 'raw':
            t = self.node_type(node)
            if t and t.replace(' ', '') not in ('char*', 'void*') and t.endswith('*'):
                s = sizeof(self.P, t[:-1].strip())
                self.handout(Handout(v[1], loc, node, 'cast', tsize=s[0] if s else None))
            elif t and t.replace(' ', '') in ('char*', 'void*') and loc[0] != 'l':
                self.handout(Handout(v[1], loc, node, 'raw'))
            self.env[loc] = ('raw', v[1])
            return
        self.env[loc] = v

    def node_type(self, n):
        if n.k == 'VarDecl':
            return n.t
        if n.c:
            return n.c[0].t
        return n.t

    def known_align(self, off):
        g = 1
        for a, o in self.align.items():
            d = sub(off, o)
            k = a
            while k > g:
                if poly_mult(d) % k == 0:
                    g = k
                    break
                k //= 2
        return g

    def handout(self, h):
        h.align = self.known_align(h.off)
        for o in self.handouts:
            if o.off == h.off and o.delta is not None and o.delta != ZERO:
                return                        # a second reference to a piece handed out before
            if o.delta is None and o.off == h.off and o.kind != 'alias':
                # same start as a piece that has not been skipped yet
                if o.kind == 'cast' and h.kind == 'cast' and o.what[0] == 'l' and h.what[0] != 'l':
                    h.kind = 'alias'          # local then stored in a field
                    continue
                if o.what == h.what:
                    h.kind = 'alias'
                    continue
                h.shared = o
        self.handouts.append(h)

    def advanced(self, old, new, node):
        d = sub(new, old)
        self.advsites.append((old, d, node))
        for h in self.handouts:
            if h.delta is None and h.off == old:
                h.delta = d
                h.advnode = node

    # ---- calls ----------------------------------------------------------------------------
    def call(self, n):
        name = F.callee(n)
        args = n.c[1:]
        if name in ('align_char_to', 'make_int_multiple_of') and name not in self.P.functions:
            pass
        if name == 'make_int_multiple_of':
            a = self.ev(args[0]); p = self.ev(args[1])
            l = self.deref(p)
            v = self.load(l, 'unsigned long')
            if a[0] != 'n' or cval(a[1]) is None or v[0] != 'n':
                raise Unsup('make_int_multiple_of')
            self.store(l, ('n', add(v[1], pad(int(cval(a[1])), v[1]))), n)
            return ('n', ZERO)
        if name == 'align_char_to':
            a = self.ev(args[0]); p = self.ev(args[1])
            l = self.deref(p)
            v = self.load(l, 'char *')
            if a[0] != 'n' or cval(a[1]) is None:
                raise Unsup('align_char_to')
            if v[0] != 'raw':
                return ('n', ZERO)
            k = int(cval(a[1]))
            self.do_align(k, l, v, n)
            return self.unk('align_ret')
        vals = None
        if name is not None:
            if name in NORETURN:
                return ('n', ZERO)
            vals = [self.ev(x) for x in args]
            if name in ('acados_malloc', 'acados_calloc', 'malloc', 'calloc', 'c_malloc', 'c_calloc') and all(v[0] == 'n' for v in vals):
                It.uid += 1
                b = ONE
                for v in vals:
                    b = mul(b, v[1])
                a = ('alloc', It.uid)
                self.allocs[a] = b
                return ('raw', atom(a))
            # blasfeo_create_dvec(n, &v, mem) etc. define v->memsize
            m = re.match(r'^(.*)_create(_\w+)?$', name)
            if m and self.P.lookup(name, self.path) is None and len(vals) >= 2 and vals[-1][0] == 'raw':
                mem = m.group(1) + '_memsize' + (m.group(2) or '')
                o = self.deref(vals[-2])
                a = [x for x in vals[:-2]]
                a = symargs(mem, tuple(a))
                self.env[('.', o, 'memsize')] = ('n', atom(('call', mem, a)))
                self.wrote(o, None, n)
                self.handout(Handout(vals[-1][1], o, n, 'create', fn=mem, args=a))
                return ('n', ZERO)
            d = self.P.lookup(name, self.path)
            if d is not None and self.should_inline(name, d, vals):
                return self.inline(name, d, vals, n)
            if any(v[0] == 'raw' for v in vals) and re.search(r'assign|cast|create', name):
                i = max(j for j, v in enumerate(vals) if v[0] == 'raw')
                self.handout(Handout(vals[i][1], ('call', name), n, 'child', fn=name, args=tuple(v for j, v in enumerate(vals) if j != i)))
                self.havoc_args(vals, n)
                It.uid += 1
                return ('P', ('obj', name, It.uid), ZERO)
            if d is None or self.is_size_name(name) or True:
                self.havoc_args(vals, n)
                return self.callval(name, vals, n)
        # slot call
        f = F.strip_casts(n.c[0])
        vals = [self.ev(x) for x in args]
        try:
            fl = self.lv(f)
        except Unsup:
            fl = ('opaque',)
        if any(v[0] == 'raw' for v in vals):
            i = max(j for j, v in enumerate(vals) if v[0] == 'raw')
            self.handout(Handout(vals[i][1], fl, n, 'child', fn=fl, args=tuple(v for j, v in enumerate(vals) if j != i)))
            self.havoc_args(vals, n)
            It.uid += 1
            return ('P', ('obj', fl, It.uid), ZERO)
        self.havoc_args(vals, n)
        return self.callval(fl, vals, n)

    def is_size_name(self, n):
        return bool(re.search(r'calculate_size|memsize|_size$|_size_', n))

    def callval(self, fn, vals, n):
        t = n.t or ''
        # out-parameters: &local of integers receive fresh named values  f(..., "field", &x)
        if t == 'void':
            outs = [v for v in vals if v[0] == 'A']
            for j, o in enumerate(outs):
                if o[1][0] in ('l', '.', '[]'):
                    ins = tuple(v for v in vals if v is not o)
                    self.env[o[1]] = ('n', atom(('ld', ('get', fn, tuple(('&',) if x[0] == 'A' else x for x in ins), j))))
            return ('n', ZERO)
        a = tuple(('opq',) if v[0] in ('A',) and v[1][0] == 'l' else v for v in vals)
        if t.endswith('*'):
            return ('P', ('ret', fn, a), ZERO)
        return ('n', atom(('call', fn, symargs(fn, a))))

    def havoc_args(self, vals, n):
        """a callee may write through pointers to locals"""
        for v in vals:
            if v[0] == 'A' and v[1] in self.env and v[1][0] == 'l':
                if self.env[v[1]][0] == 'raw':
                    raise Unsup('pointer passed to unknown function')
                self.env[v[1]] = self.unk('out')

    def should_inline(self, name, d, vals):
        path, fn = d
        if len(self.stack) > 8:
            return False
        # helpers that move the write pointer or the size accumulator through a pointer
        for v in vals:
            if v[0] == 'A' and v[1] in self.env and self.env[v[1]][0] == 'raw':
                return True
            if v[0] == 'A' and v[1] in self.env and self.env[v[1]][0] == 'n' and (self.is_small(fn)):
                return True
        if self.is_size_name(name) and re.search('calculate_size', name):
            return self.expand > 0
        if any(v[0] == 'raw' for v in vals):
            rt = (fn.t or '').split('(')[0].replace(' ', '')
            return (fn.x or {}).get('storageClass') == 'static' and (rt in ('char*', 'void') or fn_ret_numeric(fn)) and not re.search(r'_assign|cast_workspace', name)
        if (fn.x or {}).get('storageClass') == 'static' or self.is_small(fn):
            return fn_ret_numeric(fn)
        return False

    def is_small(self, fn):
        if not hasattr(fn, '_sz'):
            try:
                fn._sz = sum(1 for _ in fn.walk())
            except AttributeError:
                return sum(1 for _ in fn.walk()) < 250
        return fn._sz < 250

    def inline(self, name, d, vals, n):
        path, fn = d
        issz = bool(re.search('calculate_size', name))
        saved = (self.path, self.retv, self.expand, self.returned)
        if issz:
            self.expand -= 1
        snap = (dict(self.env), dict(self.align), list(self.handouts), len(self.advsites), len(self.writes), len(self.stack), set(self.written))
        try:
            v = self.run_fn(path, name, fn, vals)
        except Unsup:
            if any(x[0] == 'raw' or (x[0] == 'A' and x[1] in self.env and self.env[x[1]][0] == 'raw') for x in vals):
                raise
            self.env, self.align, self.handouts = snap[0], snap[1], snap[2]
            self.advsites = self.advsites[:snap[3]]; self.writes = self.writes[:snap[4]]; self.stack = self.stack[:snap[5]]
            self.written = snap[6]
            self.path, self.retv, self.expand, self.returned = saved
            self.havoc_args(vals, n)
            return self.callval(name, vals, n)
        self.path, self.retv, self.expand, self.returned = saved
        return v if v is not None else ('n', ZERO)

    def run_fn(self, path, name, fn, vals):
        ids = {}
        for a in fn.walk():
            if a.k in ('ParmVarDecl', 'VarDecl') and a.id:
                ids[a.id] = a
        self.stack.append(dict(ids=ids, name=name))
        self.path = path
        dep = len(self.stack)
        for p, v in zip(F.params(fn), vals):
            if v is not None:
                self.env[('l', dep, p.id)] = v
        self.retv = None
        self.returned = False
        try:
            b = F.body(fn)
            if b is None:
                raise Unsup('no body')
            self.block(b.c, True)
        finally:
            self.stack.pop()
        return self.retv

    def do_align(self, k, l, v, n):
        off = v[1]
        best = None
        for a, o in self.align.items():
            if a % k == 0:
                r = pad(k, sub(off, o))
                best = r if best is None else min(best, r, key=lambda p: (len(p), repr(p)))
        if best is None:
            # base alignment below k: at most k - g bytes, g the alignment known for the current position
            g = 1
            for a, o in self.align.items():
                g = max(g, min(a, poly_mult(sub(off, o))))
            It.uid += 1
            if k - g > 0:
                best = atom(('apad', k, k - g, It.uid, off))
            else:
                best = ZERO
        no = add(off, best)
        self.env[l] = ('raw', no)
        self.align[k] = no
        if best != ZERO:
            for h in self.handouts:
                if h.delta is None and h.off == off:
                    h.padded = True
        # positions shift: handouts pending at the unaligned offset stay pending there

    # ---- statements -----------------------------------------------------------------------
    def block(self, stmts, top=False):
        for i, s in enumerate(stmts):
            if self.returned:
                return
            if s.k == 'IfStmt' and i + 1 < len(stmts) and any(c.k == 'ReturnStmt' for c in s.walk()):
                return self.if_(s, stmts[i + 1:], top)
            self.stmt(s)

    def stmt(self, n):
        k = n.k
        if k == 'CompoundStmt':
            self.block(n.c)
        elif k == 'DeclStmt':
            for d in n.c:
                if d.k == 'VarDecl':
                    loc = ('l', len(self.stack), d.id)
                    init = [c for c in d.c if not c.k.endswith('Type')]
                    if (d.x or {}).get('init') and init:
                        v = self.ev(init[-1])
                        self.store(loc, v, d)
                    else:
                        self.env.pop(loc, None)
        elif k == 'NullStmt' or k == 'Null':
            pass
        elif k == 'ReturnStmt':
            self.retv = self.ev(n.c[0]) if n.c else None
            self.returned = True
        elif k == 'IfStmt':
            self.if_(n)
        elif k == 'ForStmt':
            self.for_(n)
        elif k in ('WhileStmt', 'DoStmt', 'SwitchStmt', 'GotoStmt', 'LabelStmt', 'BreakStmt', 'ContinueStmt', 'CaseStmt'):
            raise Unsup(k)
        else:
            self.ev(n)

    def noreturn(self, b):
        """does this statement always end the process"""
        if b.k == 'CompoundStmt':
            return any(self.noreturn(c) for c in b.c)
        if b.k == 'CallExpr':
            return F.callee(b) in NORETURN
        if b.k == 'IfStmt' and len(b.c) == 3:
            return self.noreturn(b.c[1]) and self.noreturn(b.c[2])
        return False

    def snapshot(self):
        return (dict(self.env), dict(self.align), list(self.handouts), [h.delta for h in self.handouts])

    def if_(self, n, rest=(), top=False):
        c = self.cond(n.c[0])
        then, els = n.c[1], n.c[2] if len(n.c) > 2 else None
        if c is True:
            return self.block([then] + list(rest), top)
        if c is False:
            return self.block(([els] if els is not None else []) + list(rest), top)
        if self.noreturn(then):
            return self.block(([els] if els is not None else []) + list(rest), top)
        if els is not None and self.noreturn(els):
            return self.block([then] + list(rest), top)
        e0, a0 = dict(self.env), dict(self.align)
        self.block([then] + list(rest), top)
        r1, v1 = self.returned, self.retv
        e1, a1 = self.env, self.align
        self.env, self.align = dict(e0), dict(a0)
        self.returned = False
        self.block(([els] if els is not None else []) + list(rest), top)
        r2, v2 = self.returned, self.retv
        ret = None
        if r1 or r2:
            if r1 and r2:
                ret = self.select(c, v1, v2) if v1 is not None and v2 is not None else None
            elif not top:
                raise Unsup('early return')
            # at the top level of a function the branch that falls off the end returns too
            self.returned = True
        else:
            ret = self.retv
        e2, a2 = self.env, self.align
        out = {}
        for k in set(e1) | set(e2):
            x, y = e1.get(k), e2.get(k)
            if x == y:
                out[k] = x
            elif x is None or y is None:
                b = e0.get(k)
                if k[0] == 'l':
                    # declared in one branch only, or assigned in one branch only without a prior value
                    out[k] = self.unk('branch') if (x or y)[0] == 'n' else (x or y)
                else:
                    t = (x or y)
                    d = ('n', atom(('ld', k))) if t[0] == 'n' else None
                    if d is not None:
                        out[k] = self.select(c, x or d, y or d)
            else:
                out[k] = self.select(c, x, y)
        self.env = out
        self.align = {}
        for k in set(a1) & set(a2):
            if a1[k] == a2[k]:
                self.align[k] = a1[k]
        # alignment known for the current position in both branches
        cur = [(k, v) for k, v in out.items() if v is not None and v[0] == 'raw' and k[0] == 'l']
        for kk, v in cur:
            v1, v2 = e1.get(kk), e2.get(kk)
            if v1 is None or v2 is None or v1[0] != 'raw' or v2[0] != 'raw':
                continue
            for a in (8, 16, 32, 64):
                def known(al, o):
                    return any(b % a == 0 and (poly_mult(sub(o, ob)) % a == 0) for b, ob in al.items())
                if not known(self.align, v[1]) and known(a1, v1[1]) and known(a2, v2[1]):
                    self.align[a] = v[1]
        if r1 or r2:
            self.retv = ret

    def for_(self, n):
        init, _, cond, inc, body = (list(n.c) + [None] * 5)[:5]
        if init is not None and init.k != 'Null':
            self.stmt(init)
        # induction variable from the increment
        iv = None
        i2 = inc
        step = 1
        if i2 is not None and i2.k == 'UnaryOperator' and i2.op in ('++', '--'):
            iv = self.lv(i2.c[0]); step = 1 if i2.op == '++' else -1
        elif i2 is not None and i2.k == 'CompoundAssignOperator' and i2.op in ('+=', '-='):
            iv = self.lv(i2.c[0])
            s = self.ev(i2.c[1])
            s = cval(s[1]) if s[0] == 'n' else None
            if s is None:
                raise Unsup('loop step')
            step = s if i2.op == '+=' else -s
        else:
            raise Unsup('loop form')
        if step not in (1, -1):
            raise Unsup('loop step')
        v0 = self.env.get(iv)
        if v0 is None or v0[0] != 'n':
            raise Unsup('loop start')
        lo = v0[1]
        c = F.strip_casts(cond)
        if c.k != 'BinaryOperator' or c.op not in ('<', '<=', '>', '>=', '!='):
            raise Unsup('loop condition')
        if self.lv_or_none(c.c[0]) == iv:
            op, rhs = c.op, self.ev(c.c[1])
        elif self.lv_or_none(c.c[1]) == iv:
            op, rhs = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[c.op], self.ev(c.c[0])
        else:
            raise Unsup('loop condition')
        if rhs[0] != 'n':
            raise Unsup('loop bound')
        if step == 1 and op in ('<', '!='):
            hi = rhs[1]
        elif step == 1 and op == '<=':
            hi = add(rhs[1], ONE)
        elif step == -1 and op in ('>=',):
            lo, hi = rhs[1], add(lo, ONE)
        elif step == -1 and op == '>':
            lo, hi = add(rhs[1], ONE), add(lo, ONE)
        else:
            raise Unsup('loop direction')
        cnt = sub(hi, lo)
        cc = cval(cnt)
        if cc is not None and cc <= 0:
            return
        It.uid += 1
        level = 1000 + It.uid
        self.bounds[level] = cnt
        bv = atom(('bv', level))
        ival = add(lo, bv)
        # iteration 0 .. n-1 ; which variables change?
        e0 = dict(self.env)
        a0 = dict(self.align)
        # assume nothing but the write pointer's alignment modulo what the body keeps; start body with unknown accumulators
        w = self.written
        self.written = set()
        self.env[iv] = ('n', ival)
        nh = len(self.handouts)
        nadv = len(self.advsites); nwr = len(self.writes)
        # first pass: find modified locations
        keep_h = list(self.handouts); keep_d = [h.delta for h in self.handouts]
        self.stmt(body)
        if self.returned:
            raise Unsup('return in loop')
        mod = set(self.written) - {iv}
        self.handouts = keep_h
        for h, d in zip(self.handouts, keep_d):
            h.delta = d
        self.advsites = self.advsites[:nadv]; self.writes = self.writes[:nwr]
        # second pass with symbolic start values
        self.env = dict(e0)
        self.align = dict(a0)
        self.env[iv] = ('n', ival)
        start = {}
        for l in mod:
            v = e0.get(l)
            if v is None:
                continue
            if v[0] == 'n':
                It.uid += 1
                start[l] = ('acc', It.uid)
                self.env[l] = ('n', atom(start[l]))
            elif v[0] == 'raw':
                It.uid += 1
                start[l] = ('acc', It.uid)
                self.acc0[start[l]] = (v[1], level)
                self.env[l] = ('raw', atom(start[l]))
                # relative alignment: keep only facts that hold at every iteration start (checked below)
        ral = None
        raws = [l for l in start if e0[l][0] == 'raw']
        if raws:
            l = raws[0]
            cand = []
            for a in (64, 32, 16, 8):
                if any(b % a == 0 and poly_mult(sub(e0[l][1], ob)) % a == 0 for b, ob in a0.items()):
                    cand.append(a)
            ok = {}
            for a in cand:
                self_ok = self.body_keeps(a, iv, ival, e0, mod, start, raws, body, l)
                if self_ok:
                    ok[a] = atom(start[l])
                    break
            self.env = dict(e0); self.env[iv] = ('n', ival)
            for m in start:
                self.env[m] = (e0[m][0], atom(start[m]))
            self.align = dict(ok)
            if 8 not in self.align and not any(a >= 8 for a in self.align):
                pass
            self.handouts = keep_h[:]
            for h, d in zip(self.handouts, keep_d):
                h.delta = d
            self.advsites = self.advsites[:nadv]; self.writes = self.writes[:nwr]
        self.written = set()
        self.stmt(body)
        mod2 = set(self.written) - {iv}
        e1 = self.env
        env = dict(e0)
        accs = {a: l for l, a in start.items()}
        post = {}
        for l in mod2:
            v = e1.get(l)
            if v is None:
                env.pop(l, None)
                continue
            if l in start:
                d = sub(v[1], atom(start[l])) if v[0] in ('n', 'raw') else None
                if d is None:
                    env[l] = self.unk('loop')
                    continue
                if v[0] == e0[l][0] and not any(contains(d, a) for a in start.values()):
                    s = sum_(level, cnt, d)
                    env[l] = (v[0], add(e0[l][1], s))
                    post[l] = d
                    continue
                if v[0] == 'n':
                    # max fold: new = max(acc, x)
                    p = v[1]
                    if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1 and p[0][0][0][0] == 'max':
                        m = p[0][0][0]
                        x = None
                        if m[1] == atom(start[l]):
                            x = m[2]
                        elif m[2] == atom(start[l]):
                            x = m[1]
                        if x is not None and not any(contains(x, a) for a in start.values()):
                            env[l] = ('n', self.maxrange(level, e0[l][1], cnt, x))
                            continue
                    if not any(contains(p, a) for a in start.values()) and not contains(p, ('bv', level)):
                        # plain assignment independent of the iteration (executed at least once or keeps the old value)
                        i = ind(self.cmp('>', cnt)) if not isinstance(self.cmp('>', cnt), bool) else (ONE if self.cmp('>', cnt) else ZERO)
                        env[l] = ('n', add(mul(i, p), mul(sub(ONE, i), e0[l][1])))
                        continue
                if v[0] == 'raw':
                    raise Unsup('write pointer in loop')
                env[l] = self.unk('loop')
            else:
                if l[0] == 'l' or contains(l, ('bv', level)):
                    # loop-local or per-iteration location
                    if l[0] == 'l':
                        if v[0] == 'n' and not contains(v, ('bv', level)) and not any(contains(v, a) for a in start.values()):
                            env[l] = v
                        else:
                            env.pop(l, None)
                    elif v[0] == 'n' and l[0] == '[]' and l[1] == ('rawmem',) and not any(contains(v, a) for a in start.values()) and not any(contains(l, a) for a in start.values()):
                        b0 = subst(l[2], ('bv', level), ZERO)
                        k = cval(sub(subst(l[2], ('bv', level), ONE), b0))
                        if k:
                            env[('fill', b0)] = ('fillv', level, k, v[1])
                        env.pop(l, None)
                    elif v[0] in ('n',) and not any(contains(v, a) for a in start.values()) and l[0] == '[]' and l[2] == ival:
                        env[('arr', l[1])] = ('arrv', level, lo, v[1])
                    else:
                        env.pop(l, None)
                else:
                    if any(contains(v, a) for a in start.values()) or contains(v, ('bv', level)):
                        env.pop(l, None)
                    else:
                        env[l] = v
        env[iv] = ('n', add(lo, cnt) if step == 1 else sub(lo, ONE))
        self.env = env
        # alignment after the loop
        al = {}
        for l in raws:
            if env[l][0] != 'raw':
                continue
            for a, o in self.align.items():
                pass
            for a in ok:
                al[a] = env[l][1]
        for a, o in a0.items():
            if a not in al:
                al[a] = o
            elif poly_mult(sub(al[a], o)) >= 1:
                # both are facts; keep the one nearest to the current position
                pass
        if not raws:
            al = a0
        self.align = al
        self.written = w | mod2 | {iv}

    def body_keeps(self, a, iv, ival, e0, mod, start, raws, body, l):
        self.env = dict(e0)
        self.env[iv] = ('n', ival)
        for m in start:
            self.env[m] = (e0[m][0], atom(start[m]))
        self.align = {a: atom(start[l])}
        self.written = set()
        self.stmt(body)
        v = self.env.get(l)
        if v is None or v[0] != 'raw':
            return False
        for b, o in self.align.items():
            if b % a == 0 and poly_mult(sub(v[1], o)) % a == 0:
                return True
        return False

    def maxrange(self, level, init, cnt, x):
        bv = ('bv', level)
        if not contains(x, bv):
            c = self.cmp('>', cnt)
            if c is True:
                return pmax(init, x)
            return atom(('maxr', 0, init, cnt, x)) if c is not False else init
        k = cpart(cnt)
        if k > 0 and cval(cnt) is None:
            V = sub(cnt, const(k))
            r = self.maxrange(level, init, V, x)
            for j in range(int(k)):
                r = pmax(r, subst(x, bv, add(V, const(j))))
            return r
        lv = maxlevel(x)
        x2 = mapatoms(x, lambda t: atom(('bv', lv)) if t == bv else None)
        return atom(('maxr', lv, init, cnt, x2))

    def lv_or_none(self, n):
        try:
            return self.lv(F.strip_casts(n))
        except Unsup:
            return None


def fn_ret_numeric(fn):
    t = fn.t or ''
    r = t.split('(')[0].strip()
    return r in ('int', 'unsigned long', 'size_t', 'acados_size_t', 'long', 'bool', 'unsigned int', '_Bool', 'void')
