"""C01: reported sizes cover what the setup step carves out of the block."""
import re, zlib
import cfront as F
import sizes as S
from poly import *

RULE = ('Every setup function that carves objects out of a caller-provided block is interpreted in a domain of polynomials over access paths '
        '(loops become symbolic sums, alignment becomes padding terms, conditionals become indicator terms), and so is its size query with the '
        'same arguments. size - carved must be non-negative coefficientwise after padding bounds and monotone size functions are applied; a '
        'negative residue with a witness is the violation. Pieces handed out must be skipped by an advance that covers them before the next one.')


def guess(P, a):
    for x, y in (('_assign', '_calculate_size'), ('_cast_workspace', '_workspace_calculate_size'), ('assign_memory', 'memory_calculate_size'),
                 ('assign_workspace', 'workspace_calculate_size'), ('cast_workspace', 'workspace_calculate_size')):
        if x in a and a.replace(x, y) in P.functions:
            return a.replace(x, y)
    return None


def unroll(p):
    return p


def bound_pads(p, sign_lower):
    """p with pad atoms replaced by lower (0) or upper bounds depending on the sign of their coefficient"""
    r = ZERO
    for m, c in p:
        q = const(c)
        for a in m:
            q = mul(q, pad_bound_atom(a, c > 0))
        r = add(r, q)
    return r


def pad_bound_atom(a, positive):
    if a[0] == 'pad':
        if positive:
            return ZERO
        return const(a[1] - min(a[1], poly_mult(a[2])))
    if a[0] == 'apad':
        return ZERO if positive else const(a[2])
    if a[0] == 'sum':
        if not any(mentions(x, ('pad', 'apad')) for x in a[3]):
            return atom(a)
        body = ONE
        for x in a[3]:
            body = mul(body, pad_bound_atom(x, positive))
        return sum_(a[1], a[2], body)
    return atom(a)


def mentions(x, kinds):
    if isinstance(x, tuple):
        if x and x[0] in kinds:
            return True
        return any(mentions(y, kinds) for y in x)
    return False


def dom_atom(x, y):
    """x <= y for non-negative atoms"""
    if x == y:
        return True
    if x[0] == 'call' and y[0] == 'call' and x[1] == y[1] and len(x[2]) == len(y[2]) and isinstance(x[1], str) and ('memsize' in x[1]):
        for u, v in zip(x[2], y[2]):
            if u == v:
                continue
            if u[0] == 'n' and v[0] == 'n' and nonneg(sub(v[1], u[1])):
                continue
            return False
        return True
    if x[0] == 'sum' and y[0] == 'sum' and x[1] == y[1] and nonneg(sub(y[2], x[2])):
        return dom_mono(x[3], y[3])
    if x[0] == 'max':
        return False
    if y[0] == 'max':
        for p in (y[1], y[2]):
            if nonneg(sub(p, atom(x))):
                return True
    if y[0] == 'maxr' and x[0] == 'maxr' and x[1:4] == y[1:4] and nonneg(sub(y[4], x[4])):
        return True
    if x[0] == 'min':
        return any(nonneg(sub(atom(y), p)) for p in (x[1], x[2]))
    return False


def dom_mono(m, k):
    """monomial m <= monomial k"""
    m = list(m); k = list(k)
    for x in list(m):
        if x in k:
            m.remove(x); k.remove(x)
    m = [x for x in m if x[0] != 'ind']
    if len(m) != len(k):
        return False
    for x in m:
        for y in k:
            if dom_atom(x, y):
                k.remove(y)
                break
        else:
            return False
    return not k


def prove(D):
    p = bound_pads(D, True)
    pos = {m: c for m, c in p if c > 0}
    neg = {m: -c for m, c in p if c < 0}
    for m in sorted(neg, key=repr):
        for k in sorted(pos, key=repr):
            if neg[m] > 0 and pos[k] > 0 and dom_mono(m, k):
                t = min(neg[m], pos[k])
                neg[m] -= t; pos[k] -= t
    left = {m: c for m, c in neg.items() if c > 0}
    return (not left), left, {m: c for m, c in pos.items() if c > 0}


# ---- witness ------------------------------------------------------------------------------------
class Ev:
    """one valuation of the atoms; dimensions are small non-negative integers, opaque sizes are multiples of 8"""
    def __init__(self, seed, prof):
        self.seed = seed; self.prof = prof; self.bv = {}

    def h(self, x, mod):
        return zlib.crc32((repr(x) + str(self.seed)).encode()) % mod

    def poly(self, p):
        return sum(c * self.mono(m) for m, c in p)

    def mono(self, m):
        r = 1
        for a in m:
            r *= self.at(a)
            if r == 0:
                return 0
        return r

    def loc(self, x):
        if not isinstance(x, tuple) or x == ():
            return x
        if is_poly(x):
            return ('#', self.poly(x))
        return tuple(self.loc(y) for y in x)

    def at(self, a):
        k = a[0]
        if k == 'bv':
            return self.bv[a[1]]
        if k == 'ld':
            n = self.loc(a[1])
            if self.prof == 'ones':
                return 1
            return self.h(n, self.prof)
        if k == 'call':
            args = self.loc(a[2])
            n = a[1]
            if n == 'blasfeo_memsize_dvec':
                return (8 * args[0][1][1] + 63) // 64 * 64 + 64
            if n == 'blasfeo_memsize_ivec':
                return (4 * args[0][1][1] + 63) // 64 * 64 + 64
            if n == 'blasfeo_memsize_dmat':
                r, c = args[0][1][1], args[1][1][1]
                return ((r + 3) // 4 * 4 * ((c + 3) // 4 * 4) * 8 + 63) // 64 * 64 + 64
            return 8 * (1 + self.h((self.loc(n) if isinstance(n, tuple) else n, args), 400))
        if k == 'sum':
            n = self.poly(a[2])
            t = 0
            old = self.bv.get(a[1])
            for i in range(int(n)):
                self.bv[a[1]] = i
                t += self.mono(a[3])
            self.bv[a[1]] = old
            return t
        if k == 'maxr':
            r = self.poly(a[2])
            old = self.bv.get(a[1])
            for i in range(int(self.poly(a[3]))):
                self.bv[a[1]] = i
                r = max(r, self.poly(a[4]))
            self.bv[a[1]] = old
            return r
        if k == 'max':
            return max(self.poly(a[1]), self.poly(a[2]))
        if k == 'min':
            return min(self.poly(a[1]), self.poly(a[2]))
        if k == 'div':
            d = self.poly(a[2])
            return int(self.poly(a[1])) // int(d) if d else 0
        if k == 'mod':
            d = self.poly(a[2])
            return int(self.poly(a[1])) % int(d) if d else 0
        if k == 'pad':
            return (-int(self.poly(a[2]))) % a[1]
        if k == 'apad':
            # worst admissible base address: base is a multiple of 8
            return a[2]
        if k == 'ind':
            return 1 if self.cond(a[1]) else 0
        raise S.Unsup('eval ' + k)

    def cond(self, c):
        if c[0] == 'cmp':
            v = self.poly(c[2])
            return v > 0 if c[1] == '>' else v == 0
        if c[0] == 'not':
            return not self.cond(c[1])
        if c[0] == 'and':
            return self.cond(c[1]) and self.cond(c[2])
        if c[0] == 'or':
            return self.cond(c[1]) or self.cond(c[2])
        return self.h(self.loc(c), 2) == 1


class EvA(Ev):
    """exact positions for a concrete base address"""
    base = 0

    def at(self, a):
        if a[0] == 'apad':
            return (-(self.base + int(self.poly(a[4])))) % a[1]
        return Ev.at(self, a)


def misaligned(off, need, it):
    """a valuation (first loop iterations) where the position is not a multiple of need"""
    for _ in range(8):
        o2 = off
        for a, (v, lv) in it.acc0.items():
            if contains(o2, a):
                o2 = subst(o2, a, v)
        for lv in it.bounds:
            if contains(o2, ('bv', lv)) and not inside_sum(o2, lv):
                o2 = subst(o2, ('bv', lv), ZERO)
        if o2 == off:
            break
        off = o2
    if mentions(off, ('unk', 'acc')):
        return False
    for seed in range(24):
        for prof in (2, 3, 6):
            for base in ((0, 8, 24, 56) if need > 8 else (0, 8)):
                e = EvA(seed, prof)
                e.base = base
                try:
                    if (base + int(e.poly(off))) % need:
                        return True
                except (S.Unsup, KeyError, TypeError):
                    return False
    return False


def inside_sum(x, lv):
    if isinstance(x, tuple):
        if len(x) >= 2 and x[0] in ('sum', 'maxr') and x[1] == lv:
            return True
        return any(inside_sum(y, lv) for y in x if isinstance(y, tuple))
    return False


def opaque_calls(p, sign):
    r = set()
    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == 'call' and not (isinstance(x[1], str) and x[1].startswith('blasfeo_memsize')):
                r.add(repr(x[1]))
            for y in x:
                walk(y)
    for m, c in p:
        if (c > 0) == sign:
            walk(m)
    return r


def refute(D):
    """a valuation with D < 0, or None.  Opaque sizes on the positive side could stand for anything: then no verdict."""
    if mentions(D, ('unk', 'acc')):
        return None
    ok, left, pos = prove(D)
    core = mk(dict(list({m: -c for m, c in left.items()}.items()) + list(pos.items())))
    if opaque_calls(core, True) and opaque_calls(core, False):
        return None
    for seed in range(60):
        for prof in ('ones', 2, 3, 6, 30):
            e = Ev(seed, prof)
            v = e.poly(D)
            if v < 0:
                return (seed, prof, v)
    return None


def norm_param(n):
    return (n or '').rstrip('_')


def interpret_assign(P, path, name, fn, seedenv=None):
    it = S.It(P, expand=0)
    ps = F.params(fn)
    vals = []
    for i, p in enumerate(ps):
        if i == len(ps) - 1:
            vals.append(('raw', ZERO))
        elif (p.t or '').strip().endswith('*'):
            vals.append(('P', ('a', norm_param(p.n)), ZERO))
        else:
            vals.append(('n', atom(('ld', ('a', norm_param(p.n))))))
    if seedenv:
        it.env.update(seedenv)
    it.stack.append(dict(ids={p.id: p for p in ps}, name='<entry>'))
    it.run_fn(path, name, fn, vals)
    names = {}
    for a in fn.walk():
        if a.k in ('VarDecl', 'ParmVarDecl'):
            names[a.id] = a
    best = []
    for loc, v in it.env.items():
        if isinstance(loc, tuple) and loc and loc[0] == 'l' and loc[1] == 2 and v is not None and v[0] == 'raw':
            d = names.get(loc[2])
            if d is not None and (d.t or '').replace(' ', '') == 'char*':
                best.append((d.n, v[1]))
    byname = dict((norm_param(p.n), v) for p, v in zip(ps, vals))
    return it, best, byname, vals


def run_size(P, path, sname, args, expand=0):
    d = P.lookup(sname, path)
    it = S.It(P, expand=expand)
    it.stack.append(dict(ids={}, name='<entry>'))
    v = it.run_fn(d[0], sname, d[1], args)
    if v is None or v[0] != 'n':
        raise S.Unsup('size value')
    env = {k: x for k, x in it.env.items() if isinstance(k, tuple) and k and k[0] in ('.', '[]') and not has_local(k) and x is not None and x[0] == 'n'}
    return v[1], env


def has_local(k):
    if isinstance(k, tuple):
        if k and k[0] in ('l', 'g'):
            return True
        return any(has_local(x) for x in k)
    return False


def size_args(P, sd, byname, vals):
    a = []
    for i, p in enumerate(F.params(sd[1])):
        v = byname.get(norm_param(p.n))
        if v is None and i < len(vals) - 1:
            v = vals[i]
        if v is None:
            v = ('P', ('a', norm_param(p.n)), ZERO) if (p.t or '').strip().endswith('*') else ('n', atom(('ld', ('a', norm_param(p.n)))))
        a.append(v)
    return a


def pairs(P):
    out = []
    for name, defs in sorted(P.functions.items()):
        if not re.search(r'_assign|cast_workspace', name):
            continue
        if 'assign_and_advance' in name:
            continue
        s = guess(P, name)
        if s is None:
            continue
        for path, fn in defs:
            if path.startswith('acados/') or path.startswith('interfaces/'):
                ps = F.params(fn)
                if ps and (ps[-1].t or '').replace(' ', '') in ('void*', 'char*'):
                    out.append((path, name, fn, s))
    return out


class Decider:
    def __init__(self, P):
        self.P = P
        self.memsz = {}

    def child_memsize(self, name):
        """the size function whose value the setup function stores in ->memsize of the object it returns"""
        if name not in self.memsz:
            r = None
            s = guess(self.P, name)
            d = self.P.lookup(name)
            if s and d:
                for n in d[1].walk():
                    if n.k == 'BinaryOperator' and n.op == '=' and F.strip_casts(n.c[0]).k == 'MemberExpr' and F.strip_casts(n.c[0]).n == 'memsize':
                        c = F.strip_casts(n.c[1])
                        if c.k == 'CallExpr' and F.callee(c) == s:
                            r = s
            self.memsz[name] = r
        return self.memsz[name]

    def resolve(self, D, it):
        """->memsize of objects set up by a known function; slot calls with and without arguments"""
        def f(a):
            if a[0] == 'ld' and a[1][0] == '.' and a[1][2] == 'memsize' and a[1][1][0] == '[]':
                o = a[1][1][1]
                if o[0] == 'obj' and isinstance(o[1], str):
                    s = self.child_memsize(o[1])
                    if s:
                        for h in it.handouts:
                            if h.kind == 'child' and h.fn == o[1]:
                                return atom(('call', s, h.args))
            return None
        D = mapatoms(D, f)
        bare = set()
        def g(a):
            if a[0] == 'call' and isinstance(a[1], tuple) and len(a[2]) == 0:
                bare.add(a[1])
            return None
        mapatoms(D, g)
        if bare:
            D = mapatoms(D, lambda a: atom(('call', a[1], ())) if a[0] == 'call' and a[1] in bare else None)
        return D

    def axioms(self, D):
        """documented splittings: GNSF has nx = nx1 + nx2, nz = nz1 + nz2"""
        hits = {}
        def f(a):
            if a[0] == 'ld' and a[1][0] == '.' and a[1][2] in ('nx1', 'nz1'):
                hits[(a[1][1], a[1][2])] = a
            return None
        mapatoms(D, f)
        if not hits:
            return D
        def g(a):
            if a[0] == 'ld' and a[1][0] == '.' and (a[1][1], a[1][2] + '1') in hits:
                return add(atom(hits[(a[1][1], a[1][2] + '1')]), atom(('ld', ('.', a[1][1], a[1][2] + '2'))))
            return None
        return mapatoms(D, g)

    def expand(self, D, depth=4):
        def f(a):
            if a[0] == 'call' and isinstance(a[1], str) and a[1] in self.P.functions and re.search('calculate_size', a[1]):
                try:
                    return run_size(self.P, None, a[1], list(a[2]), 0)[0]
                except S.Unsup:
                    return None
            return None
        for _ in range(depth):
            D2 = mapatoms(D, f)
            if D2 == D:
                break
            D = D2
        return D

    def split(self, D, depth=7):
        """case distinction on the conditions of indicator terms: list of (assumptions, D)"""
        conds = []
        def f(a):
            if a[0] == 'ind' and a[1] not in conds:
                conds.append(a[1])
            return None
        mapatoms(D, f)
        if not conds or depth == 0:
            return [((), D)]
        c = sorted(conds, key=repr)[0]
        out = []
        for val in (True, False):
            def g(a, val=val):
                if a[0] == 'ind' and a[1] == c:
                    return ONE if val else ZERO
                if val and c[0] == 'cmp' and c[1] == '=' and a[0] == 'ld' and c[2] == atom(a):
                    return ZERO
                return None
            D2 = mapatoms(D, g)
            if val and c[0] == 'cmp' and c[1] == '=' and len(c[2]) == 2 and cval(c[2]) is None:
                # x - k == 0
                lin = [m for m, k in c[2] if m != ()]
                if len(lin) == 1 and len(lin[0]) == 1 and lin[0][0][0] == 'ld' and cpart(c[2]) != 0:
                    k = dict(c[2])[lin[0]]
                    D2 = subst(D2, lin[0][0], const(-cpart(c[2]) // k))
            for asm, d in self.split(D2, depth - 1):
                out.append((((c, val),) + asm, d))
        return out

    def pick(self, D, depth=3):
        """D with every max of positive weight replaced by one of its arguments (each choice is a lower bound)"""
        ms = sorted({a for m, c in D if c > 0 for a in m if a[0] == 'max'}, key=repr)
        if not ms or depth == 0:
            return [D]
        return [x for ch in (1, 2) for x in self.pick(subst(D, ms[0], ms[0][ch]), depth - 1)]

    def decide(self, D, it):
        """('ok',)  |  ('bad', uncovered)  |  ('open', uncovered)"""
        D = self.axioms(self.resolve(D, it))
        first = None
        for stage in (0, 1):
            if stage:
                D = self.expand(D)
            res = 'ok'
            for asm, d in self.split(D):
                d = settle(d)
                ok, left, pos = prove(d)
                if not ok and any(prove(x)[0] for x in self.pick(d)):
                    ok = True
                if not ok:
                    res = 'open'
                    first = (d, left)
                    break
            if res == 'ok':
                return ('ok', D)
        d, left = first
        if refute(d) is not None:
            return ('bad', mk(left))
        return ('open', mk(left))


def settle(D):
    """re-evaluate conditions that became constant"""
    def f(a):
        if a[0] == 'ind':
            c = ccond(a[1])
            return ind(c) if c is not None and isinstance(c, bool) else None
        return None
    return mapatoms(D, f)


def ccond(c):
    if isinstance(c, bool):
        return c
    if c[0] == 'cmp':
        v = cval(c[2])
        if v is not None:
            return v > 0 if c[1] == '>' else v == 0
        return None
    if c[0] == 'not':
        v = ccond(c[1])
        return None if v is None else not v
    return None


def mapped(fn):
    """size function / slot that belongs to a setup function / slot"""
    for x, y in (('_assign', '_calculate_size'), ('_cast_workspace', '_workspace_calculate_size'), ('assign', 'calculate_size'),
                 ('cast_workspace', 'workspace_calculate_size')):
        if x in fn:
            return fn.replace(x, y)
    return None


def final_bv(p, bounds):
    """value at the last iteration of every enclosing loop"""
    for lv in sorted(bounds, reverse=True):
        if contains(p, ('bv', lv)):
            p = subst(p, ('bv', lv), sub(bounds[lv], ONE))
    return p


def first_bv(p, bounds):
    for lv in bounds:
        if contains(p, ('bv', lv)):
            p = subst(p, ('bv', lv), ZERO)
    return p


def run(ctx):
    for omp in ((True, False) if ctx.tier == 'thorough' else (True,)):
        P = F.load(omp=omp)
        dec = Decider(P)
        for path, name, fn, s in pairs(P):
            ctx.count('setup functions')
            where = '%s:%s' % (path, fn.l)
            try:
                it, best, byname, vals = interpret_assign(P, path, name, fn)
                sd = P.lookup(s, path)
                args = size_args(P, sd, byname, vals)
                size, env = run_size(P, path, s, args)
                if env:
                    it, best, byname, vals = interpret_assign(P, path, name, fn, env)
            except S.Unsup as e:
                ctx.skip('%s: %s' % (name, e))
                continue
            one(ctx, P, dec, path, name, fn, s, where, it, best, size)
        created(ctx, P, dec)
    ctx.floor('total obligations proved', 100)


def one(ctx, P, dec, path, name, fn, s, where, it, best, size):
    # ---- the whole block -------------------------------------------------------------------
    for vn, off in best:
        if off == ZERO:
            continue
        r = dec.decide(sub(size, off), it)
        if r[0] == 'ok':
            ctx.count('total obligations proved')
            ctx.sample('%s: size - carved = %s' % (name, text(r[1])[:160]))
        elif r[0] == 'bad':
            ctx.violation('%s:total' % name, where, '%s hands out more than %s reports; uncovered: %s' % (name, s, text(r[1])[:300]))
        else:
            ctx.skip('%s: total not decided: %s' % (name, text(r[1])[:160]))
    # ---- every piece -----------------------------------------------------------------------
    last = {}
    for h in it.handouts:
        if h.kind == 'alias':
            continue
        hw = '%s:%s' % (path, h.node.l)
        what = text(atom(('ld', h.what)))[:80] if h.what[0] not in ('l', 'call') else (h.what[1] if h.what[0] == 'call' else 'a local pointer')
        if h.shared is not None and not (h.shared.kind == 'raw' and h.off == ZERO):
            ctx.violation('%s:shared:%s' % (name, what), hw, '%s: %s starts where another piece starts that has not been skipped yet' % (name, what))
            continue
        need = None
        if h.kind == 'create':
            need = atom(('call', h.fn, h.args))
        elif h.kind == 'cast' and h.tsize is not None:
            need = const(h.tsize)
        elif h.kind == 'child':
            child_piece(ctx, P, dec, name, h, hw, it)
            continue
        if need is None:
            continue
        ctx.count('pieces')
        want = (64 if h.fn == 'blasfeo_memsize_dmat' else 8) if h.kind == 'create' else (8 if h.tsize % 8 == 0 else 4 if h.tsize % 4 == 0 else 1)
        if h.align >= want:
            ctx.count('alignments proved')
        elif misaligned(dec.resolve(h.off, it), want, it):
            ctx.violation('%s:align:%s' % (name, what), hw, '%s: %s needs a position that is a multiple of %d, which does not hold for every problem size' % (name, what, want))
        else:
            ctx.note('%s: alignment of %s not decided' % (name, what))
        if h.delta is None:
            # the last piece
            if best and h.off in [b[1] for b in best] or not best:
                r = dec.decide(sub(size, add(h.off, need)), it)
                if r[0] == 'bad':
                    ctx.violation('%s:last:%s' % (name, what), hw, '%s: %s needs %s bytes from the end of what %s reports' % (name, what, text(need)[:80], s))
                elif r[0] == 'ok':
                    ctx.count('pieces proved')
            continue
        if h.kind == 'cast':
            # pieces of n elements: the step must be made of whole elements
            bad = [(m, c) for m, c in h.delta if not any(x[0] in ('call', 'ld') and x[0] == 'call' for x in m) and c % h.tsize != 0 and not mentions(m, ('pad', 'apad'))]
            if mentions(h.delta, ('unk', 'acc')) or not bad:
                ctx.count('pieces proved')
                continue
            d = sub(h.delta, need)
            r = dec.decide(d, it)
            if r[0] == 'bad' or cval(h.delta) is None:
                ctx.violation('%s:piece:%s' % (name, what), hw, '%s: %s has elements of %d bytes but the position advances by %s' % (
                    name, what, h.tsize, text(h.delta)[:120]))
            else:
                ctx.count('pieces proved')
        else:
            r = dec.decide(sub(h.delta, need), it)
            if r[0] == 'bad':
                ctx.violation('%s:piece:%s' % (name, what), hw, '%s: %s needs %s bytes but the position advances by %s' % (
                    name, what, text(need)[:100], text(h.delta)[:100]))
            elif r[0] == 'ok':
                ctx.count('pieces proved')
    # ---- element accesses during setup stay inside their array --------------------------------
    starts = {}
    for h in it.handouts:
        if h.kind == 'cast' and h.tsize and h.delta is not None:
            starts[h.off] = h
    for off, _, node in it.writes:
        f0 = first_bv(off, it.bounds)
        h = starts.get(f0)
        if h is None:
            k = [x for x in starts if cval(sub(f0, x)) is not None and 0 <= cval(sub(f0, x)) and cval(sub(f0, x)) % starts[x].tsize == 0]
            if len(k) != 1:
                continue
            h = starts[k[0]]
        if mentions(off, ('unk', 'acc')) or mentions(h.delta, ('unk', 'acc')):
            continue
        end = add(sub(final_bv(off, it.bounds), h.off), const(h.tsize))
        ctx.count('element accesses')
        r = dec.decide(sub(h.delta, end), it)
        if r[0] == 'ok':
            ctx.count('element accesses proved')
        elif r[0] == 'bad':
            what = text(atom(('ld', h.what)))[:80]
            ctx.violation('%s:extent:%s' % (name, what), '%s:%s' % (path, node.l), '%s: the setup touches byte %s of %s, which has %s bytes' % (
                name, text(end)[:100], what, text(h.delta)[:100]))


def child_piece(ctx, P, dec, name, h, hw, it):
    fn = h.fn
    base, leaf = (None, fn) if isinstance(fn, str) else ((fn[1], fn[2]) if fn[0] == '.' else (None, None))
    if not isinstance(leaf, str):
        return
    want = mapped(leaf)
    if want is None:
        return
    ctx.count('child pieces')
    if h.delta is None:
        return
    got = []
    D = dec.resolve(h.delta, it)
    def f(a):
        if a[0] == 'call':
            n = a[1]
            l = n if isinstance(n, str) else (n[2] if n[0] == '.' else None)
            b = None if isinstance(n, str) else (n[1] if n[0] == '.' else None)
            got.append((l, b, a[2]))
        return None
    mapatoms(D, f)
    same = [g for g in got if g[0] == want and g[1] == base]
    if same:
        ctx.count('child pieces proved')
        sa = same[0][2]
        ha = tuple(h.args)
        # compare the arguments that both calls name the same way
        ps, pa = params_of(P, want), params_of(P, leaf)
        if ps is None or pa is None:
            if base is not None and len(sa) == len(ha):
                pairs_ = list(zip(sa, ha))
            else:
                return
        else:
            d = dict(zip(pa, ha))
            pairs_ = [(v, d[n]) for n, v in zip(ps, sa) if n in d]
        for u, v in pairs_:
            if u != v and known_val(u) and known_val(v):
                ctx.violation('%s:childargs:%s' % (name, leaf), hw, '%s: %s is set up with %s but the position advances by the size for %s' % (
                    name, leaf, text(v)[:80], text(u)[:80]))
                return
    elif h.delta == ZERO:
        ctx.violation('%s:child:%s' % (name, leaf), hw, '%s: the object set up by %s is not skipped' % (name, leaf))
    else:
        got = [g[0] for g in got]
        if leaf in P.functions or (got and base is not None):
            # another size: must be at least as large
            size = None
            if leaf in P.functions and guess(P, leaf):
                try:
                    sd = P.lookup(guess(P, leaf))
                    ps, pa = params_of(P, guess(P, leaf)), params_of(P, leaf)
                    d = dict(zip(pa, h.args))
                    a = [d.get(n) for n in ps]
                    if all(x is not None for x in a):
                        size = run_size(P, None, guess(P, leaf), a)[0]
                except S.Unsup:
                    size = None
            if size is not None:
                r = dec.decide(sub(h.delta, size), it)
                if r[0] == 'ok':
                    ctx.count('child pieces proved')
                    return
                if r[0] != 'bad' and not got:
                    return
            if got or size is not None:
                ctx.violation('%s:child:%s' % (name, leaf), hw, '%s: the object set up by %s is skipped with %s instead of %s' % (
                    name, leaf, text(h.delta)[:100], want))


def known_val(v):
    return not mentions(v, ('unk', 'acc', 'obj', 'opq', 't', 'ret', 'get', 'opaque'))


def params_of(P, n):
    d = P.lookup(n)
    return [norm_param(p.n) for p in F.params(d[1])] if d else None


ALLOC = ('acados_malloc', 'acados_calloc', 'malloc', 'calloc')


def created(ctx, P, dec):
    """the block given to a setup function was allocated with the matching size"""
    for name, defs in sorted(P.functions.items()):
        for path, fn in defs:
            if not (path.startswith('acados/') or path.startswith('interfaces/')) or name in ALLOC or 'stub' in path:
                continue
            if not any(n.k == 'CallExpr' and F.callee(n) in ALLOC for n in fn.walk()):
                continue
            ctx.count('allocating functions')
            it = S.It(P)
            ps = F.params(fn)
            vals = [('P', ('a', norm_param(p.n)), ZERO) if (p.t or '').strip().endswith('*') else ('n', atom(('ld', ('a', norm_param(p.n))))) for p in ps]
            it.stack.append(dict(ids={}, name='<entry>'))
            try:
                it.run_fn(path, name, fn, vals)
            except S.Unsup as e:
                ctx.skip('%s: %s' % (name, e))
                continue
            for h in it.handouts:
                al = [a for m, c in h.off for a in m if a in it.allocs]
                if not al or h.kind not in ('child', 'cast'):
                    if h.kind == 'child' and h.delta is not None:
                        child_piece(ctx, P, dec, name, h, '%s:%s' % (path, h.node.l), it)
                    continue
                room = sub(it.allocs[al[0]], sub(h.off, atom(al[0])))
                hw = '%s:%s' % (path, h.node.l)
                if h.kind == 'cast':
                    if h.tsize is None or h.delta is not None:
                        continue
                    r = dec.decide(sub(room, const(h.tsize)), it)
                    if r[0] == 'bad' and cval(room) is not None:
                        ctx.violation('%s:alloc:%s' % (name, h.node.l and h.tsize), hw, '%s: an object of %d bytes is placed in a block of %s bytes' % (name, h.tsize, text(room)))
                    continue
                if h.delta is None:
                    h.delta = room
                    child_piece(ctx, P, dec, name, h, hw, it)
            for loc, v in it.env.items():
                if isinstance(loc, tuple) and loc and loc[0] == 'l' and v is not None and v[0] == 'raw':
                    al = [a for m, c in v[1] for a in m if a in it.allocs]
                    if al and v[1] != atom(al[0]) and not mentions(v[1], ('unk', 'acc')):
                        r = dec.decide(sub(it.allocs[al[0]], sub(v[1], atom(al[0]))), it)
                        ctx.count('blocks')
                        if r[0] == 'bad':
                            ctx.violation('%s:block' % name, '%s:%s' % (path, fn.l), '%s sets up more than it allocated; uncovered: %s' % (name, text(r[1])[:200]))
                        elif r[0] == 'ok':
                            ctx.count('blocks proved')
