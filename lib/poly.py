"""Polynomials with integer/rational coefficients over canonical atoms (hashable nested tuples).

Poly is an immutable tuple of ((atom, ...), coeff) sorted by repr; atoms inside a monomial are sorted.
Atoms:
  ('ld', loc)                non-negative integer stored at an access path
  ('call', name, args)       result of a size function that is not expanded (non-negative)
  ('sum', level, n, mono)    sum over bv(level)=0..n-1 of the monomial
  ('max', a, b) ('min', a, b) ('maxr', level, init, n, body)
  ('ind', cond)              0/1
  ('pad', a, p)              bytes from p to the next multiple of a
  ('div', a, b) ('mod', a, b)
  ('bv', level)              bound variable
  ('unk', text)              unknown value (taints the comparison)
"""
from fractions import Fraction


def key(x):
    return repr(x)


def mk(d):
    return tuple(sorted(((m, c) for m, c in d.items() if c != 0), key=lambda t: repr(t[0])))


ZERO = ()
def const(c):
    return ((((), c),) if c != 0 else ())


def atom(a):
    return ((((a,)), 1),) if False else (((a,), 1),)


ONE = const(1)


def add(a, b, k=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + k * c
    return mk(d)


def sub(a, b):
    return add(a, b, -1)


def _mm(m1, m2):
    m = list(m1)
    for x in m2:
        if x[0] == 'ind' and x in m:
            continue
        m.append(x)
    return tuple(sorted(m, key=repr))


def mul(a, b):
    d = {}
    for m1, c1 in a:
        for m2, c2 in b:
            m = _mm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mk(d)


def scale(a, k):
    return mk({m: c * k for m, c in a})


def cval(a):
    """constant value or None"""
    if not a:
        return 0
    if len(a) == 1 and a[0][0] == ():
        return a[0][1]
    return None


def cpart(a):
    for m, c in a:
        if m == ():
            return c
    return 0


def is_poly(x):
    return isinstance(x, tuple) and all(isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple) and isinstance(t[1], (int, Fraction)) for t in x)


def mapatoms(p, f):
    """poly with every atom a replaced by f(a) (a poly) where that is not None; works inside atoms too"""
    r = ZERO
    for m, c in p:
        q = const(c)
        for a in m:
            q = mul(q, mapa(a, f))
        r = add(r, q)
    return r


def mapa(a, f):
    v = f(a)
    if v is not None:
        return v
    k = a[0]
    if k in ('max', 'min', 'div', 'mod'):
        x, y = mapatoms(a[1], f), mapatoms(a[2], f)
        return {'max': pmax, 'min': pmin, 'div': pdiv, 'mod': pmod}[k](x, y)
    if k == 'pad':
        return pad(a[1], mapatoms(a[2], f))
    if k == 'sum':
        body = ONE
        for x in a[3]:
            body = mul(body, mapa(x, f))
        return sum_(a[1], mapatoms(a[2], f), body)
    if k == 'maxr':
        return atom(('maxr', a[1], mapatoms(a[2], f), mapatoms(a[3], f), mapatoms(a[4], f)))
    if k == 'ind':
        return ind(mapl(a[1], f))
    if k == 'call' and a[1] == 'blasfeo_memsize_dmat':
        return atom(('call', a[1], tuple(sorted(mapl(a[2], f), key=repr))))
    if k in ('ld', 'call'):
        return atom(mapl(a, f))
    return atom(a)


def mapl(x, f):
    """nested location / condition / argument tuple with the polys inside mapped"""
    if not isinstance(x, tuple) or x == ():
        return x
    if is_poly(x):
        return mapatoms(x, f)
    return tuple(mapl(y, f) for y in x)


def bvmax(x):
    """1 + highest bound-variable level mentioned"""
    r = 0
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'bv':
            return x[1] + 1
        for z in x:
            if isinstance(z, tuple):
                r = max(r, bvmax(z))
    return r


def contains(x, y):
    if x == y:
        return True
    if isinstance(x, tuple):
        return any(contains(z, y) for z in x if isinstance(z, tuple))
    return False


def maxlevel(x):
    r = 0
    if isinstance(x, tuple):
        if len(x) >= 2 and x[0] in ('sum', 'maxr') and isinstance(x[1], int):
            r = x[1] + 1
        for z in x:
            if isinstance(z, tuple):
                r = max(r, maxlevel(z))
    return r


def subst(p, a, q):
    """replace atom a by poly q in poly p"""
    return mapatoms(p, lambda x: q if x == a else None)


def sum_(level, n, body):
    """sum over bv(level)=0..n-1; the body is a poly that may contain ('bv', level)"""
    bv = ('bv', level)
    r = ZERO
    # peel constants off the upper bound: n = V + k, k > 0
    k = cpart(n)
    if k > 0 and cval(n) is None:
        V = sub(n, const(k))
        r = sum_(level, V, body)
        for j in range(int(k)):
            r = add(r, subst(body, bv, add(V, const(j))))
        return r
    if cval(n) is not None:
        c = cval(n)
        if c <= 0:
            return ZERO
        if c <= 64:
            for j in range(int(c)):
                r = add(r, subst(body, bv, const(j)))
            return r
    for m, c in body:
        dep = tuple(x for x in m if contains(x, bv))
        ind_ = tuple(x for x in m if not contains(x, bv))
        if not dep:
            r = add(r, mul(((m, c),), n))
            continue
        lv = maxlevel(dep)
        d2 = mapatoms(((dep, 1),), lambda x: (atom(('bv', lv)) if x == bv else None)) if lv != level else ((dep, 1),)
        # renaming can only permute atoms
        if len(d2) == 1 and d2[0][1] == 1:
            s = atom(('sum', lv, n, d2[0][0]))
        else:
            s = ZERO
            for mm, cc in d2:
                s = add(s, scale(atom(('sum', lv, n, mm)), cc))
        r = add(r, mul(((ind_, c),), s))
    return r


def nonneg(a):
    """coefficientwise non-negative (all atoms are non-negative)"""
    return all(c >= 0 for m, c in a)


def pmax(a, b):
    if a == b:
        return a
    d = sub(a, b)
    if nonneg(d):
        return a
    if nonneg(sub(b, a)):
        return b
    # flatten common offset
    xs = sorted([a, b], key=repr)
    return atom(('max', xs[0], xs[1]))


def pmin(a, b):
    if a == b:
        return a
    if nonneg(sub(a, b)):
        return b
    if nonneg(sub(b, a)):
        return a
    xs = sorted([a, b], key=repr)
    return atom(('min', xs[0], xs[1]))


def atom_mult(a):
    """a known divisor (power of two) of the atom's value"""
    if a[0] == 'call':
        n = a[1]
        if isinstance(n, str):
            if n.startswith('blasfeo_memsize'):
                return 64
            if n.startswith('d_') and n.endswith('_memsize'):
                return 8
        return MULT.get(n if isinstance(n, str) else 'slot', 8)
    if a[0] == 'sum':
        r = 1
        for x in a[3]:
            r *= atom_mult(x)
        return r
    if a[0] in ('max', 'min'):
        return min(poly_mult(a[1]), poly_mult(a[2]))
    if a[0] == 'maxr':
        return min(poly_mult(a[2]), poly_mult(a[4]))
    return 1


MULT = {}


def poly_mult(p):
    r = 1 << 20
    for m, c in p:
        v = int(c) if c == int(c) else 1
        t = 1
        while v % (2 * t) == 0 and t < (1 << 20) and v != 0:
            t *= 2
        for x in m:
            t *= atom_mult(x)
        r = min(r, t)
    return r


def modred(p, a):
    """drop the monomials that are multiples of a; reduce coefficients modulo a where the atom part is integral"""
    d = {}
    for m, c in p:
        t = 1
        for x in m:
            t *= atom_mult(x)
        if c == int(c):
            c2 = int(c) % max(1, a // min(t, a)) if t < a else 0
            if c2:
                d[m] = c2
        else:
            d[m] = c
    return mk(d)


def pad(a, p):
    if a <= 1:
        return ZERO
    q = modred(p, a)
    if not q:
        return ZERO
    if cval(q) is not None:
        return const((-cval(q)) % a)
    return atom(('pad', a, q))


def pdiv(a, b):
    ca, cb = cval(a), cval(b)
    if cb is not None and cb != 0:
        if ca is not None:
            return const(int(ca) // int(cb)) if ca >= 0 else const(-((-int(ca)) // int(cb)))
        if all(c % cb == 0 for m, c in a):
            return mk({m: (c // cb) for m, c in a})
    return atom(('div', a, b))


def pmod(a, b):
    ca, cb = cval(a), cval(b)
    if ca is not None and cb:
        return const(int(ca) % int(cb))
    return atom(('mod', a, b))


def ind(cond):
    if cond is True:
        return ONE
    if cond is False:
        return ZERO
    if cond[0] == 'not':
        return sub(ONE, ind(cond[1]))
    if cond[0] == 'and':
        return mul(ind(cond[1]), ind(cond[2]))
    if cond[0] == 'or':
        x, y = ind(cond[1]), ind(cond[2])
        return sub(add(x, y), mul(x, y))
    if cond[0] == 'cmp':
        # ('cmp', '>' or '=', poly) meaning poly > 0 / poly == 0
        c = cval(cond[2])
        if c is not None:
            return ONE if (c > 0 if cond[1] == '>' else c == 0) else ZERO
    return atom(('ind', cond))


def text(p, top=True):
    if isinstance(p, tuple) and (p == () or is_poly(p)):
        if not p:
            return '0'
        o = []
        for m, c in p:
            fs = [atext(x) for x in m]
            if c != 1 or not fs:
                fs = [str(c)] + fs
            o.append('*'.join(fs))
        return ' + '.join(o)
    return atext(p)


def ltext(l):
    if not isinstance(l, tuple) or not l:
        return str(l)
    k = l[0]
    if k == 'a':
        return l[1]
    if k == '.':
        b = l[1]
        if b[0] == '[]' and b[2] == ():
            return ltext(b[1]) + '->' + l[2]
        return ltext(b) + '.' + l[2]
    if k == '[]':
        return '%s[%s]' % (ltext(l[1]), text(l[2]))
    if k == 'P':
        return ltext(l[1]) + ('' if l[2] == () else '+' + text(l[2]))
    if k == 'n':
        return text(l[1])
    if not isinstance(k, str):
        return '(' + ','.join(ltext(x) for x in l) + ')'
    return k + '(' + ','.join(ltext(x) if isinstance(x, tuple) else str(x) for x in l[1:]) + ')'


def atext(a):
    k = a[0]
    if k == 'ld':
        return ltext(a[1])
    if k == 'call':
        return '%s(%s)' % (a[1] if isinstance(a[1], str) else ltext(a[1]), ', '.join(ltext(x) for x in a[2]))
    if k == 'sum':
        return 'sum_i%d<%s(%s)' % (a[1], text(a[2]), '*'.join(atext(x) for x in a[3]))
    if k == 'bv':
        return 'i%d' % a[1]
    if k in ('max', 'min', 'div', 'mod'):
        return '%s(%s,%s)' % (k, text(a[1]), text(a[2]))
    if k == 'pad':
        return 'pad%d(%s)' % (a[1], text(a[2]))
    if k == 'ind':
        return '[%s]' % (ctext(a[1]),)
    if k == 'maxr':
        return 'max_i%d<%s(%s; %s)' % (a[1], text(a[3]), text(a[2]), text(a[4]))
    return repr(a)


def ctext(c):
    if c[0] == 'cmp':
        return '%s %s 0' % (text(c[2]), '>' if c[1] == '>' else '==')
    return ltext(c)
