"""C14: getters read back what setters stored."""
import itertools, random, re
import cfront as F, cgraph, dispatch, moves
import absint as A

RULE = ('Every pair of a name-dispatched setter and getter of the same object is interpreted abstractly for every numerical field name both accept; each side '
        'is summarised as element moves value[i] <-> storage[j] + offset with symbolic indices, extents and loop ranges. The two summaries are compared as '
        'maps (identity test of the index polynomials on several assignments of the dimension symbols): every element the getter writes to the caller must '
        'come from the storage element the setter last wrote from the same caller element, with opposite offset, and both must cover the same caller elements.')


class Cli(moves.Cli):
    def inline(self, path, name, e):
        return moves.Cli.inline(self, path, name, e)


def norm_root(s, ren):
    m = re.match(r'^(\(?)(\w+)', s)
    if m and m.group(2) in ren:
        return s[:m.start(2)] + ren[m.group(2)] + s[m.end(2):]
    return s


def names_of(fn):
    return [p.n or 'arg%d' % i for i, p in enumerate(F.params(fn))]


def run_one(P, G, D, path, name, lit, allowed=None, more=None, cls=Cli):
    fn = dict(P.functions[name])[path]
    i = D[(path, name)]
    ps = names_of(fn)
    bind = {ps[i]: ('s', lit, 0)}
    bind.update(more or {})
    return moves.run(P, G, path, name, bind, allowed=allowed, cls=cls), ps


def value_param(fn, idx):
    """the untyped or numerical pointer that carries the caller's values"""
    ps = F.params(fn)
    for p in list(ps[idx + 1:]) + list(ps[:idx]):
        t = p.t.replace('const ', '').replace(' ', '')
        if t in ('void*', 'double*', 'int*'):
            return p.n
    return None


def canon_sub(t):
    return re.sub(r'\b(\w+?)_\b', r'\1', t.replace('solver->dims', 'dims'))


def ev(p, e, seed):
    r = 0
    for mo, c in p.items():
        x = c
        for a in mo:
            x *= atom(a, e, seed)
        r += x
    return r


INNER = re.compile(r'\[([-+*()\d ]*[-+*()][-+*()\d ]*)\]')


def inst(t, e):
    """text with loop variables replaced by their values and numeric indices evaluated"""
    t = re.sub(r'@\d+', lambda m: str(e.get(m.group(0), m.group(0))), t)
    for _ in range(4):
        t2 = INNER.sub(lambda m: '[%d]' % eval(m.group(1)), t)
        if t2 == t:
            break
        t = t2
    return moves.canon_path(t)


def atom(a, e, seed):
    if a in e:
        return e[a]
    if a.startswith('$S{') and a.endswith('}'):
        k, inc = a[3:-1].split('|', 1)
        n = e.get(k, 0)
        if '<' in k:
            k, cnt = k.split('<', 1)
            n = ev(moves.parse(cnt), e, seed)
        inc = moves.parse(inc)
        return sum(ev(inc, dict(e, **{k: j}), seed) for j in range(n))
    if a.startswith('$P{') and a.endswith('}'):
        return ev(moves.parse(a[3:-1]), e, seed)
    if a.startswith('(') and a.endswith(')') and '@' in a:
        d = 0
        for i, ch in enumerate(a[1:-1], 1):
            d += (ch in '([') - (ch in ')]')
            if d == 0 and ch in '%/':
                l, r = ev(moves.parse(a[1:i]), e, seed), ev(moves.parse(a[i + 1:-1]), e, seed)
                return 0 if r == 0 else l % r if ch == '%' else l // r
    return value_of(canon_sub(inst(a, e)), seed)


def entries(m, seed):
    """(dst elem, src elem, off) of a move under an assignment"""
    out = []

    def el(x, e):
        b, i = x
        b = canon_sub(inst(b, e))
        if b.endswith('[0]'):
            b = b[:-3]                   # the first element of an array and the array itself have the same address
        return (b, tuple(ev(p, e, seed) for p in i)) if x else None

    def rec(i, e):
        if i == len(m.nest):
            out.append((el(m.dst, e), el(m.src, e) if m.src else None, ev(m.off, e, seed) if m.off is not None else None))
            return
        k, h = m.nest[i]
        for v in range(max(0, ev(h, e, seed))):
            rec(i + 1, dict(e, **{k: v}))
    rec(0, {})
    return out


CONSTR, SOFT, LABEL = False, 'nsh', ''
MODDIM = re.compile(r'^dims->(cost|constraints|dynamics)\[(.+?)\]->(?:sim->)?(\w+)$')
OCPDIM = re.compile(r'^dims->(\w+)\[(.+)\]$')


def value_of(a, seed):
    """sample value of a dimension symbol; derived dimensions keep their definition"""
    if re.match(r'^-?\d+$', a):
        return int(a)
    v = lambda x: value_of(x, seed)
    m = MODDIM.match(a)
    if m:
        mod, st, f = m.groups()
        nxt = str(int(st) + 1) if st.isdigit() else '(%s+1)' % st
        if f in ('nx', 'nu', 'nz', 'np', 'np_global') or (f == 'ns' and mod == 'cost'):
            return v('dims->%s[%s]' % (f, st)) if f != 'np_global' else v('dims->np_global')
        if f in ('nx1', 'nu1'):
            return v('dims->%s[%s]' % (f[:-1], nxt))
    m = re.match(r'^(.*->)(nb|ns)$', a)
    if m and (CONSTR and '->cost[' not in a):
        # derived dimensions, recomputed by every dimension setter
        return sum(v(m.group(1) + x) for x in (('nbu', 'nbx') if m.group(2) == 'nb' else ('nsbu', 'nsbx', 'nsg', SOFT)))
    m = re.match(r'^dims->n(\w+?)_total$', a)
    if m:
        return sum(v('dims->n%s[%d]' % (m.group(1), k)) for k in range(v('dims->N') + 1))
    m = OCPDIM.match(a)
    if m and m.group(1) == 'nv':
        return v('dims->nu[%s]' % m.group(2)) + v('dims->nx[%s]' % m.group(2)) + 2 * v('dims->ns[%s]' % m.group(2))
    if m and BRIDGE:
        f, st = m.groups()
        c = 'dims->constraints[%s]->' % st
        h = 'nphi' if SOFT == 'nsphi' else 'nh'
        if f == 'ni':
            return v(c + 'nb') + v(c + 'ng') + v(c + h) + v(c + 'ns')
        if f == 'ni_nl':
            return v(c + h)
        if f in ('nb', 'ng'):
            return v(c + f)
        if f == 'nz' and ('sim_erk' in LABEL or 'dynamics_disc' in LABEL):
            return 0                     # rejected by the dimension setters of these modules
        if f in ('nu', 'nz') and st == str(v('dims->N')):
            return 0                     # no inputs and algebraic variables at the terminal stage
        if f == 'nx' and 'dynamics_cont' in LABEL and re.match(r'^\((.*)\+1\)$', st):
            return v('dims->nx[%s]' % st[1:-3])
    return 1 + random.Random('%s/%d' % (a, seed)).randrange(3)


BRIDGE = False


def storage_map(ms, val, seed):
    """last writer of every storage element: {elem: (caller element or None, offset, move)}"""
    W = {}
    for m in ms:
        if m.op == 'mul':
            continue                     # multiplication with the constraint mask: zeroes multipliers of masked constraints (C13)
        for d, s, off in entries(m, seed):
            W[d] = ((s[1] or (0,)) if s is not None and is_val(s[0], val) else None, off, m)
    return W


def reads_map(ms, val, seed):
    """{caller element: [(storage element or None, offset, move)]}"""
    R = {}
    for m in ms:
        for d, s, off in entries(m, seed):
            if is_val(d[0], val):
                R.setdefault(d[1] or (0,), []).append((s, off, m))
    return R


def compare(W, R):
    """list of (kind, text, move)"""
    sel = {w[0] for w in W.values() if w[0] is not None}
    if not R:
        return [('nothing', 'the getter writes no caller element', None)]
    for i, lst in sorted(R.items()):
        for s, off, m in lst:
            if s is None:
                if sel:
                    return [('const', 'the getter writes a constant to caller element %s, the setter stores the caller value' % (i,), m)]
                continue
            w = W.get(s)
            if w is None or w[0] is None:
                return [('unwritten', 'the getter reads %s, which the setter does not write from the caller value' % et(s), m)]
            if w[0] != i:
                return [('element', 'the getter reads %s into caller element %s, the setter stored caller element %s there' % (et(s), it(i), it(w[0])), m)]
            if w[1] is not None and off is not None and w[1] + off != 0:
                return [('offset', 'stored with offset %+d, read back with offset %+d' % (w[1], off), m)]
    if set(R) != sel and sel:
        return [('extent', 'the setter reads %d caller elements, the getter writes %d' % (len(sel), len(R)), lst[0][2])]
    return []


def it(i):
    return ','.join(map(str, i))


def et(s):
    return '%s[%s]' % (s[0], it(s[1]))


def is_val(base, v):
    return base == v or base == v.rstrip('_')


def pairs(P, D):
    out = []
    for (p, n) in sorted(D):
        if re.search(r'_set(_|$)', n):
            g = re.sub(r'_set(?=_|$)', '_get', n)
            if (p, g) in D:
                out.append((p, n, g))
    return out


SEEDS = (1, 2, 3)

# one name per line documents the exception: composite fields and synonyms (either order)
SHARED = {frozenset(x.split()) for x in """
Cyt Vu
Cyt Vx
y_ref yref
nout gnsf_nout
s sl
s su
xdot_guess gnsf_phi_guess
z_guess gnsf_phi_guess
ls lsbu
ls lsbx
ls lsg
ls lsh
ls lsphi
us usbu
us usbx
us usg
us ush
us usphi
Z Zl
Z Zu
z zl
z zu
""".strip().splitlines()}


def hard(c):
    return [o for o in c.opaque if o[0] == 'loop' or o[0].startswith('slot') or (o[0] not in ('free', 'sqrt') and any('->' in a or 'value' in a for a in o[1]))]


def external(c):
    """(operation, arguments) of a field handled by one external accessor"""
    if len(c.opaque) == 1 and not c.moves:
        m = re.match(r'^(\w*?)_(set|get)_(\w+)$', c.opaque[0][0])
        if m:
            return m.group(1), m.group(3), sorted(c.opaque[0][1])
    return None


class Sel:
    """predicate on slot targets: the selected module of each table"""

    def __init__(self, sel, fam):
        self.sel, self.fam = sel or {}, fam

    def __call__(self, t):
        for r, f in self.sel.items():
            if t[0] == f:
                return True
        return not any(t[0] in fs for fs in self.fam.values())


def restricted(outs, val):
    """the setter accepts particular values only (every accepting path constrains the caller element)"""
    return all(any(re.match(r'^\W*%s\[0\]' % re.escape(val), k) for k in list(s.facts) + list(s.env)) for v, s in outs)


def analyse(ctx, P, G, D, path, sn, gn, sf, gf, sv, gv, sel, label):
    sl = dispatch.all_literals(P, G, D, (path, sn))
    gl = dispatch.all_literals(P, G, D, (path, gn))
    Wall, Rall, site = {}, {}, {}
    for lit in sorted(sl):
        s, sp = run_one(P, G, D, path, sn, lit, sel)
        if s is None or not s[1] or hard(s[0]):
            if lit not in gl:
                continue
        if s is None:
            ctx.skip('%s "%s"%s: not interpretable' % (sn, lit, label))
            continue
        sc, so = s
        if lit not in gl:
            for k in SEEDS:
                Wall[lit, k] = storage_map(sc.moves, sv, k)
            site[lit] = sc.moves
            continue
        g, gp = run_one(P, G, D, path, gn, lit, sel)
        if g is None:
            ctx.skip('%s/%s "%s"%s: not interpretable' % (sn, gn, lit, label))
            continue
        gc, go = g
        if not so or not go:
            ctx.count('names not accepted on both sides')
            continue
        ctx.count('fields')
        key = '%s:%s' % (gn, lit)
        where = '%s:%s' % (path, gf.l)
        es, eg = external(sc), external(gc)
        if es and eg:
            ctx.count('fields in external storage')
            if es[:2] != eg[:2]:
                ctx.violation(key, where, '%s("%s") stores through %s_set_%s, %s reads through %s_get_%s' % ((sn, lit) + es[:2] + (gn,) + eg[:2]))
            continue
        if hard(sc) or hard(gc):
            o = (hard(sc) + hard(gc))[0]
            ctx.skip('%s/%s "%s"%s: %s at %s:%s' % (sn, gn, lit, label, o[0], o[2], o[3]))
            continue
        site[lit] = sc.moves
        for k in SEEDS:
            W, R = storage_map(sc.moves, sv, k), reads_map(gc.moves, gv, k)
            Wall[lit, k], Rall[lit, k] = W, R
            r = compare(W, R)
            if r and r[0][0] == 'const' and restricted(so, sv):
                ctx.count('fields with one admissible value')
                r = []
            for kind, text, m in r[:1]:
                ctx.violation(key, '%s:%s' % (m.path, m.line) if m else where, '%s/%s "%s"%s: %s' % (sn, gn, lit, label, text))
            if r:
                break
        else:
            ctx.count('fields matched')
            if gc.moves:
                ctx.sample('%s/%s "%s"%s: %s' % (sn, gn, lit, label, gc.moves[0]))
    frame(ctx, path, sn, gn, Wall, Rall, site, label)


def frame(ctx, path, sn, gn, Wall, Rall, site, label):
    """different fields use different storage"""
    names = sorted({f for f, k in Wall})
    for f in names:
        for g in names:
            if f == g or frozenset((f, g)) in SHARED:
                continue
            ctx.count('field pairs')
            for k in SEEDS:
                if (f, k) not in Wall or (g, k) not in Wall:
                    continue
                wf = {e for e, w in Wall[f, k].items() if w[0] is not None}
                wg = {e for e, w in Wall[g, k].items() if w[0] is not None}
                ov = (wf & wg) if f < g and '_dims_' not in sn and '_opts_' not in sn else set()
                if (g, k) in Rall and '_opts_' not in sn:
                    rg = {s for l in Rall[g, k].values() for s, off, m in l if s}
                    ov |= set(Wall[f, k]) & rg
                if ov:
                    e = sorted(ov)[0]
                    m = Wall[f, k][e][2]
                    ctx.violation('%s:%s:%s' % (sn, min(f, g), max(f, g)), '%s:%s' % (m.path, m.line), '%s%s: setting "%s" also changes what is stored for "%s" (for example %s)' % (sn, label, f, g, et(e)))
                    break


def flat(ctx, P, G, D, gname, sname):
    """whole-horizon accessors are the concatenation of the per-stage ones"""
    lg, ls = P.lookup(gname), P.lookup(sname)
    if lg is None or ls is None or (lg[0], gname) not in D or (ls[0], sname) not in D:
        return
    fg, fs = dict(P.functions[gname])[lg[0]], dict(P.functions[sname])[ls[0]]
    vg, vs = value_param(fg, D[lg[0], gname]), value_param(fs, D[ls[0], sname])
    stage = next((p.n for p in F.params(fs) if p.n == 'stage' or p.t == 'int'), None)
    for lit in sorted(dispatch.all_literals(P, G, D, (lg[0], gname)) & dispatch.all_literals(P, G, D, (ls[0], sname))):
        r, _ = run_one(P, G, D, lg[0], gname, lit)
        q, _ = run_one(P, G, D, ls[0], sname, lit)
        if r is None or q is None or not r[1] or not q[1] or hard(r[0]) or hard(q[0]):
            ctx.skip('%s/%s "%s": not comparable' % (gname, sname, lit))
            continue
        ctx.count('whole-horizon fields')
        setter = '_set' in gname
        for k in SEEDS:
            def order(ms, val):
                out = {}
                if setter:
                    for d, w in storage_map(ms, val, k).items():
                        if w[0] is not None:
                            out.setdefault(w[0], []).append(d)
                else:
                    for i, l in reads_map(ms, val, k).items():
                        out[i] = [s for s, off, m in l]
                return out
            A_ = order(r[0].moves, vg)
            N = value_of(canon_sub('dims->N'), k)
            B, base = {}, 0
            stages = []
            for st in range(N + 1):
                q, _ = run_one(P, G, D, ls[0], sname, lit, None, {stage: ('i', st)})
                o = order(q[0].moves, vs) if q is not None else {}
                for i, l in o.items():
                    B[(base + i[0],) + i[1:]] = l
                base += len(o)
                stages.append(base)
            ok = len(A_) in stages[-2:] and all(B.get(i) == l for i, l in A_.items())
            if not ok:
                i = next((i for i in sorted(A_) if B.get(i) != A_[i]), None)
                m = r[0].moves[0] if r[0].moves else None
                ctx.violation('%s:%s:flat' % (gname, lit), '%s:%s' % (m.path, m.line) if m else lg[0],
                              '%s("%s") is not the concatenation over the stages of %s: %s' % (gname, lit, sname, 'element %s is %s there, %s per stage' % (it(i), A_[i], B.get(i)) if i else
                                                                                             '%d elements, per stage %s' % (len(A_), stages)))
                break
        else:
            ctx.count('whole-horizon fields matched')


def run(ctx):
    P = F.load()
    G = cgraph.CG(P)
    D = dispatch.dispatchers(P, G)
    for path, sn, gn in pairs(P, D):
        a = dispatch.all_literals(P, G, D, (path, sn)) & dispatch.all_literals(P, G, D, (path, gn))
        sf, gf = dict(P.functions[sn])[path], dict(P.functions[gn])[path]
        sv, gv = value_param(sf, D[(path, sn)]), value_param(gf, D[(path, gn)])
        if sv is None or gv is None or not a:
            continue
        ctx.count('pairs')
        fam = {}
        for lit in sorted(a):
            for fn in (sn, gn):
                r, _ = run_one(P, G, D, path, fn, lit)
                if r is not None:
                    for slot, ts in r[0].contested.items():
                        fam.setdefault(slot[0], set()).update(t[0] for t in ts)
        recs = sorted(fam)
        combos = list(itertools.product(*[sorted(fam[r]) for r in recs])) if recs else [()]
        for combo in combos:
            sel = Sel(dict(zip(recs, combo)), fam) if combo else None
            label = ' with ' + ', '.join(c.split('/')[-1][:-2] for c in combo) if combo else ''
            global CONSTR
            CONSTR = 'constraints' in sn
            global SOFT
            SOFT = 'nsphi' if 'bgp' in sn + label else 'nsh'
            analyse(ctx, P, G, D, path, sn, gn, sf, gf, sv, gv, sel, label)
    CONSTR = False
    for g, q in (('ocp_nlp_get_all', 'ocp_nlp_out_get'), ('ocp_nlp_set_all', 'ocp_nlp_out_set')):
        flat(ctx, P, G, D, g, q)
    ctx.assumptions.append('dims: nb = nbu + nbx and ns = nsbu + nsbx + nsg + nsh|nsphi, as established by the dimension setters')
    ctx.floor('pairs', 25)
    ctx.floor('fields', 150)
