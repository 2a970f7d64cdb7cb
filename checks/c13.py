"""C13: masks of one-sided bounds follow the stored bounds."""
import cfront as F, cgraph, dispatch, moves, re, os
import absint as A

RULE = ('Each field setter of each constraint module is interpreted abstractly once per field name (loops entered with a symbolic index, BLASFEO packing '
        'modelled by its element mapping). For every store of caller values into the stage bound vector d[P(k)], k < n, the same run must store into the '
        'mask, at the same symbolic positions and extent, 0 under exactly the test "d[P(k)] <= -INFTY" (lower and slack bounds; ">= INFTY" for upper '
        'bounds) and 1 under its negation, after the bound is stored, and must not store into the mask anywhere else. At solver level, every store of caller values into a stage multiplier '
        'vector, and every bound update, must be followed by a multiplication of all 2*ni multipliers of that stage with its mask.')


def infty():
    t = open(os.path.join(F.REPO, 'acados/utils/types.h')).read()
    m = re.search(r'#define\s+ACADOS_INFTY\s+(\S+)', t)
    return float(m.group(1)) if m else 1e10


def canon(m):
    """(dst base, dst poly, src, off, count, conds) with loop variables renamed by position"""
    ren = {}
    for i, (k, h) in enumerate(m.nest):
        ren[k] = '@%s' % 'abcdefgh'[i]
    f = lambda p: {tuple(sorted(ren.get(a, a) for a in mo)): c for mo, c in p.items()}
    return (m.dst[0], tuple(moves.ptext(f(p)) for p in m.dst[1]), (m.src[0], tuple(moves.ptext(f(p)) for p in m.src[1])) if m.src else None,
            None if m.off is None else moves.ptext(f(m.off)), tuple(moves.ptext(f(h)) for k, h in m.nest), ren)


CMP = re.compile(r'^(!?)\((.*?)(<=|>=|<|>)(.*)\)$')
NUM = re.compile(r'^-?\d+(\.\d+)?(e[+-]?\d+)?$')


def split_cmp(c):
    """(text, op, number) of a comparison fact, negation resolved; None when not of that form"""
    neg = c.startswith('!')
    s = c[1:] if neg else c
    if not (s.startswith('(') and s.endswith(')')):
        return None
    s = s[1:-1]
    d = 0
    for i, ch in enumerate(s):
        if ch in '([':
            d += 1
        elif ch in ')]':
            d -= 1
        elif d == 0 and ch in '<>' and not (ch == '>' and i and s[i - 1] == '-'):
            op = s[i:i + 2] if s[i + 1:i + 2] == '=' else ch
            l, r = s[:i], s[i + len(op):]
            if NUM.match(l):
                l, r, op = r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            if not NUM.match(r):
                return None
            if neg:
                op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}[op]
            return l, op, float(r)
    return None


def elem(text, ren):
    """(base, index text) of a loaded element"""
    b, idx = moves.split_index(text)
    if len(idx) != 1:
        return None
    base, suf = moves.vec_base(b)
    p = moves.parse(idx[0])
    p = {tuple(sorted(ren.get(a, a) for a in mo)): c for mo, c in p.items()}
    return base, moves.ptext(p)


def kind(name):
    if name.startswith('us') or name.startswith('ls'):
        return 'lower'
    return 'lower' if name.startswith('l') else 'upper'


def check_setter(ctx, P, G, path, name, lit, inf):
    fn = dict(P.functions[name])[path]
    fi = next((i for i, p in enumerate(F.params(fn)) if p.n == 'field'), None)
    ps = F.params(fn)
    D = dispatch.dispatchers(P, G)
    fi = D.get((path, name), fi)
    r = moves.run(P, G, path, name, {ps[fi].n: ('s', lit, 0)})
    if r is None:
        ctx.skip('%s %s: not interpretable' % (name, lit))
        return
    cl, outs = r
    val = ps[-1].n
    ms = [(i, m, canon(m)) for i, m in enumerate(cl.moves)]
    bounds = [(i, m, c) for i, m, c in ms if m.dst[0].endswith('->d') and m.op == 'copy' and m.src and m.src[0].split('->')[0] == val]
    masks = [(i, m, c) for i, m, c in ms if m.dst[0].endswith('dmask')]
    key = '%s:%s' % (name, lit)
    used = set()
    hard = [o for o in cl.opaque if o[0] == 'loop' or any('dmask' in str(a) or re.search(r'->d\b', str(a)) for a in o[1])]
    if hard:
        ctx.skip('%s "%s": %s at %s:%s is beyond the element model' % (name, lit, hard[0][0], hard[0][2], hard[0][3]))
        ctx.count('bound stores', len(bounds))
        return
    for i, m, c in bounds:
        ctx.count('bound stores')
        up = kind(lit) == 'upper'
        want = ('>=', inf) if up else ('<=', -inf)
        neg = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}
        where = '%s:%s' % (m.path, m.line)

        def truth(co, ren, infinite):
            """value of a condition when the bound is / is not infinite; None when it is another condition"""
            t = split_cmp(co)
            e = elem(t[0], ren) if t else None
            # the test may look at the stored bound or at the caller's value it was copied from
            if e is None or not (e == (c[0], c[1][0]) or (c[2] is not None and e == (c[2][0], c[2][1][0]))):
                return None
            if t[1:] == want:
                return infinite
            if t[1:] == (neg[want[0]], want[1]):
                return not infinite
            return None
        stores = [(j, mm, cc) for j, mm, cc in masks if cc[1] == c[1] and cc[4] == c[4]]
        used |= {j for j, mm, cc in stores}
        if not stores:
            ctx.violation(key, where, '%s: values for "%s" are stored at d[%s] (count %s) but the mask is not recomputed at these positions%s'
                          % (name, lit, c[1][0], '*'.join(c[4]), '' if not masks else '; it is written at dmask[%s] (count %s)' % (masks[0][2][1][0], '*'.join(masks[0][2][4]))))
            continue
        ok = True
        for infinite in (True, False):
            val = None
            for j, mm, cc in stores:
                tv = [truth(co, cc[5], infinite) for co in mm.conds]
                if None in tv or j < i:
                    ok = False
                elif all(tv):
                    if cc[3] in ('0', '1'):
                        val = int(cc[3])
                    else:
                        b = truth(cc[3] or '', cc[5], infinite)
                        val = None if b is None else int(b)
            if val != (0 if infinite else 1):
                ok = False
        if not ok:
            ctx.violation(key, where, '%s: mask for "%s" is not "0 exactly if the stored %s bound is %s %g": %s' % (name, lit, kind(lit), want[0], want[1],
                          '; '.join('%s if %s' % (cc[3], ' & '.join(mm.conds) or 'always') for j, mm, cc in stores)))
        else:
            ctx.count('masks matched')
            ctx.sample('%s "%s": d[%s], %s elements, mask 0 iff %s %g' % (name, lit, c[1][0], '*'.join(c[4]), *want))
    for j, m, c in masks:
        if j not in used:
            ctx.violation(key + ':extra', '%s:%s' % (m.path, m.line), '%s: setting "%s" writes mask entries dmask[%s] that are not those of the bound it stores' % (name, lit, c[1][0]))


class Level(moves.Cli):
    """solver level: bound updates of the stage modules are recorded, not followed"""
    val = ()

    def inline(self, path, name, e):
        return '/ocp_nlp_interface.c' in '/' + path and moves.Cli.inline(self, path, name, e)

    def follow(self, e, slot, args, n, st):
        if slot and slot[-1] == 'model_set' and 'constraints' in slot[0]:
            v = moves.ptr(args[-1])[0]
            if v not in self.val:
                return [(('t', 'status'), st)]
            self.add(e, ('bounds of ' + moves.obj(args[2]), []), None, None, (), n, st, 'bounds')
            return [(('t', 'status'), st)]
        return [(('t', 'call'), st)]


def index_of(base):
    """stage index text of '...[stage]'"""
    b, i = moves.split_index(base)
    return (b, moves.ptext(moves.parse(i[-1]))) if i else (b, None)


def solver_level(ctx, P, G, D):
    for name in sorted(P.functions):
        for path, fn in P.functions[name]:
            if not path.startswith('interfaces/acados_c/') or F.body(fn) is None:
                continue
            idx = D.get((path, name))
            txt = [c for c in fn.walk() if c.k == 'MemberExpr' and c.n in ('lam', 'model_set')]
            if idx is None or not txt or not any('ocp_nlp_out' in p.t for p in F.params(fn)):
                continue
            ps = F.params(fn)
            val = {p.n for p in ps if p.t.replace('const ', '').replace(' ', '') in ('void*', 'double*')}
            lits = sorted(dispatch.literals(P, path, name, idx))
            Level.val = val
            for lit in lits + [None]:
                r = moves.run(P, G, path, name, {ps[idx].n: ('s', lit, 0) if lit is not None else ('us', name, '')}, cls=Level)
                if r is None:
                    ctx.skip('%s %s: not interpretable' % (name, lit))
                    continue
                ms = r[0].moves
                for i, m in enumerate(ms):
                    raw = m.op == 'copy' and m.src and m.src[0].split('->')[0].split('[')[0] in val and re.search(r'(->|^)lam\[', m.dst[0])
                    if not raw and m.op != 'bounds':
                        continue
                    st = index_of(m.dst[0])[1]
                    ctx.count('multiplier obligations')
                    hit = False
                    for j in range(i + 1, len(ms)):
                        q = ms[j]
                        if q.op != 'mul' or not q.src or not re.search(r'->dmask\[', q.src[0]) or not re.search(r'->lam\[', q.dst[0]):
                            continue
                        if index_of(q.dst[0])[1] != st or index_of(q.src[0])[1] != st or len(q.nest) < 1:
                            continue
                        k, h = q.nest[-1]
                        at0 = moves.ptext(q.dst[1][0]) == k and moves.ptext(q.src[1][0]) == k
                        hs = moves.ptext(h)
                        if at0 and re.match(r'^2\*[\w>-]*->ni\[%s\]$' % re.escape(st or ''), hs) and not [c for c in q.conds if c not in m.conds]:
                            hit = True
                    if hit:
                        ctx.count('multipliers masked')
                        ctx.sample('%s "%s": lam of stage %s multiplied with its mask afterwards' % (name, lit, st))
                    else:
                        ctx.violation('%s:%s:lam' % (name, lit), '%s:%s' % (m.path, m.line), '%s: after %s of stage %s%s the stage multipliers are not multiplied with the mask over all 2*ni entries'
                                      % (name, 'updating the bounds' if m.op == 'bounds' else 'storing multipliers', st, '' if lit is None else ' ("%s")' % lit))


def run(ctx):
    P = F.load()
    G = cgraph.CG(P)
    inf = infty()
    D = dispatch.dispatchers(P, G)
    targets = sorted({t for s, ts in G.slots.items() if s[1] == 'model_set' and 'constraints' in s[0] for t in ts if t[0] != '<ext>'})
    for path, name in targets:
        ctx.count('setters')
        idx = D.get((path, name))
        if idx is None:
            ctx.skip('%s: no field name parameter' % name)
            continue
        for lit in sorted(dispatch.literals(P, path, name, idx)):
            ctx.count('fields')
            check_setter(ctx, P, G, path, name, lit, inf)
    solver_level(ctx, P, G, D)
    ctx.floor('setters', 2)
    ctx.floor('bound stores', 25)
    ctx.floor('multiplier obligations', 3)
