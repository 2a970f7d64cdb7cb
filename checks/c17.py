"""C17: dimensions reach every module that keeps them, and derived dimensions equal their definition."""
import itertools, random, re
import cfront as F, cgraph, dispatch, moves
import absint as A
import c14
from c14 import run_one, Sel, entries, canon_sub

RULE = ('Every dimension setter of the solver interface is interpreted abstractly for every field name and every module selection and summarised as symbolic element '
        'moves (loops over stages included); the summaries are evaluated on a store of dimension symbols for several sample values. Required after the call: every dims '
        'record with a member of that name holds the value given for that stage (next stage for nx1, nu1), the QP, relaxed QP, condensing and regularisation dims agree, '
        'and nb, ns, ni, nv and the totals equal their defining sums.')

N = 3
SEEDS = (1, 2)
OPT = ('nx', 'nu', 'nz', 'ns', 'np')
FAMS = {'ocp_nlp_cost_config': 'cost', 'ocp_nlp_constraints_config': 'constraints', 'ocp_nlp_dynamics_config': 'dynamics', 'sim_config': 'sim'}


class Cli(c14.Cli):
    def on_call(self, e, name, slot, args, n, st):
        if name == 'd_ocp_qp_dim_set' and args[0][0] == 's':
            f = args[0][1][args[0][2]:]
            p = moves.poly(args[2])
            self.add(e, ('%s->%s' % (A.vtext(args[3]), f), [moves.P_(args[1])]), None, p, (), n, st)
            return [(('t', 'void'), st)]
        m = re.match(r'd_ocp_qp_dim_set_(n\w+)$', name or '')
        if m and len(args) == 3:
            self.add(e, ('%s->%s' % (A.vtext(args[2]), m.group(1)), [moves.P_(args[0])]), None, moves.poly(args[1]), (), n, st)
            return [(('t', 'void'), st)]
        return c14.Cli.on_call(self, e, name, slot, args, n, st)


class Unknown(Exception):
    pass


def name_of(el):
    b, i = el
    return b + ''.join('[%d]' % x for x in i)


class Store:
    def __init__(self, seed, pre=None):
        self.seed, self.d, self.init = seed, {}, {}
        self.line, self.lost = {}, []
        self.pre = pre or {}

    def get(self, a):
        if re.match(r'^-?\d+$', a):
            return int(a)
        a = norm(a)
        if a in self.d:
            if self.d[a] is None:
                raise Unknown(a)
            return self.d[a]
        return self.initial(a)

    def initial(self, a):
        if '<' in a or '?' in a or '@' in a:
            raise Unknown(a)
        if re.match(r'^(config|dims)->N$', a):
            return N
        if a == 'stage':
            return self.pre.get('stage', 0)
        m = re.match(r'^(.*->)(nb|ns_derived)$', a)
        if m and 'dims->constraints' in a:
            soft = 'nsphi' if self.pre.get('bgp') else 'nsh'
            return sum(self.initial(m.group(1) + x) for x in (('nbu', 'nbx') if m.group(2) == 'nb' else ('nsbu', 'nsbx', 'nsg', soft)))
        if self.pre.get('last0') and re.match(r'^dims->(n[uz]\[%d\]|constraints\[%d\]->nbu)$' % (N, N), a):
            return 0
        if self.pre.get('last0') and a.endswith('_total'):
            raise Unknown(a)
        return 1 + random.Random('%s/%d' % (a, self.seed)).randrange(10 ** 6)

    def run(self, ms):
        old = c14.value_of
        c14.value_of = lambda a, seed: self.get(a)
        try:
            for m in ms:
                if m.op != 'copy':
                    continue
                self.rec(m, 0, {})
        finally:
            c14.value_of = old

    def rec(self, m, i, e):
        if i < len(m.nest):
            k, h = m.nest[i]
            try:
                n = c14.ev(h, e, self.seed)
            except Unknown:
                self.lost.append((m.path, m.line))
                return
            for v in range(max(0, n)):
                self.rec(m, i + 1, dict(e, **{k: v}))
            return
        one = moves.Move(m.dst, None, None, [], m.line, m.path)
        sub = lambda x: (c14.inst(x[0], e), [{(): c14.ev(p, e, self.seed)} for p in x[1]]) if x else None
        try:
            one.dst = sub(m.dst)
            k = norm(name_of(entries(one, self.seed)[0][0]))
        except Unknown:
            self.lost.append((m.path, m.line))
            return
        self.line[k] = (m.path, m.line)
        try:
            if m.src is None and m.off is None:
                raise Unknown(k)
            v = c14.ev(m.off, e, self.seed) if m.off is not None else 0
            if m.src is not None:
                one.dst = sub(m.src)
                v += self.get(name_of(entries(one, self.seed)[0][0]))
            self.d[k] = v
        except Unknown:
            self.d[k] = None


def norm(a):
    a = moves.canon_path(canon_sub(a))
    a = re.sub(r'\[([^\[\]]*)\]', lambda m: '[%d]' % eval(m.group(1)) if re.match(r'^[\d+\-*() ]+$', m.group(1)) else m.group(0), a)
    return a[:-3] if a.endswith('[0]') else a


def dims_types(P, path, fn):
    """dims records mentioned in a function"""
    out = set()
    for x in dict(P.functions[fn])[path].walk():
        m = re.match(r'^(?:const )?(?:struct )?(\w+_dims) \*$', (x.t or ''))
        if m:
            out.add(m.group(1))
    return out


def members(P, t):
    r = P.rec_of(t)
    fl = P.records.get(t) or P.records.get('struct ' + t) or (P.records.get(r) if r else None)
    return {x[0]: x[1] for x in fl or ()}


def selections(P, G, D, path, fn, lit):
    r, _ = run_one(P, G, D, path, fn, lit, cls=Cli)
    if r is None:
        return None
    fam = {}
    for slot, ts in r[0].contested.items():
        fam.setdefault(slot[0], set()).update(t[0] for t in ts)
    recs = sorted(fam)
    lists = [sorted(fam[x]) for x in recs]
    n = 1
    if 'sim_config' in fam and 'ocp_nlp_dynamics_config' in fam:
        n = len(fam['sim_config']) * len(fam['ocp_nlp_dynamics_config'])
    n = max([n] + [len(x) for x in lists])
    out = []
    for i in range(n):
        sel = {}
        for x, l in zip(recs, lists):
            if x == 'sim_config' and 'ocp_nlp_dynamics_config' in fam:
                sel[x] = l[(i // len(fam['ocp_nlp_dynamics_config'])) % len(l)]
            else:
                sel[x] = l[i % len(l)]
        out.append((sel, Sel(sel, fam)))
    return out


def lab(sel):
    return ' with ' + ', '.join(sorted(c.split('/')[-1][:-2] for c in sel.values())) if sel else ''


class Chk:
    def __init__(self, ctx, fn, lit, sel):
        self.ctx, self.fn, self.lit, self.sel = ctx, fn, lit, sel
        self.bad = set()

    def want(self, S, key, val, what, anchor):
        self.ctx.count('dimension facts')
        try:
            got = S.get(key)
        except Unknown:
            self.ctx.skip('%s "%s"%s: %s undetermined' % (self.fn, self.lit, lab(self.sel), re.sub(r'\[\d+\]', '[k]', key)))
            return
        if got != val and S.lost and norm(key) not in S.d:
            self.ctx.skip('%s "%s"%s: store at %s:%s undetermined' % (self.fn, self.lit, lab(self.sel), *S.lost[0]))
            return
        if got != val:
            g = re.sub(r'\[\d+\]', '[k]', key)
            if g in self.bad:
                return
            self.bad.add(g)
            p, l = S.line.get(norm(key)) or anchor
            self.ctx.violation('%s:%s:%s' % (self.fn, self.lit, g), '%s:%s' % (p, l), '%s("%s")%s: %s does not hold %s afterwards' % (self.fn, self.lit, lab(self.sel), key, what))


def run(ctx):
    P = F.load()
    G = cgraph.CG(P)
    D = dispatch.dispatchers(P, G)
    horizon(ctx, P, G, D)
    horizon(ctx, P, G, D, 'ocp_nlp_dims_set_global', ('np_global', 'n_global_data'))
    stagewise(ctx, P, G, D)
    totals(ctx, P, G, D)
    ctx.floor('dimension facts', 500)
    ctx.assumptions += ['the dimension functions of HPIPM (d_ocp_qp_dim_set) store the value passed for the named dimension and stage',
                        'no inputs and no algebraic variables at the terminal stage (documented), so totals over N stages equal totals over N+1']


def horizon(ctx, P, G, D, fn='ocp_nlp_dims_set_opt_vars', names=OPT):
    L = P.lookup(fn)
    if L is None or (L[0], fn) not in D:
        ctx.skip('%s not found' % fn)
        return
    path = L[0]
    f = dict(P.functions[fn])[path]
    val = F.params(f)[-1].n
    lits = dispatch.all_literals(P, G, D, (path, fn))
    for lit in names:
        if lit not in lits:
            ctx.skip('%s: name %s not found' % (fn, lit))
            continue
        for sel, S in selections(P, G, D, path, fn, lit) or ():
            r, _ = run_one(P, G, D, path, fn, lit, S, cls=Cli)
            if r is None or len(r[1]) != 1:
                ctx.skip('%s "%s"%s: not interpretable' % (fn, lit, lab(sel)))
                continue
            c = Chk(ctx, fn, lit, sel)
            for seed in SEEDS:
                S_ = Store(seed)
                S_.run(r[0].moves)
                given = (lambda k: S_.initial(norm('%s[%d]' % (val, k)))) if names is OPT else (lambda k: S_.initial(norm(val)))
                an = (path, f.l)
                for k in range(N + 1):
                    c.want(S_, 'dims->%s[%d]' % (lit, k) if names is OPT else 'dims->' + lit, given(k), 'the value given for stage %d' % k, an)
                    if lit in ('nx', 'nu', 'ns'):
                        c.want(S_, 'dims->nv[%d]' % k, S_.get('dims->nu[%d]' % k) + S_.get('dims->nx[%d]' % k) + 2 * S_.get('dims->ns[%d]' % k), 'nu + nx + 2 ns', an)
                    for rec, fam in FAMS.items():
                        if rec not in sel or (fam in ('dynamics', 'sim') and k == N):
                            continue
                        if fam == 'sim' and not any('dynamics_cont' in x for x in sel.values()):
                            continue
                        base = 'dims->dynamics[%d]->sim->' % k if fam == 'sim' else 'dims->%s[%d]->' % (fam, k)
                        tys = set()
                        for p2, n2 in G.slots.get((rec, 'dims_set'), ()):
                            if p2 == sel[rec]:
                                tys |= dims_types(P, p2, n2)
                        mem = set()
                        for t in tys:
                            mem |= set(members(P, t))
                        if (fam, lit) == ('sim', 'nz') and 'erk' in sel[rec]:
                            continue     # rejects any value but 0
                        if lit in mem:
                            c.want(S_, base + lit, given(k), 'the value given for stage %d' % k, an)
                        if lit + '1' in mem and fam == 'dynamics':
                            c.want(S_, base + lit + '1', given(k + 1), 'the value given for the next stage', an)
                    if lit in ('nx', 'nu'):
                        c.want(S_, 'dims->regularize->%s[%d]' % (lit, k), given(k), 'the value given for stage %d' % k, an)
                    if lit in ('nx', 'nu', 'ns'):
                        for q in ('qp_solver', 'relaxed_qp_solver'):
                            if lit == 'ns' and q == 'relaxed_qp_solver':
                                continue
                            for o in ('orig_dims', 'xcond_dims->orig_dims'):
                                c.want(S_, 'dims->%s->%s->%s[%d]' % (q, o, lit, k), given(k), 'the value given for stage %d' % k, an)


def derived_ns(P, G, mod):
    return any('ns_derived' in members(P, t) for p, n in G.slots.get(('ocp_nlp_constraints_config', 'dims_set'), ()) if p == mod for t in dims_types(P, p, n))


def stagewise(ctx, P, G, D):
    fn = 'ocp_nlp_dims_set_constraints'
    L = P.lookup(fn)
    if L is None or not P.lookup(fn):
        ctx.skip('%s not found' % fn)
        return
    path = L[0]
    if (path, fn) not in D:
        ctx.skip('%s not a dispatcher' % fn)
        return
    f = dict(P.functions[fn])[path]
    val = F.params(f)[-1].n
    for lit in sorted(dispatch.all_literals(P, G, D, (path, fn))):
        if not re.match(r'^n[a-z]+$', lit) or lit in OPT or lit in ('ni', 'ng_qp_solver', 'nb', 'ne', 'ni_nl'):
            continue
        for sel, S in selections(P, G, D, path, fn, lit) or ():
            mod = next((x for r, x in sel.items() if r == 'ocp_nlp_constraints_config'), None)
            for stage in (0, 2):
                r, _ = run_one(P, G, D, path, fn, lit, S, cls=Cli, more={'stage': ('i', stage)})
                if r is None:
                    ctx.skip('%s "%s"%s: not interpretable' % (fn, lit, lab(sel)))
                    continue
                if not r[1]:
                    ctx.count('names not accepted')
                    continue
                c = Chk(ctx, fn, lit, sel)
                bgp = 'bgp' in (mod or '')
                for seed in SEEDS:
                    S_ = Store(seed, {'stage': stage, 'bgp': bgp})
                    S_.run(r[0].moves)
                    an = (path, f.l)
                    con = 'dims->constraints[%d]->' % stage
                    new = S_.initial(norm(val + '[0]'))
                    g = lambda x: S_.get(con + x)
                    c.want(S_, con + lit, new, 'the value given', an)
                    nl = 'nphi' if bgp else 'nh'
                    try:
                        nb, ngq, ngeq = g('nbx') + g('nbu'), g('ng') + g(nl), g('nge') + g(nl + 'e')
                        ns = g('nsbu') + g('nsbx') + g('nsg') + g('ns' + nl[1:])
                        c.want(S_, con + 'nb', nb, 'nbx + nbu', an)
                        c.want(S_, con + ('ns_derived' if derived_ns(P, G, mod) else 'ns'), ns, 'the sum of the soft constraint counts', an)
                        if norm('dims->nb[%d]' % stage) in S_.d or lit in ('nbx', 'nbu'):
                            c.want(S_, 'dims->nb[%d]' % stage, nb, 'nbx + nbu of the constraint module', an)
                        if lit == 'ng':
                            c.want(S_, 'dims->ng[%d]' % stage, g('ng'), 'ng of the constraint module', an)
                        if lit == nl:
                            c.want(S_, 'dims->ni_nl[%d]' % stage, g(nl), 'the number of nonlinear constraints', an)
                        if lit in ('nbx', 'nbu', 'ng', nl):
                            c.want(S_, 'dims->ni[%d]' % stage, nb + ngq + g('ns'), 'the number of inequalities of the constraint module', an)
                        qp = {'nbx': 'nbx', 'nbu': 'nbu', 'nbxe': 'nbxe', 'nbue': 'nbue', 'ng': 'ng', nl: 'ng', 'nge': 'nge', nl + 'e': 'nge'}.get(lit)
                        want = {'ng': ngq, 'nge': ngeq}.get(qp, new)
                        for q in ('qp_solver', 'relaxed_qp_solver'):
                            for o in ('orig_dims', 'xcond_dims->orig_dims'):
                                b = 'dims->%s->%s->' % (q, o)
                                if qp and not (q == 'relaxed_qp_solver' and qp in ('nbue', 'nge')) and not (q == 'relaxed_qp_solver' and qp == 'nbxe' and stage):
                                    c.want(S_, '%s%s[%d]' % (b, qp, stage), want, 'the value of the constraint module', an)
                                if q == 'relaxed_qp_solver' and lit in ('nbx', 'ng', nl, 'nsbu', 'nsbx') and not (lit == 'nbx' and stage == 0) and not (lit == 'nsbx' and stage):
                                    c.want(S_, '%sns[%d]' % (b, stage), ngq + g('nsbu') + (g('nsbx') if stage == 0 else g('nbx')), 'the number of constraints it softens', an)
                        if lit in ('nbx', 'nbu'):
                            c.want(S_, 'dims->regularize->%s[%d]' % (lit, stage), new, 'the value given', an)
                        if lit in ('ng', nl):
                            c.want(S_, 'dims->regularize->ng[%d]' % stage, ngq, 'ng of the QP', an)
                    except Unknown as ex:
                        ctx.skip('%s "%s"%s: %s undetermined' % (fn, lit, lab(sel), ex))


def is_total(x):
    return x.k in ('BinaryOperator', 'CompoundAssignOperator') and x.op in ('=', '+=', '-=') and x.c and x.c[0].k == 'MemberExpr' and re.match(r'^n\w+_total$', x.c[0].n or '')


def slicer(f):
    """predicate on top-level statements: those that compute a total, and those that assign a local these read"""
    top = F.body(f).c
    wr = lambda x: x.k in ('BinaryOperator', 'CompoundAssignOperator') and x.op in ('=', '+=', '-=', '*=')
    kept = {id(s) for s in top if any(is_total(x) for x in s.walk())}
    while True:
        need = set()
        for s in top:
            if id(s) in kept:
                for x in s.walk():
                    if wr(x) and x.p is not None and x.p.k != 'ForStmt':
                        need |= {y.n or (y.r[1] if y.r else None) for y in x.c[1].walk() if y.k == 'DeclRefExpr'}
        new = {id(s) for s in top for x in s.walk() if wr(x) and not (x.p is not None and x.p.k == 'ForStmt' and x.p.c and x is not x.p.c[-1])
               and x.c[0].k == 'DeclRefExpr' and (x.c[0].n or (x.c[0].r[1] if x.c[0].r else None)) in need}
        if new <= kept:
            return lambda s: id(s) in kept
        kept |= new


class TCli(Cli):
    """memory accumulators: every write of a total is a move that reads the element's current value"""

    def on_write(self, e, loc, val, n, st):
        if loc.endswith('_total'):
            st.env.pop(loc, None)
            self.add(e, self.element(loc, e, n), None, moves.poly(val), (), n, st)
            return
        return Cli.on_write(self, e, loc, val, n, st)


def run_slice(P, G, path, fn, keep, allowed, cls=TCli):
    """interpret the top-level statements of a function selected by keep (declarations included)"""
    f = dict(P.functions[fn])[path]
    b = F.body(f)
    nb = F.N('CompoundStmt')
    nb.l, nb.f = b.l, b.f
    nb.c = [s for s in b.c if s.k == 'DeclStmt' or keep(s)]
    g = F.N(f.k)
    for a in F.N.__slots__:
        setattr(g, a, getattr(f, a))
    g.c = [x for x in f.c if x is not b] + [nb]
    c = cls(P, G)
    c.allowed = allowed
    e = moves.E(P, c, G)
    try:
        outs = e.call_fn(path, fn, g, [('p', p.n or 'arg%d' % i) for i, p in enumerate(F.params(f))], A.St(), root=True)
    except A.Unsupported:
        return None
    return c, outs


TOT = {'nx': 'dims->nx', 'nu': 'dims->nu', 'nz': 'dims->nz', 'ni': 'dims->ni', 'ns': 'dims->ns', 'np': 'dims->np', 'ng': 'dims->ng',
       'nbx': 'dims->constraints[%d]->nbx', 'nbu': 'dims->constraints[%d]->nbu', 'nh': 'dims->constraints[%d]->nh', 'ny': 'dims->cost[%d]->ny'}


def totals(ctx, P, G, D):
    for fn in sorted(P.functions):
        for path, f in sorted(dict(P.functions[fn]).items()):
            if not path.startswith('acados/') or not any(is_total(x) for x in f.walk()):
                continue
            names = sorted({x.c[0].n for x in f.walk() if is_total(x)})
            keep = slicer(f)
            r = run_slice(P, G, path, fn, keep, None)
            if r is None:
                ctx.skip('%s: not interpretable' % fn)
                continue
            fam = {}
            for slot, ts in r[0].contested.items():
                fam.setdefault(slot[0], set()).update(t[0] for t in ts)
            recs = sorted(fam)
            for combo in itertools.product(*[sorted(fam[x]) for x in recs]):
                sel = dict(zip(recs, combo))
                r = run_slice(P, G, path, fn, keep, Sel(sel, fam))
                if r is None or len(r[1]) != 1:
                    ctx.skip('%s%s: not interpretable' % (fn, lab(sel)))
                    continue
                c = Chk(ctx, fn, 'totals', sel)
                for seed in SEEDS:
                    S_ = Store(seed, {'bgp': any('bgp' in x for x in combo), 'last0': True})
                    S_.run(r[0].moves)
                    for t in names:
                        k = TOT.get(t[1:-6] if t.startswith('nn') else t[:-6])
                        if k is None:
                            ctx.skip('%s: total %s not specified' % (fn, t))
                            continue
                        if t[:-6] == 'nh' and any('bgp' in x for x in combo):
                            continue         # no nonlinear constraints h in the BGP module
                        if t[:-6] == 'ny' and any('external' in x for x in combo):
                            continue         # no residual: the dimension query reports 0
                        k = k if '%d' in k else k + '[%d]'
                        c.want(S_, 'dims->' + t, sum(S_.get(k % i) for i in range(N + 1)), 'the sum over all stages', (path, f.l))
