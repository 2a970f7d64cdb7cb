"""C15: reported field sizes equal what setters and getters read and write."""
import itertools, re
import cfront as F, cgraph, dispatch, moves
import absint as A
import c14
from c14 import run_one, value_param, hard, storage_map, reads_map, Sel, SEEDS, ev, canon_sub

RULE = ('Each size query of the solver interface is interpreted abstractly for every field name together with each accessor that uses the same name, under every module '
        'selection; the accessor is summarised as element moves of the caller array (symbolic indices and extents). For several assignments of the dimension '
        'symbols the caller elements touched by the accessor must be exactly 0..n-1 with n the reported size (product of the reported dimensions).')

# size query -> accessors documented to use it (a leading "-" means: per stage argument is named stage)
PAIRS = [('ocp_nlp_dims_get_from_attr', ['ocp_nlp_out_get', 'ocp_nlp_out_set', 'ocp_nlp_cost_model_set', 'ocp_nlp_cost_model_get', 'ocp_nlp_constraints_model_set',
                                         'ocp_nlp_constraints_model_get', 'ocp_nlp_set', 'ocp_nlp_in_get', 'ocp_nlp_in_set', 'ocp_nlp_get_from_iterate', 'ocp_nlp_get_at_stage']),
         ('ocp_nlp_constraint_dims_get_from_attr', ['ocp_nlp_constraints_model_set', 'ocp_nlp_constraints_model_get']),
         ('ocp_nlp_cost_dims_get_from_attr', ['ocp_nlp_cost_model_set', 'ocp_nlp_cost_model_get']),
         ('ocp_nlp_qp_dims_get_from_attr', ['ocp_nlp_get_at_stage']),
         ('ocp_nlp_dims_get_total_from_attr', ['ocp_nlp_set_all', 'ocp_nlp_get_all']),
         ('sim_dims_get_from_attr', ['sim_in_set', 'sim_out_get', 'sim_solver_set'])]


# the size query means the algebraic variables here, the cost module the slack gradient (queried as cost_z)
OTHER = {('ocp_nlp_dims_get_from_attr', 'ocp_nlp_cost_model_set', 'z')}


# documented extents of the HPIPM accessors (stage k): numbers of elements written to the caller
NXT = {'A': ('+nx', 'nx'), 'B': ('+nx', 'nu'), 'b': ('+nx',), 'Q': ('nx', 'nx'), 'S': ('nu', 'nx'), 'R': ('nu', 'nu'), 'q': ('nx',), 'r': ('nu',), 'C': ('ng', 'nx'), 'D': ('ng', 'nu'),
       'idxe': ('ne',), 'idxb': ('nb',), 'idxs_rev': ('nb+ng',), 'lb': ('nb',), 'ub': ('nb',), 'lb_mask': ('nb',), 'ub_mask': ('nb',)}
for _n, _l in (('nbx', 'lbx ubx lbx_mask ubx_mask idxbx'), ('nbu', 'lbu ubu lbu_mask ubu_mask idxbu'), ('ng', 'lg ug lg_mask ug_mask'),
               ('ns', 'zl zu Zl Zu lls lus lls_mask lus_mask idxs')):
    for _f in _l.split():
        NXT[_f] = (_n,)
RIC = {'P': ('nx', 'nx'), 'K': ('nu', 'nx'), 'Lr': ('nu', 'nu'), 'p': ('nx',)}


def tag(t):
    return 'relaxed.' if 'relaxed' in t else 'cond.' if re.search(r'cond_qp|cond_dims', t) else ''


def qpdim(f, stage, t):
    """polynomial of a dimension of a (relaxed, condensed, original) QP"""
    nxt = f.startswith('+')
    stage = '(%s+1)' % stage if nxt else stage
    f = f.lstrip('+')
    if f == 'nb+ng':
        return moves.padd(qpdim('nb', stage, t), qpdim('ng', stage, t))
    if f == 'nb':
        return moves.padd(qpdim('nbx', stage, t), qpdim('nbu', stage, t))
    if f == 'ne':
        f = 'nbxe+nbue+nge'
    if '+' in f:
        r = moves.pc(0)
        for x in f.split('+'):
            r = moves.padd(r, qpdim(x, stage, t))
        return r
    if t == 'cond.':
        return moves.pa('cond.%s[%s]' % (f, stage))
    if f in ('nx', 'nu'):
        return moves.pa('dims->%s[%s]' % (f, stage))
    if f == 'ns' and t:
        return moves.pa('relaxed.ns[%s]' % stage)
    c = 'dims->constraints[%s]->' % stage
    if f in ('ng', 'nge'):
        return moves.padd(moves.pa(c + f), moves.pa(c + ('nphi' if c14.SOFT == 'nsphi' else 'nh') + f[2:]))
    return moves.pa(c + f)


def text(v):
    return A.vtext(v)


class QPCli(c14.Cli):
    def on_call(self, e, name, slot, args, n, st):
        if name == 'd_ocp_qp_dim_get':
            f = args[1]
            s = f[1][f[2]:] if f[0] == 's' else None
            if s is not None:
                p = qpdim(s, text(args[2]), tag(text(args[0])))
                e.write(e.index(args[3], ('i', 0)), unpoly(p), n, st)
                return [(('t', 'void'), st)]
        if name == 'd_dense_qp_dim_get_nv':
            e.write(e.index(args[1], ('i', 0)), ('p', 'dense.nv'), n, st)
            return [(('t', 'void'), st)]
        if name == 'd_dense_qp_get_H':
            return self.dump(e, args[1], moves.pmul(moves.pa('dense.nv'), moves.pa('dense.nv')), n, st)
        m = re.match(r'd_ocp_qp_get_(\w+)$', name or '')
        if m and m.group(1) in NXT:
            return self.dump(e, args[2], self.prod(NXT[m.group(1)], text(args[0]), tag(text(args[1]))), n, st)
        m = re.match(r'd_ocp_qp_ipm_get_ric_(\w+)$', name or '')
        if m and m.group(1) in RIC:
            return self.dump(e, args[4], self.prod(RIC[m.group(1)], text(args[3]), tag(text(args[0]))), n, st)
        return c14.Cli.on_call(self, e, name, slot, args, n, st)

    def prod(self, fs, stage, t):
        p = moves.pc(1)
        for f in fs:
            p = moves.pmul(p, qpdim(f, stage, t))
        return p

    def dump(self, e, val, cnt, n, st):
        k = self.fresh()
        b, o = moves.ptr(val)
        self.add(e, (b, [moves.padd(o, moves.pa(k))]), ('<qp data>', [moves.pa(k)]), {}, [(k, {}, cnt)], n, st)
        return [(('t', 'void'), st)]


def unpoly(p):
    """absint value of a polynomial with coefficient one monomials of degree one"""
    v = None
    for mo, c in sorted(p.items()):
        x = ('p', mo[0]) if mo else ('i', c)
        v = x if v is None else ('e', '+', v, x)
    return v if v is not None else ('i', 0)


def sizes(st, v, out, seed):
    """reported number of elements of one return state, or None"""
    if out is None:
        p = moves.poly(v)
        return None if p is None else ev(p, {}, seed)
    d = []
    for i in (0, 1):
        x = st.env.get('%s[%d]' % (out, i))
        if x is None:
            d.append(None)
            continue
        p = moves.poly(x)
        d.append(None if p is None else ev(p, {}, seed))
    if d[0] is None:
        return None
    if d[1] is None or d[1] == 0:
        return d[0]
    return d[0] * d[1]


def run(ctx):
    P = F.load()
    G = cgraph.CG(P)
    D = dispatch.dispatchers(P, G)
    for q, accs in PAIRS:
        lq = P.lookup(q)
        if lq is None or (lq[0], q) not in D:
            ctx.skip('%s: not found' % q)
            continue
        fq = dict(P.functions[q])[lq[0]]
        out = next((p.n for p in F.params(fq) if p.t.replace(' ', '') == 'int*'), None)
        Lq = dispatch.all_literals(P, G, D, (lq[0], q))
        for a in accs:
            la = P.lookup(a)
            if la is None or (la[0], a) not in D:
                continue
            fa = dict(P.functions[a])[la[0]]
            val = value_param(fa, D[la[0], a])
            for lit in sorted(Lq & dispatch.all_literals(P, G, D, (la[0], a))):
                if (q, a, lit) in OTHER or (a == 'ocp_nlp_get_at_stage' and q == 'ocp_nlp_dims_get_from_attr' and not lit.startswith('qpscaling')):
                    continue
                fam = {}
                for path, fn in ((lq[0], q), (la[0], a)):
                    r, _ = run_one(P, G, D, path, fn, lit)
                    if r is not None:
                        for slot, ts in r[0].contested.items():
                            fam.setdefault(slot[0], set()).update(t[0] for t in ts)
                recs = sorted(fam)
                for combo in itertools.product(*[sorted(fam[r]) for r in recs]):
                    sel = Sel(dict(zip(recs, combo)), fam) if combo else None
                    label = ' with ' + ', '.join(c.split('/')[-1][:-2] for c in combo) if combo else ''
                    c14.CONSTR = c14.BRIDGE = True
                    c14.LABEL = label
                    c14.SOFT = 'nsphi' if 'bgp' in label else 'nsh'
                    one(ctx, P, G, D, lq[0], q, out, la[0], a, val, lit, sel, label)
    ctx.assumptions += ['module dimensions equal the problem dimensions of the same stage (nx, nu, nz, np, ns), as ocp_nlp_dims_set_opt_vars establishes', 'nu = nz = 0 at the terminal stage',
                        'nz = 0 for ERK and discrete dynamics (their dimension setters reject anything else); nx1 = nx for continuous dynamics']
    ctx.floor('sizes compared', 40)


def one(ctx, P, G, D, pq, q, out, pa, a, val, lit, sel, label):
    r, _ = run_one(P, G, D, pq, q, lit, sel, cls=QPCli)
    s, _ = run_one(P, G, D, pa, a, lit, sel, cls=QPCli)
    if r is None or s is None:
        ctx.skip('%s/%s "%s"%s: not interpretable' % (q, a, lit, label))
        return
    if not r[1] or not s[1]:
        ctx.count('names not accepted on both sides')
        return
    if hard(s[0]):
        ctx.skip('%s "%s"%s: %s' % (a, lit, label, hard(s[0])[0][0]))
        return
    if hard(r[0]):
        ctx.skip('%s "%s"%s: %s' % (q, lit, label, hard(r[0])[0][0]))
        return
    setter = any(m.src and c14.is_val(m.src[0], val) for m in s[0].moves)
    for k in SEEDS:
        n = {sizes(st, v, out, k) for v, st in r[1]}
        if len(n) != 1 or None in n:
            ctx.skip('%s "%s"%s: size not determined' % (q, lit, label))
            return
        n = n.pop()
        if setter:
            W = storage_map(s[0].moves, val, k)
            idx = {w[0] for w in W.values() if w[0] is not None}
            allr = set()
            for m in s[0].moves:
                for d, sr, off in c14.entries(m, k):
                    if sr is not None and c14.is_val(sr[0], val):
                        allr.add(sr[1] or (0,))
            idx |= allr
        else:
            idx = set(reads_map(s[0].moves, val, k))
        if not idx:
            ctx.count('no caller elements')
            return
        want = {(i,) for i in range(n)}
        if idx != want:
            m = next((m for m in s[0].moves), None)
            ctx.violation('%s:%s:%s' % (q, a, lit), '%s:%s' % (m.path, m.line), '%s reports %d elements for "%s"%s, %s uses %d (highest index %s); dimensions sample %d'
                          % (q, n, lit, label, a, len(idx), max(idx)[0], k))
            return
    ctx.count('sizes compared')
    ctx.sample('%s("%s")%s: %s caller elements, as %s' % (a, lit, label, 'same', q))
