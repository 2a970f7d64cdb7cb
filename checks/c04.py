"""C04: option fields get a value in opts_initialize_default on every path."""
import cfront as F, cgraph, absint as A, re

RULE = ('For every module that installs an opts_initialize_default operation (plus the option modules called directly: qpscaling, globalization), '
        'the option assignment and default-initialization functions are interpreted abstractly; a field of the option record that any library '
        'function reads must have been assigned on every path, before it is itself read, and every nested option object set up by opts_assign '
        'must be passed to its own opts_initialize_default. Calls to helpers are followed.')

# fields whose documented default is zero and that rely on the zero-filled memory of the creation functions (checked below)
ZERO_DEFAULT = {
    ('struct ocp_nlp_opts', 'fixed_hess'): 'off', ('struct ocp_nlp_opts', 'tau_min'): 'no barrier',
    ('struct ocp_nlp_opts', 'adaptive_levenberg_marquardt_mu0'): 'only read with adaptive Levenberg-Marquardt on',
    ('ocp_nlp_constraints_bgh_opts', 'with_solution_sens_wrt_params_forw'): 'off', ('ocp_nlp_constraints_bgh_opts', 'with_solution_sens_wrt_params_adj'): 'off',
    ('ocp_nlp_dynamics_disc_opts', 'with_solution_sens_wrt_params_adj'): 'off',
    ('ocp_nlp_cost_conl_opts', 'integrator_cost'): 'off', ('ocp_nlp_cost_nls_opts', 'integrator_cost'): 'off',
    ('struct ocp_qp_full_condensing_opts_', 'ric_alg'): 'square-root off', ('struct ocp_qp_partial_condensing_opts_', 'ric_alg'): 'square-root off',
    ('struct ocp_qp_partial_condensing_opts_', 'block_size_was_set'): 'no user block sizes; reset when the memory is laid out',
    ('struct ocp_qp_osqp_opts_', 'print_level'): 'silent',
    ('sim_opts', 'sens_forw_p'): 'off', ('sim_opts', 'cost_computation'): 'off', ('sim_opts', 'cost_type'): 'only read with cost_computation on',
    ('sim_opts', 'newton_tol'): 'no early Newton termination', ('sim_opts', 'exact_z_output'): 'off',
}
# fields the module inherits from the shared record but never evaluates (set when the options of that integrator are set up)


class C(A.Client):
    loops_at_least_once = True
    inline_depth = 5

    def __init__(self, P, G, base, rec):
        self.P, self.G, self.base, self.rec = P, G, base, rec
        self.early = set()

    def inline(self, path, name, e):
        return not path.endswith('mem.c') and not re.search(r'(calculate_size|opts_initialize_default|opts_assign)$', name)

    def on_call(self, e, name, slot, args, n, st):
        nm = name or (slot[1] if slot else '')
        if re.search(r'(opts|args)_initialize_default$|opts_initialize_default|_opts_assign$|^opts_assign$|arg_set_default|set_default|Options_setToDefault|default_settings|DefaultSettings|setupDefaultOptions', nm):
            for a in args:
                t = A.vtext(a)
                p = re.sub(r'\[[^\]]*\]', '[*]', t.lstrip('&'))
                st.must = st.must | {('ncall', p)}
            if nm.endswith('opts_assign'):
                return [(('t', 'nested:%d:%s' % (n.l, A.vtext(args[-1]) if args else '')), st)]
            if name and self.P.lookup(name, e.cur().path) is not None and len(args) and args[-1] == ('p', self.base):
                return None if not name.endswith('opts_initialize_default') else self._inl(e, name, args, n, st)
        # external initialisers write through pointers passed to them
        for a in args:
            if a[0] in ('&', 'p'):
                st.must = st.must | {('ext', re.sub(r'\[[^\]]*\]', '[*]', a[1]))}
        return None

    def _inl(self, e, name, args, n, st):
        d = self.P.lookup(name, e.cur().path)
        return e.call_fn(d[0], name, d[1], args, st)

    def field(self, loc):
        for pre in (self.base + '->', self.base + '.', self.base + '[0].'):
            if loc.startswith(pre):
                m = re.match(r'\w+', loc[len(pre):])
                return m.group(0) if m else None
        return None

    def on_write(self, e, loc, val, node, st):
        f = self.field(loc)
        if f:
            st.must = st.must | {('w', f)}

    def on_load(self, e, loc, node, st):
        f = self.field(loc)
        if f and node.k == 'MemberExpr' and ('w', f) not in st.must and '*' not in (node.t or '') and '[' not in (node.t or '') and not self._is_lhs(node):
            self.early.add((f, e.cur().name, node.l))

    def _is_lhs(self, n):
        p = n.p
        return False


def opts_record(P, fn, idx=None):
    """record of the options object: type of the first local initialised from / parameter opts_"""
    ps = F.params(fn)
    for p in reversed(ps):
        if p.n and p.n.startswith('opts'):
            r = P.rec_of(p.t)
            if r in P.records:
                return r, p.n
            for a in fn.walk():
                if a.k == 'VarDecl' and a.c:
                    x = F.strip_casts(a.c[-1])
                    if x.k == 'DeclRefExpr' and x.r and x.r[3] == p.id:
                        r = P.rec_of(a.t)
                        if r in P.records:
                            return r, p.n
            return None, p.n
    return None, None


def reads(P):
    """(record, field) read somewhere (not as assignment target)"""
    out = {}
    for name, lst in P.functions.items():
        for path, fn in lst:
            if re.search(r'opts_(initialize_default|assign|calculate_size)', name):
                continue
            for a in fn.walk():
                if a.k != 'MemberExpr' or not a.c:
                    continue
                p = a.p
                if p is not None and p.k == 'BinaryOperator' and p.op == '=' and p.c[0] is a:
                    continue
                out.setdefault((P.rec_of(a.c[0].t), a.n), {}).setdefault(path, name)
    return out


def run(ctx):
    P = F.load()
    G = cgraph.CG(P)
    R = reads(P)
    fns = set()
    for slot, fs in G.slots.items():
        if slot[1] == 'opts_initialize_default':
            fns |= {f for f in fs if f[0] != '<ext>'}
    for n, l in P.functions.items():
        for p, f in l:
            if re.search(r'opts_initialize_default$', n):
                fns.add((p, n))
    asg = {}
    for n, l in P.functions.items():
        for p, f in l:
            if n.endswith('_opts_assign'):
                asg.setdefault(n[:-len('_assign')], (p, n, f))
    for path, name in sorted(fns):
        fn = dict(P.functions[name])[path]
        rec, pn = opts_record(P, fn)
        if rec is None:
            ctx.skip('%s: option record not identified' % name)
            continue
        ctx.count('modules')
        args = [('p', 'OPTS') if p.n == pn else ('p', p.n) for p in F.params(fn)]
        c = C(P, G, 'OPTS', rec)
        e = A.Engine(P, c, G)
        try:
            outs = e.run(path, name, args)
        except A.Unsupported as ex:
            ctx.skip('%s: %s' % (name, ex))
            continue
        if not outs:
            continue
        must = outs[0][1].must
        for v, s in outs[1:]:
            must &= s.must
        wr = {x[1] for x in must if x[0] == 'w'}
        ext = {x[1] for x in must if x[0] in ('ext', 'ncall')}
        # what opts_assign sets up (pointers into the block)
        a = asg.get(name[:-len('_initialize_default')])
        ptr, nested = set(), set()
        if a:
            ca = C(P, G, None, rec)
            for x in a[2].walk():
                if x.k == 'BinaryOperator' and x.op == '=' and x.c[0].k in ('MemberExpr', 'ArraySubscriptExpr'):
                    m = x.c[0]
                    while m.k == 'ArraySubscriptExpr':
                        m = m.c[0]
                    if m.k == 'MemberExpr' and P.rec_of(m.c[0].t) == rec:
                        ptr.add(m.n)
                        rhs = F.strip_casts(x.c[1])
                        if rhs.k == 'CallExpr':
                            t = F.callee(rhs) or ''
                            s_ = F.strip_casts(rhs.c[0])
                            if t.endswith('opts_assign') or (s_.k == 'MemberExpr' and s_.n == 'opts_assign'):
                                nested.add(m.n)
                elif x.k == 'CallExpr' and re.match(r'(assign_and_advance|align)', F.callee(x) or '') or (x.k == 'CallExpr' and (F.callee(x) or '').startswith('d_')):
                    for y in x.c[1:]:
                        y = F.strip_casts(y)
                        if y.k == 'UnaryOperator' and y.op == '&':
                            y = y.c[0]
                        while y.k == 'ArraySubscriptExpr':
                            y = y.c[0]
                        if y.k == 'MemberExpr' and P.rec_of(y.c[0].t) == rec:
                            ptr.add(y.n)
        owners = {q[0] for q in fns if q != (path, name) and opts_record(P, dict(P.functions[q[1]])[q[0]])[0] == rec}
        for f, t, s in P.records[rec]:
            rd = {p_: n_ for p_, n_ in R.get((rec, f), {}).items() if p_ == path or p_ not in owners}
            if not rd:
                continue
            ctx.count('fields')
            ispath = lambda q: q == 'OPTS->' + f or q.startswith(('OPTS->%s[' % f, 'OPTS->%s->' % f, 'OPTS->%s.' % f))
            if f in wr or any(ispath(q) for q in ext):
                if f in nested and not any(x[0] == 'ncall' and ispath(x[1]) for x in must):
                    ctx.violation('%s:%s:nested' % (name, f), '%s:%s' % (path, fn.l), 'nested options %s of %s are not default-initialized' % (f, rec))
                continue
            if f in nested:
                ctx.violation('%s:%s:nested' % (name, f), '%s:%s' % (path, fn.l), 'nested options %s of %s are not default-initialized on every path' % (f, rec))
                continue
            if f in ptr and ('*' in t):
                continue      # pointer into the block; its contents are a separate object
            if (rec, f) in ZERO_DEFAULT:
                ctx.count('zero_default')
                continue
            ctx.violation('%s:%s' % (name, f), '%s:%s' % (path, fn.l), 'option %s of %s is read by %s but has no default on every path of %s' % (f, rec, sorted(rd.values())[0], name))
        for f, g, l in sorted(c.early):
            ctx.violation('%s:%s:early' % (name, f), '%s:%s' % (path, l), 'option %s of %s is read in %s before it has been given a default' % (f, rec, g))
        ctx.sample('%s: %d fields of %s assigned' % (name, len(wr), rec))
    zero_fill(ctx, P, G)
    ctx.floor('creations', 4)
    ctx.floor('modules', 30)
    ctx.floor('fields', 200)


class Z(A.Client):
    inline_depth = 2

    def __init__(self):
        self.bad = []
        self.n = 0

    def on_call(self, e, name, slot, args, n, st):
        if name in ('calloc', 'acados_calloc'):
            return [(('p', 'ZERO'), st)]
        if name in ('malloc', 'acados_malloc', 'realloc', 'aligned_alloc'):
            return [(('p', 'RAW'), st)]
        nm = name or (slot[1] if slot else '')
        if nm.endswith('opts_assign'):
            for a in args:
                if 'RAW' in A.vtext(a):
                    self.bad.append((n, nm))
                if 'ZERO' in A.vtext(a):
                    self.n += 1
        if name == 'memset' and len(args) == 3 and args[1] == ('i', 0) and args[0] == ('p', 'RAW'):
            for k, v in list(st.env.items()):
                if v == ('p', 'RAW'):
                    st.env[k] = ('p', 'ZERO')
        return None


def zero_fill(ctx, P, G):
    """option objects are created in zero-filled memory"""
    for name, lst in sorted(P.functions.items()):
        for path, fn in lst:
            if not any(a.k == 'CallExpr' and ((F.callee(a) or '').endswith('opts_assign') or (a.c and F.strip_casts(a.c[0]).k == 'MemberExpr' and F.strip_casts(a.c[0]).n == 'opts_assign')) for a in fn.walk()):
                continue
            if not any(a.k == 'CallExpr' and re.search(r'(m|c)alloc$', F.callee(a) or '') for a in fn.walk()):
                continue
            z = Z()
            try:
                A.Engine(P, z, G).run(path, name, [('p', p.n) for p in F.params(fn)])
            except A.Unsupported as ex:
                ctx.skip('%s: %s' % (name, ex))
                continue
            ctx.count('creations', z.n)
            for n, nm in z.bad:
                ctx.violation('%s:zero' % name, '%s:%s' % (path, n.l), '%s lays out the options in memory that was not zero-filled; %d options rely on zero defaults' % (name, len(ZERO_DEFAULT)))
    d = P.lookup('acados_calloc')
    if d is None or not any(a.k == 'CallExpr' and F.callee(a) in ('calloc', 'memset') for a in d[1].walk()):
        ctx.violation('acados_calloc', 'acados/utils/mem.c', 'acados_calloc no longer zero-fills')
