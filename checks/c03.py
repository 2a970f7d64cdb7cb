"""C03: module selection installs every operation."""
import cfront as F, cgraph, absint as A, re

RULE = ('The functions that turn a user\'s plan into function tables (ocp_nlp_config_create, ocp_qp/dense_qp/sim config creation and what they call) '
        'are interpreted abstractly once per selectable enumerator of each plan field. On every path that returns, every function-pointer slot of '
        'every sub-table that the framework calls through (slot-resolved call graph) must have been assigned; every enumerator must either do so '
        'or terminate as documented-unavailable; different enumerators must install different implementations; and a slot never receives the '
        'function written for another slot of the same table (the function named after that other slot).')

# operations that only exist for optional features; the framework calls them behind the feature's option, which the module does not offer
OPTIONAL = {
    ('ocp_nlp_cost_config', 'memory_set_jac_lag_stat_p_global_ptr'): 'solution sensitivities w.r.t. p_global need EXTERNAL cost',
    ('ocp_nlp_cost_config', 'memory_set_adj_lag_p_global_ptr'): 'solution sensitivities w.r.t. p_global need EXTERNAL cost',
    ('ocp_nlp_cost_config', 'memory_set_seed_ux_ptr'): 'solution sensitivities w.r.t. p_global need EXTERNAL cost',
    ('ocp_nlp_cost_config', 'model_get_y_ref_ptr'): 'cost integration needs a (non)linear least-squares or conl cost',
    ('ocp_nlp_cost_config', 'memory_get_W_chol_ptr'): 'cost integration',
    ('ocp_nlp_cost_config', 'memory_get_W_chol_diag_ptr'): 'cost integration',
    ('ocp_nlp_cost_config', 'get_outer_hess_is_diag_ptr'): 'cost integration',
    ('ocp_nlp_dynamics_config', 'memory_set_adj_lag_p_global_ptr'): 'p_global sensitivities need discrete dynamics',
    ('ocp_nlp_dynamics_config', 'memory_set_seed_ux_ptr'): 'p_global sensitivities need discrete dynamics',
    ('ocp_nlp_dynamics_config', 'memory_set_seed_pi_ptr'): 'p_global sensitivities need discrete dynamics',
    ('ocp_nlp_dynamics_config', 'memory_set'): 'only forwarded to integrators of continuous dynamics',
}
# modules that must nevertheless provide an optional operation (they implement the feature)
PROVIDES = {
    'EXTERNAL': {('ocp_nlp_cost_config', f) for f in ('memory_set_jac_lag_stat_p_global_ptr', 'memory_set_adj_lag_p_global_ptr', 'memory_set_seed_ux_ptr')},
    'NONLINEAR_LS': {('ocp_nlp_cost_config', f) for f in ('model_get_y_ref_ptr', 'memory_get_W_chol_ptr', 'memory_get_W_chol_diag_ptr', 'get_outer_hess_is_diag_ptr')},
    'CONVEX_OVER_NONLINEAR': {('ocp_nlp_cost_config', f) for f in ('model_get_y_ref_ptr', 'memory_get_W_chol_ptr', 'memory_get_W_chol_diag_ptr', 'get_outer_hess_is_diag_ptr')},
    'DISCRETE_MODEL': {('ocp_nlp_dynamics_config', f) for f in ('memory_set_adj_lag_p_global_ptr', 'memory_set_seed_ux_ptr', 'memory_set_seed_pi_ptr')},
    'CONTINUOUS_MODEL': {('ocp_nlp_dynamics_config', 'memory_set')},
}
# module that a selection must install: table path suffix -> source file stem ('*_common' and other helpers of the same module are allowed)
OWN = {
    'SQP': ('', 'ocp_nlp_sqp'), 'SQP_WITH_FEASIBLE_QP': ('', 'ocp_nlp_sqp_with_feasible_qp'), 'SQP_RTI': ('', 'ocp_nlp_sqp_rti'), 'DDP': ('', 'ocp_nlp_ddp'),
    'NO_REGULARIZE': ('->regularize', 'ocp_nlp_reg_noreg'), 'MIRROR': ('->regularize', 'ocp_nlp_reg_mirror'), 'PROJECT': ('->regularize', 'ocp_nlp_reg_project'),
    'PROJECT_REDUC_HESS': ('->regularize', 'ocp_nlp_reg_project_reduc_hess'), 'CONVEXIFY': ('->regularize', 'ocp_nlp_reg_convexify'),
    'GERSHGORIN_LEVENBERG_MARQUARDT': ('->regularize', 'ocp_nlp_reg_glm'),
    'FIXED_STEP': ('->globalization', 'ocp_nlp_globalization_fixed_step'), 'MERIT_BACKTRACKING': ('->globalization', 'ocp_nlp_globalization_merit_backtracking'),
    'FUNNEL_L1PEN_LINESEARCH': ('->globalization', 'ocp_nlp_globalization_funnel'),
    'LINEAR_LS': ('->cost[*]', 'ocp_nlp_cost_ls'), 'NONLINEAR_LS': ('->cost[*]', 'ocp_nlp_cost_nls'), 'CONVEX_OVER_NONLINEAR': ('->cost[*]', 'ocp_nlp_cost_conl'),
    'EXTERNAL': ('->cost[*]', 'ocp_nlp_cost_external'), 'CONTINUOUS_MODEL': ('->dynamics[*]', 'ocp_nlp_dynamics_cont'), 'DISCRETE_MODEL': ('->dynamics[*]', 'ocp_nlp_dynamics_disc'),
    'BGH': ('->constraints[*]', 'ocp_nlp_constraints_bgh'), 'BGP': ('->constraints[*]', 'ocp_nlp_constraints_bgp'),
    'ERK': ('sim', 'sim_erk_integrator'), 'IRK': ('sim', 'sim_irk_integrator'), 'GNSF': ('sim', 'sim_gnsf'), 'LIFTED_IRK': ('sim', 'sim_lifted_irk_integrator'),
    'PARTIAL_CONDENSING_HPIPM': ('->qp_solver', 'ocp_qp_hpipm'), 'PARTIAL_CONDENSING_OSQP': ('->qp_solver', 'ocp_qp_osqp'),
    'PARTIAL_CONDENSING_CLARABEL': ('->qp_solver', 'ocp_qp_clarabel'), 'PARTIAL_CONDENSING_QPDUNES': ('->qp_solver', 'ocp_qp_qpdunes'),
    'FULL_CONDENSING_HPIPM': ('->qp_solver', 'dense_qp_hpipm'), 'FULL_CONDENSING_QPOASES': ('->qp_solver', 'dense_qp_qpoases'), 'FULL_CONDENSING_DAQP': ('->qp_solver', 'dense_qp_daqp'),
}
OWN_STEMS = {v[1] for v in OWN.values()} | {'ocp_qp_partial_condensing', 'ocp_qp_full_condensing'}
UNAVAILABLE = re.compile(r'^INVALID_|_NOT_AVAILABLE$')

# (function, plan location template, enum type)
PLANS = [
    ('ocp_nlp_config_create', 'plan.nlp_solver', 'ocp_nlp_solver_t'),
    ('ocp_nlp_config_create', 'plan.regularization', 'ocp_nlp_reg_t'),
    ('ocp_nlp_config_create', 'plan.globalization', 'ocp_nlp_globalization_t'),
    ('ocp_nlp_config_create', 'plan.ocp_qp_solver_plan.qp_solver', 'ocp_qp_solver_t'),
    ('ocp_nlp_config_create', 'plan.nlp_cost[*]', 'ocp_nlp_cost_t'),
    ('ocp_nlp_config_create', 'plan.nlp_dynamics[*]', 'ocp_nlp_dynamics_t'),
    ('ocp_nlp_config_create', 'plan.nlp_constraints[*]', 'ocp_nlp_constraints_t'),
    ('ocp_nlp_config_create', 'plan.sim_solver_plan[*].sim_solver', 'sim_solver_t'),
    ('sim_config_create', 'plan.sim_solver', 'sim_solver_t'),
    ('ocp_qp_xcond_solver_config_create', 'plan.qp_solver', 'ocp_qp_solver_t'),
]


def star(loc):
    return re.sub(r'\[[^\]]*\]', '[*]', loc)


class C(A.Client):
    loops_at_least_once = True
    inline_depth = 6

    def __init__(self, P, G, bind):
        self.P, self.G = P, G
        self.bind = bind          # starred location suffix -> enumerator value
        self.calls = 0

    def inline(self, path, name, e):
        return not path.endswith('mem.c') and not re.search(r'(calculate_size|assign|malloc|calloc)$', name)

    def on_call(self, e, name, slot, args, n, st):
        if name and re.search(r'config_assign$', name):
            return [(('p', 'CFG'), st)]
        return None

    def on_write(self, e, loc, val, node, st):
        if node.k != 'BinaryOperator' or not node.c:
            return
        l = node.c[0]
        while l.k == 'CStyleCastExpr':
            l = l.c[-1]
        if l.k != 'MemberExpr' or '(*' not in (l.t or ''):
            return
        rec, fld = self.G.member_key(l)
        base = star(loc[:loc.rfind('->')] if '->' in loc else loc[:loc.rfind('.')])
        ev = ('set', base, rec, fld)
        if val[0] == 'fn':
            st.must = st.must | {ev}
            st.may = frozenset(x for x in st.may if not (x[0] == 'fn' and x[1:4] == ev[1:4])) | {('fn', base, rec, fld, val[1])}
        else:
            st.must = st.must - {ev}


class E(A.Engine):
    """loads of the plan's fields are answered from the binding"""

    def load(self, loc, st, node=None):
        b = self.c.bind.get(star(loc))
        if b is not None:
            return ('i', b)
        return A.Engine.load(self, loc, st, node)


def required(P, G, called, base, rec):
    """[(base, rec, field)] of all called slots below a table"""
    out = []
    r = P.rec_of(rec)
    for f, t, s in P.records.get(r, []):
        if '(*' in t:
            if (r, f) in called:
                out.append((base, r, f))
        elif '*' in s:
            r2 = P.rec_of(s)
            if r2 in P.records and any('(*' in q[1] for q in P.records[r2]) and 'config' in r2:
                out += required(P, G, called, '%s->%s%s' % (base, f, '[*]' if '**' in s else ''), s)
    return out


def run(ctx):
    P = F.load()
    G = cgraph.CG(P)
    called = {}
    for k, es in G.calls.items():
        for e in es:
            if e[0] == 'slot':
                called.setdefault(e[1], k)
    ctx.count('called_slots', len(called))
    for fname, loc, ety in PLANS:
        d = P.lookup(fname)
        names = P.enum_types.get(ety)
        if d is None or not names:
            ctx.skip('%s / %s not found' % (fname, ety))
            continue
        path, fn = d
        rty = {'ocp_nlp_config_create': 'ocp_nlp_config', 'sim_config_create': 'sim_config', 'ocp_qp_xcond_solver_config_create': 'ocp_qp_xcond_solver_config'}[fname]
        impl = {}
        for en in names:
            if UNAVAILABLE.search(en):
                continue
            ctx.count('selections')
            bind = {loc: P.enums[en]}
            if loc.startswith('plan.sim_solver_plan'):
                bind['plan.nlp_dynamics[*]'] = P.enums['CONTINUOUS_MODEL']
            elif fname == 'ocp_nlp_config_create' and loc != 'plan.nlp_dynamics[*]':
                # keep the number of combinations small: other selections stay symbolic
                pass
            c = C(P, G, bind)
            e = E(P, c, G)
            e.limit = 3000000
            try:
                outs = e.run(path, fname, [('p', p.n) for p in F.params(fn)])
            except A.Unsupported as ex:
                ctx.skip('%s(%s): %s' % (fname, en, ex))
                continue
            if not outs:
                ctx.violation('%s:%s:unavailable' % (fname, en), '%s:%s' % (path, fn.l), 'selecting %s never yields a usable configuration' % en)
                continue
            must = outs[0][1].must
            may = outs[0][1].may
            for v, s in outs[1:]:
                must &= s.must
                may |= s.may
            base = 'CFG'
            have = {x[1:] for x in must if x[0] == 'set'}
            for b, r, f in required(P, G, called, base, rty):
                if '->sim_solver' in b and en == 'DISCRETE_MODEL':
                    continue
                if '->sim_solver' in b and bind.get('plan.nlp_dynamics[*]') is None and fname == 'ocp_nlp_config_create':
                    continue            # installed only with continuous dynamics; decided by the sim_solver rows
                if (r, f) in OPTIONAL and (r, f) not in PROVIDES.get(en, ()):
                    ctx.count('optional_slots')
                    continue
                ctx.count('obligations')
                if (b, r, f) not in have:
                    ctx.violation('%s:%s:%s.%s' % (fname, en, b, f), '%s:%s' % (path, fn.l),
                                  'selecting %s can leave operation %s of %s unset; it is called by %s' % (en, f, b.replace('CFG', 'config'), called[(r, f)][1]))
            impl[en] = frozenset(x[1:] for x in may if x[0] == 'fn')
            ow = OWN.get(en)
            if ow:
                suf, stem = ow
                qp = ety == 'ocp_qp_solver_t'
                if suf == 'sim':
                    bases = ['CFG' if fname == 'sim_config_create' else 'CFG->dynamics[*]->sim_solver']
                elif qp:
                    bases = ['CFG->qp_solver'] if fname != 'ocp_nlp_config_create' else ['CFG->qp_solver->qp_solver', 'CFG->relaxed_qp_solver->qp_solver']
                else:
                    bases = ['CFG' + suf]
                want = [(b, stem) for b in bases]
                if qp:
                    want += [(b[:b.rindex('->')] + '->xcond', 'ocp_qp_partial_condensing' if en.startswith('PARTIAL') else 'ocp_qp_full_condensing') for b in bases]
                for b, stem in want:
                    for x in may:
                        if x[0] == 'fn' and x[1] == b:
                            dd = P.lookup(x[4])
                            st_ = dd[0].split('/')[-1][:-2] if dd else '?'
                            ctx.count('origins')
                            if st_ != stem and not re.search(r'_common$', st_) and (stem in OWN_STEMS and st_ in OWN_STEMS):
                                ctx.violation('%s:%s:%s.%s<-%s' % (fname, en, b, x[3], x[4]), path, 'selecting %s installs %s of another module (%s) as operation %s' % (en, x[4], st_, x[3]))
            # a slot never receives the function of another slot
            for x in may:
                if x[0] != 'fn':
                    continue
                _, b, r, f, fn_ = x
                fields = [q[0] for q in P.records.get(r, []) if '(*' in q[1]]
                own = fn_ == f or fn_.endswith('_' + f)
                other = [g for g in fields if g != f and fn_.endswith('_' + g) and len(g) > 3]
                ctx.count('installed')
                if other and not own:
                    best = max(other, key=len)
                    ctx.violation('%s.%s=%s' % (r, f, fn_), path, 'operation %s of %s is served by %s, the implementation of %s' % (f, r, fn_, best))
        ens = sorted(impl)
        for i, a in enumerate(ens):
            for b in ens[i + 1:]:
                if impl[a] == impl[b]:
                    ctx.violation('%s:%s=%s' % (fname, a, b), path, 'selections %s and %s install identical implementations' % (a, b))
    ctx.floor('selections', 25)
    ctx.floor('obligations', 1000)


