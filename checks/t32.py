"""T32: single- and multi-phase generated solvers apply the same options."""
import ast, os, random, re
import cfront as F, absint, gen
import t30
from report import AnalysisBroken

RULE = ('The options and their types are read from the initialiser of the Python options class. For a family of option vectors (every option given its own value, switches and selections combined) '
        'the single-phase and the multi-phase templates are expanded for the same problem (equal phases) and type-checked; the creation functions of both are interpreted abstractly with all '
        'helpers inlined, recording for each option the library is told about (per stage where it is set per stage) the value it ends up with, and the fields of the solver plan. '
        'Both records must be equal. Options handed over by only one of the two, or with another value, are reported with the place that hands them over.')
PY = 'interfaces/acados_template/acados_template/acados_ocp_options.py'
# what a description is free to choose for options that are names
NAMES = dict(search_direction_mode=['NOMINAL_QP', 'BYRD_OMOJOKUN', 'FEASIBILITY_QP'], hpipm_mode=['BALANCE', 'SPEED_ABS', 'SPEED', 'ROBUST'], timeout_heuristic=['MAX_CALL', 'MAX_OVERALL', 'LAST', 'AVERAGE', 'ZERO'],
             nlp_qp_tol_strategy=['FIXED_QP_TOL', 'ADAPTIVE_CURRENT_RES_JOINT', 'ADAPTIVE_QPSCALING'], qpscaling_scale_objective=['NO_OBJECTIVE_SCALING', 'OBJECTIVE_GERSHGORIN'],
             qpscaling_scale_constraints=['NO_CONSTRAINT_SCALING', 'INF_NORM'], collocation_type=['GAUSS_LEGENDRE', 'GAUSS_RADAU_IIA', 'EXPLICIT_RUNGE_KUTTA'],
             regularize_method=['NO_REGULARIZE', 'MIRROR', 'PROJECT', 'PROJECT_REDUC_HESS', 'CONVEXIFY', 'GERSHGORIN_LEVENBERG_MARQUARDT'],
             hessian_approx=['EXACT', 'GAUSS_NEWTON'], cost_discretization=['EULER', 'INTEGRATOR'])
FLOATS = {'nlp_solver_tol_min_step_norm', 'qp_solver_tol_stat', 'qp_solver_tol_eq', 'qp_solver_tol_ineq', 'qp_solver_tol_comp', 'globalization_alpha_min', 'globalization_eps_sufficient_descent'}
INTS = {'eval_residual_at_max_iter', 'globalization_full_step_dual'}
SHAPE = {'tf', 'N_horizon', 'shooting_nodes', 'time_steps', 'cost_scaling', 'Tsim', 'nlp_solver_type', 'globalization', 'integrator_type', 'qp_solver', 'custom_templates', 'custom_update_header_filename',
         'custom_update_filename', 'custom_update_copy', 'model_external_shared_lib_dir', 'model_external_shared_lib_name', 'sens_forw_p', 'with_solution_sens_wrt_params', 'with_value_sens_wrt_params',
         'ext_fun_compile_flags', 'sim_method_num_stages', 'sim_method_num_steps', 'sim_method_jac_reuse', 'qp_solver_cond_block_size'}


def options():
    t = ast.parse(open(os.path.join(F.REPO, PY)).read())
    c = next((x for x in t.body if isinstance(x, ast.ClassDef) and x.name == 'AcadosOcpOptions'), None)
    if c is None:
        raise AnalysisBroken('class AcadosOcpOptions not found')
    i = next(x for x in c.body if isinstance(x, ast.FunctionDef) and x.name == '__init__')
    r = {}
    for x in ast.walk(i):
        tgt = x.targets[0] if isinstance(x, ast.Assign) else x.target if isinstance(x, ast.AnnAssign) else None
        if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == 'self' and x.value is not None:
            try:
                r[re.sub(r'^_+', '', tgt.attr)] = ast.literal_eval(x.value)
            except ValueError:
                r[re.sub(r'^_+', '', tgt.attr)] = None
    if len(r) < 80:
        raise AnalysisBroken('only %d options found in AcadosOcpOptions' % len(r))
    return r


def vector(i, opts, R):
    d = {}
    for k, (o, v) in enumerate(sorted(opts.items())):
        if o in SHAPE:
            continue
        if o in NAMES:
            d[o] = NAMES[o][i % len(NAMES[o])] if i < 8 else R.choice(NAMES[o])
        elif isinstance(v, bool):
            d[o] = (i % 2 == 0) if i < 2 else R.random() < 0.5
        elif isinstance(v, int) or o in INTS:
            d[o] = 0 if i > 3 and R.random() < 0.3 else 100 + k
        elif isinstance(v, float) or o in FLOATS:
            d[o] = 0.0 if i > 3 and R.random() < 0.3 else 0.5 + k
        elif o == 'qp_solver_cond_N':
            d[o] = i % 3 + 1
    d['nlp_solver_type'], d['globalization'] = [('SQP', 'MERIT_BACKTRACKING'), ('SQP', 'FUNNEL_L1PEN_LINESEARCH'), ('SQP_RTI', 'FIXED_STEP'), ('SQP_WITH_FEASIBLE_QP', 'FUNNEL_L1PEN_LINESEARCH'),
                                                ('SQP', 'FIXED_STEP'), ('SQP_WITH_FEASIBLE_QP', 'MERIT_BACKTRACKING'), ('DDP', 'MERIT_BACKTRACKING')][i % 7]
    d['qp_solver'] = ['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM', 'FULL_CONDENSING_DAQP', 'PARTIAL_CONDENSING_OSQP', 'FULL_CONDENSING_QPOASES', 'PARTIAL_CONDENSING_QPDUNES', 'PARTIAL_CONDENSING_CLARABEL'][i % 7 if i < 7 else R.randrange(7)]
    d['integrator_type'] = ['ERK', 'IRK', 'GNSF', 'LIFTED_IRK', 'DISCRETE'][i % 5]
    if d['integrator_type'] == 'DISCRETE':
        d['cost_discretization'] = 'EULER'
    # number of steps, stages and Jacobian reuse, for each shooting interval
    same = i % 2
    d['sim_method_num_steps'] = [4, 4, 4] if same else [1, 2, 3]
    d['sim_method_num_stages'] = [3, 3, 3] if same else [2, 3, 4]
    d['sim_method_jac_reuse'] = [1, 1, 1] if same else [1, 0, 1]
    if d['qp_solver'].startswith('PARTIAL') and i % 3 == 1:
        d['qp_solver_cond_block_size'] = [1] * d.get('qp_solver_cond_N', 1) + [3 - d.get('qp_solver_cond_N', 1)]
    else:
        d['qp_solver_cond_block_size'] = None
    return d


class C(t30.C):
    """records the options handed to the library"""
    rec = None

    def on_call(self, e, name, slot, args, node, st):
        if name and re.match(r'ocp_nlp_solver_opts_set', name):
            a = list(args)
            stage = None
            if name.endswith('at_stage') and len(a) == 5:
                stage = a[2][1] if a[2][0] == 'i' else absint.vtext(a[2])
                del a[2]
            f = a[2]
            if f[0] == 's' or (f[0] == 't' and str(f[1]).startswith('"')):
                fld = f[1]
            else:
                lit = F.string_lit(node.c[-2])
                fld = lit if lit is not None else absint.vtext(f)
            self.rec[(str(fld).strip('"'), stage)] = (self.value(e, a[3], st), e.cur().path, node.l, node.c[-1])
            return [(('t', 'void'), st)]
        return super().on_call(e, name, slot, args, node, st)

    def value(self, e, v, st):
        if v[0] == '&':
            x = st.env.get(v[1])
            if x is not None and x[0] in 'if':
                return float(x[1])
            l = v[1]
        elif v[0] == 's' or (v[0] == 'us'):
            return str(v[1])
        else:
            l = absint.vtext(v)
            x = None
        el = []
        for k in range(0, 12):
            y = st.env.get('%s[%d]' % (l, k))
            if y is None:
                break
            el.append(float(y[1]) if y[0] in 'if' else absint.vtext(y))
        if el:
            return tuple(el)
        return absint.vtext(x if x is not None else v)


def record(g):
    """{(option, stage): value}, {plan field: value}"""
    out = []
    for o, u in g['units'].items():
        if u.tu is None or not any(n.endswith('_acados_create_with_discretization') for n in u.tu.functions):
            continue
        path = os.path.join(g['root'], o)
        P = F.Program({path: u.tu}, {})
        if path not in [p for l in P.functions.values() for p, _ in l]:
            path = next(p for l in P.functions.values() for p, f in l)
        pr = t30.pairs(u)
        rec = {}
        st = [absint.St()]
        old = t30.C
        try:
            t30.C = lambda P, unit, a, b: mk(P, unit, a, b, rec)
            st = t30.seq(P, u, path, pr[0][0], st, {}, {})
        finally:
            t30.C = old
        plan = {}
        for s in st:
            for k, v in s.env.items():
                m = re.match(r'obj~ocp_nlp_plan_create~.*?->(.*)', k)
                if m:
                    plan.setdefault(m.group(1), set()).add(absint.vtext(v))
        return rec, plan, u, len(st)
    return None


def mk(P, unit, a, b, rec):
    c = C(P, unit, a, b)
    c.rec = rec
    return c


def same(a, b):
    # an array next to a scalar: the library reads the scalar, the first element
    if isinstance(a, tuple) != isinstance(b, tuple):
        a, b = a if isinstance(a, tuple) else (a,), b if isinstance(b, tuple) else (b,)
        n = min(len(a), len(b))
        return a[:n] == b[:n]
    return a == b


def describe(i, d):
    sd = {'solver_options__' + k: v for k, v in d.items()}
    for k in ('sim_method_num_steps', 'sim_method_num_stages', 'sim_method_jac_reuse'):
        sd['solver_options__' + k] = list(d[k])
    exact = d['hessian_approx'] == 'EXACT'
    k = dict(gen.ZERO, **gen.cost('LINEAR_LS' if d['cost_discretization'] == 'EULER' else 'NONLINEAR_LS'), constraints__has_x0=False, parameter_values=[], p_global_values=[], **gen.sens())
    k.update(dims_ny=2, dims_ny_0=2, dims_ny_e=2, dims_nbx=2, dims_nbx_e=2)
    sd['solver_options__N_horizon'] = 3
    one = gen.ocp('t32_%d' % i, **k, **gen.NORTI, mex=False, **dict(sd, solver_options__time_steps=[0.5, 0.25, 0.25], solver_options__cost_scaling=[0.5, 0.25, 0.25, 1.0],
                                                                      solver_options__shooting_nodes=[0.0, 0.5, 0.75, 1.0]))
    one.files = [f for f in one.files if 'sim_solver' not in f[0] and 'main' not in f[0]]
    ph = {a: b for a, b in k.items() if a.startswith(('dims_', 'cost__', 'constraints__'))}
    two = gen.multi('t32m_%d' % i, [dict(ph, integrator=d['integrator_type'], cdisc=d['cost_discretization'])] * 2, **{a: b for a, b in k.items() if a not in ph}, **sd)
    two.d['mocp_opts.collocation_type'] = [d['collocation_type']] * 2
    two.files = [f for f in two.files if 'main' not in f[0]]
    return one, two


def run(ctx):
    opts = options()
    R = random.Random(7)
    vec, cfgs = [], []
    for i in range(28 if os.environ.get('VERIF_TIER') != 'thorough' else 84):
        d = vector(i, opts, R)
        vec.append(d)
        cfgs += describe(i, d)
    got = gen.load(cfgs)
    told = set()
    seen = set()
    for i, d in enumerate(vec):
        rs = []
        for g in got[2 * i:2 * i + 2]:
            try:
                r = record(g)
            except absint.Unsupported as x:
                r = None
                ctx.skip('%s: %s' % (g['cfg'].name, x))
            if r is None:
                ctx.skip('%s: %s' % (g['cfg'].name, '; '.join('%s: %s' % e for e in g['errors'])[:200] or 'does not type-check (reported by T34)'))
            rs.append(r)
        if None in rs:
            continue
        ctx.count('option_vectors')
        for k in sorted(set(rs[0][0]) | set(rs[1][0]), key=str):
            x, y = rs[0][0].get(k), rs[1][0].get(k)
            told.add(k[0])
            ctx.count('options_compared')
            if x is not None and y is not None and same(x[0], y[0]):
                continue
            f = k[0]
            if f in seen:
                continue
            seen.add(f)
            at = '' if k[1] is None else ' at stage %s' % k[1]
            if x is None or y is None:
                h, g, w, n = (x, got[2 * i], 'single', 'multi') if x else (y, got[2 * i + 1], 'multi', 'single')
                ctx.violation('%s:%s-only' % (f, w), gen.where(g, h[1], h[2]), 'option %s%s is set by the %s-phase solver (to %s) but not by the %s-phase solver generated from the same options' % (f, at, w, h[0], n))
            else:
                ctx.violation('%s:value' % f, gen.where(got[2 * i + 1], y[1], y[2]), 'option %s%s is set to %s by the single-phase solver (%s) but to %s by the multi-phase solver generated from the same options' % (
                    f, at, x[0], gen.where(got[2 * i], x[1], x[2]), y[0]))
        for k in sorted(set(rs[0][1]) | set(rs[1][1])):
            ctx.count('plan_fields_compared')
            if rs[0][1].get(k) != rs[1][1].get(k) and 'plan ' + re.sub(r'\[\d+\]', '', k) not in seen:
                seen.add('plan ' + re.sub(r'\[\d+\]', '', k))
                ctx.violation('plan:' + re.sub(r'\[\d+\]', '', k), rs[1][2].rel, 'the solver plan field %s is %s in the single-phase and %s in the multi-phase solver generated from the same options' % (
                    k, sorted(rs[0][1].get(k, ['not set'])), sorted(rs[1][1].get(k, ['not set']))))
    ctx.count('options', len(told))
    if ctx.counts.get('option_vectors', 0) < 20 or len(told) < 60:
        raise AnalysisBroken('T32: generated creation code or its options not found (%d vectors, %d options)' % (ctx.counts.get('option_vectors', 0), len(told)))
