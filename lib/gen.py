"""Generated code: expansions of the C templates for a fixed family of problem descriptions, type-checked by clang."""
import os, re, hashlib, pickle, shutil, subprocess, json
from concurrent.futures import ProcessPoolExecutor
import cfront as F, render, tera, templates
from render import RenderError

CT = 'interfaces/acados_template/acados_template/c_templates_tera/'
MT = CT + 'matlab_templates/'
CU = 'interfaces/acados_template/acados_template/custom_update_templates/'
GEN = os.path.join(F.CACHE, 'gen')


def simulink_keys(kind):
    r = set()
    for f in sorted(os.listdir(os.path.join(F.REPO, MT))):
        if f.endswith('.in.c'):
            r |= set(re.findall(r'simulink_opts\.%s\.(\w+)' % kind, open(os.path.join(F.REPO, MT, f)).read()))
    return sorted(r)


def base():
    d = dict(name='ocp_x', problem_class='OCP', custom_update_filename='', custom_update_header_filename='')
    d['model.name'] = 'mod_x'
    d['json_file'] = 'x.json'
    for k in ('dyn_disc_fun', 'dyn_disc_fun_jac', 'dyn_disc_fun_jac_hess', 'dyn_disc_params_jac', 'dyn_impl_dae_fun',
              'dyn_impl_dae_fun_jac', 'dyn_impl_dae_jac', 'dyn_impl_dae_jac_p'):
        d['model.' + k] = 'user_' + k
    d['model.dyn_ext_fun_type'] = 'casadi'
    d['model.gnsf_model.nontrivial_f_LO'] = 1
    d['model.gnsf_model.purely_linear'] = 0
    d['model.dyn_generic_source'] = 'dyn.c'
    for s in ('', '_0', '_e'):
        d['cost.cost_ext_fun_type' + s] = 'casadi'
        d['cost.cost_function_ext_cost' + s] = 'user_ext_cost' + s
        d['cost.cost_source_ext_cost' + s] = 'cost.c'
        d['cost.cost_type' + s] = 'NONLINEAR_LS'
        d['constraints.constr_type' + s] = 'BGH'
    d['constraints.has_x0'] = True
    dm = dict(nx=3, nu=2, nz=1, np=2, np_global=2, n_global_data=3, ny=4, ny_0=5, ny_e=3, nr=2, nr_0=2, nr_e=2,
              nh=3, nh_0=2, nh_e=2, nphi=0, nphi_0=0, nphi_e=0, nbx=2, nbx_0=3, nbx_e=2, nbu=2, nbxe_0=3, ng=2, ng_e=2,
              nsbx=1, nsbu=1, nsg=1, nsh=2, nsphi=0, nsbx_e=1, nsg_e=1, nsh_e=1, nsphi_e=0, nsh_0=1, nsphi_0=0)
    set_dims(d, dm)
    so = dict(N_horizon=4, integrator_type='IRK', nlp_solver_type='SQP', qp_solver='PARTIAL_CONDENSING_HPIPM', hessian_approx='EXACT',
              regularize_method='PROJECT', globalization='MERIT_BACKTRACKING', cost_discretization='EULER', collocation_type='GAUSS_LEGENDRE',
              hpipm_mode='BALANCE', qp_solver_cond_N=2, qp_solver_cond_ric_alg=1, qp_solver_ric_alg=1, qp_solver_warm_start=1,
              nlp_qp_tol_strategy='FIXED_QP_TOL', search_direction_mode='NOMINAL_QP', timeout_heuristic='LAST', as_rti_level=4,
              sim_method_jac_reuse=lambda p: 1, sim_method_num_steps=lambda p: 2, sim_method_num_stages=lambda p: 3,
              sim_method_newton_iter=3, qp_solver_iter_max=50, nlp_solver_max_iter=100, print_level=0,
              custom_update_filename='', custom_update_header_filename='', adaptive_levenberg_marquardt_lam=5.0,
              nlp_solver_warm_start_first_qp=True, nlp_solver_warm_start_first_qp_from_nlp=True, ext_fun_compile_flags='-O2',
              custom_templates=[], ext_cost_num_hess=1, as_rti_iter=1, fixed_hess=0, num_threads_in_batch_solve=1,
              qpscaling_scale_objective='OBJECTIVE_GERSHGORIN', qpscaling_scale_constraints='INF_NORM', anderson_activation_threshold=10.0)
    for k, v in so.items():
        d['solver_options.' + k] = v
    d['solver_options.time_steps'] = [0.5, 0.25, 0.25, 0.5]
    d['solver_options.cost_scaling'] = [0.5, 0.25, 0.25, 0.5, 1.0]
    d['solver_options.shooting_nodes'] = [0.0, 0.5, 0.75, 1.0, 1.5]
    d['solver_options.qp_solver_cond_block_size'] = [2, 1, 1]
    d['parameter_values'] = [0.1, 0.2]
    d['p_global_values'] = [0.0, 0.3]
    d['simulink_opts.customizable_inputs'] = []
    d['prefix'] = []
    for k in ('inputs', 'outputs'):
        d['simulink_opts.' + k] = {x: 1 for x in simulink_keys(k)}
    d['simulink_opts.samplingtime'] = 't0'
    d['mocp_opts.integrator_type'] = lambda p: 'IRK'
    d['mocp_opts.collocation_type'] = lambda p: 'GAUSS_LEGENDRE'
    d['mocp_opts.cost_discretization'] = lambda p: 'EULER'
    return d


def set_dims(d, dm):
    for k, v in dm.items():
        d['dims.' + k] = v
    g = lambda k: d['dims.' + k]
    if 'ns' not in dm:
        d['dims.ns'] = g('nsbx') + g('nsbu') + g('nsg') + g('nsh') + g('nsphi')
        d['dims.ns_0'] = g('nsbu') + g('nsg') + g('nsh_0') + g('nsphi_0')
        d['dims.ns_e'] = g('nsbx_e') + g('nsg_e') + g('nsh_e') + g('nsphi_e')
    z = {k[5:]: v for k, v in d.items() if k.startswith('dims.')}
    rev = bool(d.get('rev'))
    nm = dict()
    for s in ('', '_0', '_e'):
        n = sum(z.get(k + s, z.get(k, 0) if k in ('nbu', 'ng') and s == '_0' else 0) for k in ('nbx', 'nbu', 'ng', 'nh', 'nphi'))
        d['len:constraints.idxs_rev' + s] = n if rev else 0
    for a, k in (('lbx', 'nbx'), ('ubx', 'nbx'), ('lbu', 'nbu'), ('ubu', 'nbu'), ('lg', 'ng'), ('ug', 'ng'), ('lh', 'nh'), ('uh', 'nh')):
        for s in ('', '_0', '_e'):
            if k + s in z:
                d['len:constraints.%s%s' % (a, s)] = z[k + s]


class Config:
    def __init__(self, name, files, **over):
        self.name = name
        self.files = files
        self.d = base()
        dims = {k[5:].replace('__', '.'): v for k, v in over.items() if k.startswith('dims_')}
        self.d['rev'] = over.pop('rev', False)
        for k, v in over.items():
            if not k.startswith('dims_'):
                self.d[k.replace('__', '.')] = v
        set_dims(self.d, {**{k[5:]: v for k, v in self.d.items() if k.startswith('dims.') and k[5:] not in ('ns', 'ns_0', 'ns_e')}, **dims})


SINGLE = [(CT + 'acados_solver.in.c', 'acados_solver_ocp_x.c'), (CT + 'acados_solver.in.h', 'acados_solver_ocp_x.h'), (CT + 'main.in.c', 'main_ocp_x.c')]
MODEL = [(CT + 'model.in.h', 'mod_x_model/mod_x_model.h')]
CONSTR = [(CT + 'constraints.in.h', 'mod_x_constraints/mod_x_constraints.h')]
COST = [(CT + 'cost.in.h', 'mod_x_cost/mod_x_cost.h')]
SIM = [(CT + 'acados_sim_solver.in.c', 'acados_sim_solver_ocp_x.c'), (CT + 'acados_sim_solver.in.h', 'acados_sim_solver_ocp_x.h'), (CT + 'main_sim.in.c', 'main_sim_ocp_x.c')]
PG = [(CT + 'p_global_precompute_fun.in.h', 'ocp_x_p_global_precompute_fun.h')]
MEX = [(MT + 'acados_solver_sfun.in.c', 'acados_solver_sfunction_ocp_x.c')] + \
      [(MT + 'acados_mex_%s.in.c' % k, 'acados_mex_%s_ocp_x.c' % k) for k in ('create', 'free', 'solve', 'set')]
MEXSIM = [(MT + 'acados_sim_solver_sfun.in.c', 'acados_sim_solver_sfunction_ocp_x.c')]
SIMMEX = [(MT + 'acados_sim_%s.in.c' % k, 'acados_sim_%s_ocp_x.c' % k) for k in ('create', 'free', 'set')]
ZORO = [(CU + 'custom_update_function_zoro_template.in.c', 'custom_update_function.c'), (CU + 'custom_update_function_zoro_template.in.h', 'custom_update_function.h')]


def ocp(name, **o):
    c = Config(name, [], **o)
    d = c.d
    c.files = list(SINGLE)
    g = d.get
    if g('solver_options.N_horizon') > 0:
        c.files += MODEL
        if g('solver_options.integrator_type') != 'DISCRETE':
            c.files += SIM
    if any(g('dims.' + k) > 0 for k in ('nh', 'nh_0', 'nh_e', 'nphi', 'nphi_0', 'nphi_e')):
        c.files += CONSTR
    if any(g('cost.cost_type' + s) != 'LINEAR_LS' for s in ('', '_0', '_e')):
        c.files += COST
    if g('dims.n_global_data') > 0:
        c.files += PG
    if o.get('zoro'):
        c.files += ZORO
    if o.get('mex', True):
        c.files += MEX
        if g('custom_update_filename'):
            c.files.append((MT + 'acados_mex_custom_update.in.c', 'acados_mex_custom_update_ocp_x.c'))
        if o.get('zoro'):
            c.files.append((MT + 'acados_mex_get_zoRO_Pk.in.c', 'acados_mex_get_zoRO_Pk_ocp_x.c'))
        else:
            d['simulink_opts.outputs'] = {**d['simulink_opts.outputs'], 'zoRO_Pk_matrices': 0, 'zoRO_K_matrices': 0}
        if g('solver_options.N_horizon') > 0 and g('solver_options.integrator_type') != 'DISCRETE':
            c.files += MEXSIM
    return c


BGP = {'constraints__constr_type': 'BGP', 'constraints__constr_type_0': 'BGP', 'constraints__constr_type_e': 'BGP',
       'dims_nh': 0, 'dims_nh_0': 0, 'dims_nh_e': 0, 'dims_nsh': 0, 'dims_nsh_0': 0, 'dims_nsh_e': 0,
       'dims_nphi': 2, 'dims_nphi_0': 2, 'dims_nphi_e': 2, 'dims_nsphi': 1, 'dims_nsphi_0': 1, 'dims_nsphi_e': 1}
ZERO = {'dims_' + k: 0 for k in ('nz np np_global n_global_data ny ny_0 ny_e nr nr_0 nr_e nh nh_0 nh_e nphi nphi_0 nphi_e nbx nbx_0 nbx_e nbu nbxe_0 '
                                 'ng ng_e nsbx nsbu nsg nsh nsphi nsbx_e nsg_e nsh_e nsphi_e nsh_0 nsphi_0').split()}


def cost(t, t0=None, te=None):
    return {'cost__cost_type': t, 'cost__cost_type_0': t0 or t, 'cost__cost_type_e': te or t}


def so(**k):
    return {'solver_options__' + a: b for a, b in k.items()}


def sens(f=False, a=False, v=False, p=False):
    return {'code_gen_options__with_solution_sens_wrt_params_forw': f, 'code_gen_options__with_solution_sens_wrt_params_adj': a,
            'code_gen_options__with_value_sens_wrt_params': v, 'code_gen_options__sens_forw_p': p}


NOPORTS = {k: 0 for k in ('rti_phase', 'zoRO_payload', 'ignore_inits')}


def ports(**off):
    d = {'simulink_opts__inputs': {**{x: 1 for x in simulink_keys('inputs')}, **off},
         'simulink_opts__outputs': {x: 1 for x in simulink_keys('outputs')}}
    return d


NORTI = ports(rti_phase=0, zoRO_payload=0)


def one(name, dims, **o):
    """everything absent except one kind of constraint / parameter"""
    k = dict(ZERO)
    k.update({'dims_' + a: b for a, b in dims.items()})
    k.update(cost('LINEAR_LS'))
    k.update(so(integrator_type='ERK', hessian_approx='GAUSS_NEWTON', with_batch_functionality=False))
    k.update(sens())
    k.update(NORTI)
    k['constraints__has_x0'] = False
    k['parameter_values'] = [0.0] * dims.get('np', 0)
    k['p_global_values'] = [0.0] * dims.get('np_global', 0)
    k['mex'] = False
    k.update(o)
    return ocp('only_' + name, **k)


MULTI = [(CT + 'acados_multi_solver.in.c', 'acados_solver_ocp_x.c'), (CT + 'acados_multi_solver.in.h', 'acados_solver_ocp_x.h'), (CT + 'main_multi.in.c', 'main_ocp_x.c')]


def len_(a, e):
    return 0 if (a[1:] == 'bu' and e) else 2


ZOR = {'custom_update_filename': 'custom_update_function.c', 'custom_update_header_filename': 'custom_update_function.h',
       'solver_options__custom_update_filename': 'custom_update_function.c', 'solver_options__custom_update_header_filename': 'custom_update_function.h',
       'zoro_description__feedback_optimization_mode': 'RICCATI_BARRIER_1', 'simulink_opts__zoro_iterations': 2,
       'zoro_description__nonlinear_uncertainty_mode': 'NONE', 'zoro_description__nw': 2, 'zoro_description__input_P0': False,
       'zoro_description__input_Sigma_p': False,
       **{'zoro_description__n%s%s_t' % (a, e): len_(a, e) for a in ('lbx', 'ubx', 'lbu', 'ubu', 'lg', 'ug', 'lh', 'uh') for e in ('', '_e')}}


def zor(**k):
    return dict(ZOR, **{'zoro_description__' + a: b for a, b in k.items()})


def simonly(name, integ, p):
    c = Config(name, [], problem_class='SIM', code_gen_options__sens_forw_p=bool(p), **so(integrator_type=integ),
               **({'dims_np': 2} if p else {'dims_np': 0, 'dims_nz': 0, 'dims_n_global_data': 0, 'dims_np_global': 0, 'parameter_values': []}))
    c.files = SIM + MODEL + SIMMEX + MEXSIM + (PG if c.d['dims.n_global_data'] else [])
    return c


def multi(name, phases, **common):
    N_list = [2, 1, 2, 1][:len(phases)]
    top = Config(name, [], **{k: v for k, v in common.items() if not k.startswith('dims_')})
    d = top.d
    d['problem_class'] = 'MOCP'
    for k in [k for k in d if k.startswith(('dims.', 'cost.', 'constraints.', 'model.', 'len:'))]:
        del d[k]
    N = sum(N_list)
    d['n_phases'] = len(phases)
    d['N_horizon'] = d['solver_options.N_horizon'] = N
    d['N_list'] = N_list
    d['start_idx'] = [sum(N_list[:i]) for i in range(len(phases))]
    d['end_idx'] = [sum(N_list[:i + 1]) for i in range(len(phases))]
    d['cost_start_idx'] = [1] + d['end_idx']
    d['solver_options.time_steps'] = ([0.25] * 6 if 'solver_options__time_steps' in common else [0.5, 0.25, 0.25, 0.5, 0.25, 0.5])[:N]
    d['solver_options.cost_scaling'] = [0.5, 0.25, 0.25, 0.5, 0.25, 0.5][:N] + [1.0]
    d['solver_options.shooting_nodes'] = [0.0, 0.5, 0.75, 1.0, 1.5, 1.75, 2.25][:N + 1]
    d['parameter_values'] = []
    d['len:model'] = d['len:cost'] = d['len:constraints'] = d['len:phases_dims'] = len(phases)
    top.files = list(MULTI)
    integ, colloc, cdisc = [], [], []
    for i, ph in enumerate(phases):
        ph = dict(ph)
        integ.append(ph.pop('integrator', 'ERK'))
        colloc.append('GAUSS_RADAU_IIA' if i else 'GAUSS_LEGENDRE')
        cdisc.append(ph.pop('cdisc', 'EULER'))
        c = Config('phase', [], **{**common, **ph})
        q = c.d
        q['model.name'] = 'mod_x_%d' % i
        q['name'] = 'mocp_%d' % i
        q['solver_options.integrator_type'] = integ[-1]
        for k, v in q.items():
            for a in ('cost.', 'constraints.', 'model.'):
                if k.startswith(a):
                    d['%s[%d].%s' % (a[:-1], i, k[len(a):])] = v
                if k.startswith('len:' + a):
                    d['len:%s[%d].%s' % (a[:-1], i, k[4 + len(a):])] = v
            if k == 'dims.nx' and i:
                d['phases_dims[%d].nx_next' % (i - 1)] = v
            if k.startswith('dims.'):
                d['phases_dims[%d].%s' % (i, k[5:])] = v
        d['parameter_values'].append([0.1 if j % 2 else 0.0 for j in range(q['dims.np'])])
        top.files.append((MODEL[0][0], MODEL[0][1].replace('mod_x', 'mod_x_%d' % i), q))
        if any(q['dims.' + k] > 0 for k in ('nh', 'nh_0', 'nh_e', 'nphi', 'nphi_0', 'nphi_e')):
            top.files.append((CONSTR[0][0], CONSTR[0][1].replace('mod_x', 'mod_x_%d' % i), q))
        if any(q['cost.cost_type' + s] != 'LINEAR_LS' for s in ('', '_0', '_e')):
            top.files.append((COST[0][0], COST[0][1].replace('mod_x', 'mod_x_%d' % i), q))
    d['phases_dims[%d].nx_next' % (len(phases) - 1)] = q['dims.nx']
    d['mocp_opts.integrator_type'] = integ
    d['mocp_opts.collocation_type'] = colloc
    d['mocp_opts.cost_discretization'] = cdisc
    if d['phases_dims[0].np_global'] > 0:
        top.files += PG
    if common.get('mex'):
        top.files += MEX
    return top


def configs():
    L = []
    no = sens()
    L.append(ocp('irk_nls_exact', **no, **NORTI))
    L.append(ocp('disc_ext_sens', **sens(1, 1, 1, 0), **NORTI, **cost('EXTERNAL'), **so(integrator_type='DISCRETE', nlp_solver_type='SQP', qp_solver='FULL_CONDENSING_HPIPM')))
    L.append(ocp('disc_ext_adj_gn', **sens(0, 1, 0, 0), **NORTI, **cost('EXTERNAL'), **so(integrator_type='DISCRETE', hessian_approx='GAUSS_NEWTON', nlp_solver_type='SQP_RTI', globalization='FIXED_STEP')))
    L.append(ocp('disc_ls_forw', **sens(1, 0, 0, 0), **NORTI, **cost('LINEAR_LS'), **so(integrator_type='DISCRETE', hessian_approx='GAUSS_NEWTON')))
    L.append(ocp('erk_ls_rti', **sens(p=1), **ports(zoRO_payload=0), **cost('LINEAR_LS'),
                 **so(integrator_type='ERK', hessian_approx='GAUSS_NEWTON', nlp_solver_type='SQP_RTI', globalization='FIXED_STEP', qp_solver='FULL_CONDENSING_QPOASES')))
    L.append(ocp('erk_nls_exact', **sens(p=1), **NORTI, **so(integrator_type='ERK', qp_solver='FULL_CONDENSING_DAQP', regularize_method='MIRROR')))
    L.append(ocp('gnsf_conl', **no, **NORTI, **cost('CONVEX_OVER_NONLINEAR'), **so(integrator_type='GNSF', hessian_approx='GAUSS_NEWTON',
                 nlp_solver_type='SQP_WITH_FEASIBLE_QP', globalization='FUNNEL_L1PEN_LINESEARCH', qp_solver='PARTIAL_CONDENSING_OSQP', regularize_method='CONVEXIFY')))
    L.append(ocp('gnsf_linear', **no, **NORTI, **cost('NONLINEAR_LS'), model__gnsf_model__purely_linear=1, model__gnsf_model__nontrivial_f_LO=0,
                 **so(integrator_type='GNSF', hessian_approx='GAUSS_NEWTON', cost_discretization='INTEGRATOR')))
    L.append(ocp('irk_conl_bgp', **no, **NORTI, **cost('CONVEX_OVER_NONLINEAR'), **BGP, **so(cost_discretization='INTEGRATOR', hessian_approx='GAUSS_NEWTON',
                 qp_solver='PARTIAL_CONDENSING_QPDUNES')))
    L.append(ocp('lifted_irk_nls', **no, **NORTI, **so(integrator_type='LIFTED_IRK', hessian_approx='GAUSS_NEWTON', qp_solver='PARTIAL_CONDENSING_CLARABEL', cost_discretization='INTEGRATOR')))
    L.append(ocp('lifted_irk_generic', **no, **NORTI, dims_nz=0, model__dyn_ext_fun_type='generic', **{'cost__cost_ext_fun_type' + s: 'generic' for s in ('', '_0', '_e')},
                 **cost('EXTERNAL'), **so(integrator_type='DISCRETE', nlp_solver_type='DDP', globalization='MERIT_BACKTRACKING')))
    L.append(ocp('mixed_1', **no, **NORTI, **cost('LINEAR_LS', 'EXTERNAL', 'NONLINEAR_LS'), constraints__constr_type_0='BGP', constraints__constr_type_e='BGP',
                 dims_nh_0=0, dims_nsh_0=0, dims_nphi_0=2, dims_nsphi_0=1, dims_nh_e=0, dims_nsh_e=0, dims_nphi_e=2, dims_nsphi_e=1))
    L.append(ocp('mixed_2', **no, **NORTI, **cost('EXTERNAL', 'NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR'), constraints__constr_type='BGP', **so(hessian_approx='GAUSS_NEWTON'),
                 dims_nh=0, dims_nsh=0, dims_nphi=2, dims_nsphi=1))
    L.append(ocp('mixed_3', **no, **NORTI, **cost('NONLINEAR_LS', 'CONVEX_OVER_NONLINEAR', 'LINEAR_LS'), constraints__has_x0=False, **so(hessian_approx='GAUSS_NEWTON')))
    L.append(ocp('mixed_4', **no, **NORTI, **cost('CONVEX_OVER_NONLINEAR', 'LINEAR_LS', 'EXTERNAL'), **so(hessian_approx='GAUSS_NEWTON', with_batch_functionality=False)))
    L.append(ocp('idxs_rev', **no, **NORTI, rev=True, dims_nsbx=0, dims_nsbu=0, dims_nsg=0, dims_nsh=0, dims_nsh_0=0, dims_nsbx_e=0, dims_nsg_e=0, dims_nsh_e=0,
                 dims_ns=3, dims_ns_0=2, dims_ns_e=2))
    L.append(ocp('no_z', **no, **NORTI, dims_nz=0, **cost('LINEAR_LS')))
    L.append(ocp('no_u', **no, **NORTI, dims_nu=0, dims_nbu=0, dims_nsbu=0))
    z = dict(ZERO)
    L.append(ocp('minimal', **no, **NORTI, **z, **cost('LINEAR_LS'), constraints__has_x0=False, parameter_values=[], p_global_values=[],
                 **so(integrator_type='ERK', hessian_approx='GAUSS_NEWTON', with_batch_functionality=False, print_level=2)))
    L.append(ocp('N0', **no, **NORTI, **cost('EXTERNAL'), dims_nu=0, dims_nbu=0, dims_nz=0, dims_nsbu=0, dims_nbx_0=0, dims_nbxe_0=0, constraints__has_x0=False,
                 **so(N_horizon=0, time_steps=[], cost_scaling=[1.0], shooting_nodes=[0.0], integrator_type='DISCRETE', qp_solver='FULL_CONDENSING_HPIPM'), mex=False))
    F1 = [('bx0', dict(nbx_0=3)), ('bx0e', dict(nbx_0=3, nbxe_0=3)), ('bx', dict(nbx=2)), ('bxs', dict(nbx=2, nsbx=1)), ('bxe', dict(nbx_e=2)), ('bxes', dict(nbx_e=2, nsbx_e=1)),
          ('bu', dict(nbu=2)), ('bus', dict(nbu=2, nsbu=1)), ('g', dict(ng=2)), ('gs', dict(ng=2, nsg=1)), ('ge', dict(ng_e=2)), ('ges', dict(ng_e=2, nsg_e=1)),
          ('h', dict(nh=2)), ('hs', dict(nh=2, nsh=1)), ('h0', dict(nh_0=2)), ('h0s', dict(nh_0=2, nsh_0=1)), ('he', dict(nh_e=2)), ('hes', dict(nh_e=2, nsh_e=1)),
          ('y', dict(ny=2)), ('y0', dict(ny_0=2)), ('ye', dict(ny_e=2)), ('np', dict(np=2)), ('npg', dict(np_global=2, n_global_data=2)), ('nz', dict(nz=1))]
    for n, dm in F1:
        L.append(one(n, dm, **(so(integrator_type='IRK') if 'nz' in dm else {})))
    for n, dm in [('phi', dict(nphi=2, nr=1)), ('phis', dict(nphi=2, nr=1, nsphi=1)), ('phi0', dict(nphi_0=2, nr_0=1)), ('phi0s', dict(nphi_0=2, nr_0=1, nsphi_0=1)),
                  ('phie', dict(nphi_e=2, nr_e=1)), ('phies', dict(nphi_e=2, nr_e=1, nsphi_e=1))]:
        sfx = '_0' if '0' in n else '_e' if n.startswith('phie') else ''
        L.append(one(n, dm, **{'constraints__constr_type' + sfx: 'BGP'}))
    for t, ny in (('NONLINEAR_LS', 2), ('CONVEX_OVER_NONLINEAR', 2), ('EXTERNAL', 0)):
        for sfx in ('', '_0', '_e'):
            L.append(one('%s%s' % (t.lower()[:4], sfx), {'ny' + sfx: ny}, **{'cost__cost_type' + sfx: t}))
    for n, dm in (('nls', {}), ('ext', cost('EXTERNAL'))):
        L.append(ocp('irk_p_' + n, **sens(p=1), **ports(rti_phase=0, zoRO_payload=0, reset_flags=0), **dm, parameter_values=[0.0, 0.0], p_global_values=[0.0, 0.0],
                     **so(time_steps=[0.25] * 4, sens_hess=False, sens_forw=(n == 'ext'), sim_method_num_steps=lambda p: 1 + ('[2]' in p),
                          sim_method_num_stages=lambda p: 2 + ('[1]' in p), sim_method_jac_reuse=lambda p: int('[3]' in p), print_level=4, as_rti_level=0,
                          hessian_approx='GAUSS_NEWTON', with_adaptive_levenberg_marquardt=False, qp_solver_mu0=0.0, tau_min=0.0)))
    L.append(ocp('zoro', **sens(p=1), **ports(rti_phase=0), **cost('LINEAR_LS'), zoro=1, **ZOR, parameter_values=[0.0, 0.5],
                 **so(integrator_type='ERK', hessian_approx='GAUSS_NEWTON', nlp_solver_type='SQP_RTI', globalization='FIXED_STEP')))
    L.append(ocp('zoro_disc', **no, **ports(rti_phase=0, zoRO_payload=0, ignore_inits=0), **cost('EXTERNAL'), zoro=1, **dict(ZOR, zoro_description__feedback_optimization_mode='RICCATI_CONSTANT_COST'),
                 zoro_description__output_riccati_t=False, mex=False, **so(integrator_type='DISCRETE', hessian_approx='GAUSS_NEWTON', nlp_solver_type='SQP_RTI', globalization='FIXED_STEP')))
    L.append(ocp('custom_in', **no, **NORTI, simulink_opts__customizable_inputs={'sparse_parameter_a': {'parameter_indices': [0, 1], 'stage_idx_0': 1, 'stage_idx_e': 3}}))
    zk = so(integrator_type='ERK', hessian_approx='GAUSS_NEWTON', nlp_solver_type='SQP_RTI', globalization='FIXED_STEP')
    L.append(ocp('zoro_noise', **sens(p=1), **ports(rti_phase=0), **cost('LINEAR_LS'), zoro=1, parameter_values=[0.0, 0.5], **zk,
                 **zor(nonlinear_uncertainty_mode='NOISE', input_P0=True, input_P0_diag=False, input_W_diag=True, input_W_add_diag=False,
                       input_Sigma_p=True, input_Sigma_p_diag=False, feedback_optimization_mode='RICCATI_BARRIER_2')))
    L.append(ocp('zoro_const', **sens(p=1), **ports(rti_phase=0), **cost('LINEAR_LS'), zoro=1, parameter_values=[0.0, 0.5], **zk,
                 **zor(nonlinear_uncertainty_mode='CONSTANT', input_P0=False, input_P0_diag=False, input_W_diag=False, input_W_add_diag=False, output_riccati_t=False,
                       feedback_optimization_mode='CONSTANT_FEEDBACK')))
    L.append(ocp('zoro_wadd', **sens(p=1), **ports(rti_phase=0), **cost('LINEAR_LS'), zoro=1, parameter_values=[0.0, 0.5], **zk,
                 **zor(nonlinear_uncertainty_mode='CONSTANT', input_W_diag=False, input_W_add_diag=True, output_P_matrices=False, output_riccati_t=True)))
    cu = {k: v for k, v in ZOR.items() if 'custom_update' in k}
    L.append(ocp('custom_update', **no, **ports(rti_phase=0, zoRO_payload=0, ignore_inits=0), **cu, **so(nlp_solver_type='SQP_RTI', globalization='FIXED_STEP')))
    L.append(ocp('generic_irk', **no, **NORTI, dims_nz=0, model__dyn_ext_fun_type='generic', **{'cost__cost_ext_fun_type' + s: 'generic' for s in ('', '_0', '_e')},
                 **cost('EXTERNAL'), **so(integrator_type='IRK', hessian_approx='GAUSS_NEWTON', qp_solver_cond_N=0)))
    for t in ('ERK', 'IRK'):
        L.append(ocp('hess_%s' % t.lower(), **sens(), **ports(rti_phase=0, zoRO_payload=0, **{'lbx': 0}), **so(integrator_type=t, hessian_approx='GAUSS_NEWTON', sens_hess=False, sens_forw=False,
                     print_level=1), simulink_opts__samplingtime='-1', **(dict(zip(('solver_options__custom_update_filename', 'solver_options__custom_update_header_filename'), ('', ''))))))
    for t in ('ERK', 'IRK', 'GNSF', 'LIFTED_IRK'):
        for p in (0, 1):
            L.append(simonly('sim_%s_%d' % (t.lower(), p), t, p))
    disc = dict(integrator='DISCRETE', dims_nz=0, dims_nu=0, dims_nbu=0, dims_nsbu=0, dims_ng=0, dims_nsg=0, dims_ng_e=0, dims_nsg_e=0)
    L.append(multi('mocp_irk_erk', [dict(integrator='IRK'), dict(integrator='ERK', dims_nz=0, dims_nx=4), dict(integrator='LIFTED_IRK', dims_nu=3)], **no))
    L.append(multi('mocp_costs', [dict(cost('LINEAR_LS', 'EXTERNAL', 'NONLINEAR_LS')), dict(cost('EXTERNAL', 'NONLINEAR_LS', 'LINEAR_LS')),
                                  dict(cost('CONVEX_OVER_NONLINEAR'))], **no, **so(hessian_approx='GAUSS_NEWTON', nlp_solver_type='SQP_RTI', globalization='FIXED_STEP')))
    L.append(multi('mocp_bgp_disc', [dict(**BGP, integrator='GNSF', **cost('NONLINEAR_LS')), dict(disc, **cost('EXTERNAL')), dict(BGP, **cost('LINEAR_LS'))], **no,
                   **so(globalization='FUNNEL_L1PEN_LINESEARCH', hessian_approx='GAUSS_NEWTON', nlp_solver_type='SQP_WITH_FEASIBLE_QP', qp_solver='FULL_CONDENSING_HPIPM')))
    L.append(multi('mocp_disc_ext', [dict(disc, **cost('EXTERNAL')), dict(disc, **cost('EXTERNAL'), **{'cost__cost_ext_fun_type': 'generic', 'model__dyn_ext_fun_type': 'generic'})], **no,
                   **so(qp_solver='FULL_CONDENSING_DAQP', qp_solver_cond_block_size=[3, 0, 0])))
    L.append(multi('mocp_integ', [dict(integrator='IRK', cdisc='INTEGRATOR'), dict(cost('CONVEX_OVER_NONLINEAR'), integrator='IRK', cdisc='INTEGRATOR'), dict(cost('LINEAR_LS'))],
                   **no, **cu, rev=False, **so(hessian_approx='GAUSS_NEWTON', time_steps=[0.25] * 5)))
    L.append(multi('mocp_mex', [dict(integrator='IRK'), dict(integrator='ERK', dims_nz=0)], **no, **NORTI, mex=True))
    ns0 = dict(dims_nsbx=0, dims_nsbu=0, dims_nsg=0, dims_nsh=0, dims_nsh_0=0, dims_nsbx_e=0, dims_nsg_e=0, dims_nsh_e=0, dims_ns=3, dims_ns_0=2, dims_ns_e=2)
    L.append(multi('mocp_rev', [dict(ns0, rev=True, **cost('LINEAR_LS')), dict(ns0, rev=True, **cost('LINEAR_LS'))], **no, **so(hessian_approx='GAUSS_NEWTON')))
    L.append(multi('mocp_generic', [dict(disc, **cost('EXTERNAL'), **{'cost__cost_ext_fun_type' + s: 'generic' for s in ('', '_0', '_e')}, model__dyn_ext_fun_type='generic')] * 2,
                   **no, **so(hessian_approx='GAUSS_NEWTON')))
    dz = dict(integrator='DISCRETE', dims_nz=0)
    for i, k in enumerate(((1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1))):
        L.append(multi('mocp_sens_%d' % i, [dict(dz, **cost('EXTERNAL')), dict(dz, **cost('LINEAR_LS'))][::-1 if i > 1 else 1], **sens(*k), p_global_values=[0.0, 0.3 if i % 2 else 0.0],
                       **so(hessian_approx='EXACT' if i < 2 else 'GAUSS_NEWTON', qp_solver='FULL_CONDENSING_HPIPM' if i else 'PARTIAL_CONDENSING_HPIPM')))
    L.append(multi('mocp_generic_irk', [dict(integrator='IRK', dims_nz=0, model__dyn_ext_fun_type='generic', **cost('LINEAR_LS'))] * 2, **no, **so(hessian_approx='GAUSS_NEWTON')))
    zz = dict(z, **cost('LINEAR_LS'), constraints__has_x0=False)
    L.append(multi('mocp_min', [dict(zz), dict(zz)], **no, p_global_values=[], **so(hessian_approx='GAUSS_NEWTON', print_level=3)))
    for n, dm in F1:
        if n in ('nz', 'npg'):
            continue
        for i in (0, 1):
            ph = [dict(zz), dict(zz)]
            ph[i] = dict(ph[i], **{'dims_' + a: b for a, b in dm.items()})
            L.append(multi('mocp_%s_%d' % (n, i), ph, **no, p_global_values=[], **so(hessian_approx='GAUSS_NEWTON')))
    for t, ny in (('NONLINEAR_LS', 2), ('CONVEX_OVER_NONLINEAR', 2), ('EXTERNAL', 0)):
        for i, sfx in ((0, ''), (0, '_0'), (1, ''), (1, '_e')):
            ph = [dict(zz), dict(zz)]
            ph[i] = dict(ph[i], **{'dims_ny' + sfx: ny, 'cost__cost_type' + sfx: t})
            L.append(multi('mocp_%s_%d%s' % (t.lower()[:4], i, sfx), ph, **no, p_global_values=[], **so(hessian_approx='GAUSS_NEWTON')))
    for nl, li in ((0, 1), (1, 1)):
        L.append(simonly('sim_gnsf_x%d%d' % (nl, li), 'GNSF', 0))
        L[-1].d.update({'model.gnsf_model.nontrivial_f_LO': nl, 'model.gnsf_model.purely_linear': 1 - li if nl == 0 else 1})
    return L + combined()


def combined(n=28):
    """descriptions that combine what the ones above vary one at a time; the choice is fixed"""
    import random
    R = random.Random(20240607)
    L = []

    def phase(disc, exact):
        k = dict()
        on = lambda x, p=0.6: x if R.random() < p else 0
        ct = (['NONLINEAR_LS', 'EXTERNAL', 'LINEAR_LS'] if exact else ['NONLINEAR_LS', 'EXTERNAL', 'LINEAR_LS', 'CONVEX_OVER_NONLINEAR'])
        k.update(cost(R.choice(ct), R.choice(ct), R.choice(ct)))
        for sfx in ('', '_0', '_e'):
            n = on(2)
            bgp = n and R.random() < 0.4
            k['constraints__constr_type' + sfx] = 'BGP' if bgp else 'BGH'
            k['dims_nh' + sfx], k['dims_nphi' + sfx] = (0, n) if bgp else (n, 0)
            sl = on(1) if n else 0
            k['dims_nsh' + sfx], k['dims_nsphi' + sfx] = (0, sl) if bgp else (sl, 0)
            if k['cost__cost_type' + sfx] == 'EXTERNAL':
                k['dims_ny' + sfx] = 0
        for d, sd, e in (('nbx', 'nsbx', 2), ('nbx_e', 'nsbx_e', 2), ('nbu', 'nsbu', 2), ('ng', 'nsg', 2), ('ng_e', 'nsg_e', 2)):
            k['dims_' + d] = on(e)
            k['dims_' + sd] = on(1) if k['dims_' + d] else 0
        x0 = R.random() < 0.6
        k['dims_nbx_0'] = 3 if x0 else on(2)
        k['dims_nbxe_0'] = 3 if x0 else 0
        k['constraints__has_x0'] = x0
        return k
    for i in range(n):
        integ = R.choice(['ERK', 'IRK', 'GNSF', 'LIFTED_IRK', 'DISCRETE', 'DISCRETE'])
        disc = integ == 'DISCRETE'
        exact = R.random() < 0.5
        se = (R.random() < 0.5, R.random() < 0.5, R.random() < 0.5) if disc else (0, 0, 0)
        common = dict(parameter_values=[], p_global_values=[])
        common['dims_np'] = R.choice([0, 2])
        common['dims_np_global'] = 2 if any(se) else R.choice([0, 2])
        common['dims_n_global_data'] = 3 if common['dims_np_global'] and R.random() < 0.6 else 0
        common['parameter_values'] = [0.0, R.choice([0.0, 0.5])][:common['dims_np']]
        common['p_global_values'] = [0.0, R.choice([0.0, 0.5])][:common['dims_np_global']]
        sols = ['PARTIAL_CONDENSING_HPIPM', 'FULL_CONDENSING_HPIPM'] + ([] if se[0] or se[1] else ['FULL_CONDENSING_DAQP', 'PARTIAL_CONDENSING_OSQP', 'FULL_CONDENSING_QPOASES', 'PARTIAL_CONDENSING_QPDUNES'])
        nlp, glob = R.choice([('SQP', 'MERIT_BACKTRACKING'), ('SQP', 'FUNNEL_L1PEN_LINESEARCH'), ('SQP', 'FIXED_STEP'), ('SQP_RTI', 'FIXED_STEP'),
                              ('SQP_WITH_FEASIBLE_QP', 'FUNNEL_L1PEN_LINESEARCH')])
        opt = so(hessian_approx='EXACT' if exact else 'GAUSS_NEWTON', qp_solver=R.choice(sols), nlp_solver_type=nlp, globalization=glob,
                 regularize_method=R.choice(['NO_REGULARIZE', 'PROJECT', 'MIRROR', 'CONVEXIFY']), with_batch_functionality=R.random() < 0.5,
                 print_level=R.choice([0, 2]))
        if i % 4 == 3:
            phs = []
            for j in range(R.choice([2, 3])):
                t = 'DISCRETE' if any(se) else R.choice(['ERK', 'IRK', 'GNSF', 'LIFTED_IRK', 'DISCRETE'])
                ph = phase(t == 'DISCRETE', exact)
                if any(se):
                    ph.update(cost(*[R.choice(['EXTERNAL', 'LINEAR_LS']) for _ in range(3)]))
                phs.append(dict(ph, integrator=t, dims_nz=0 if t in ('ERK', 'DISCRETE') else R.choice([0, 1])))
            L.append(multi('mix_%d' % i, phs, **sens(*se), **common, **opt))
        else:
            ph = phase(disc, exact)
            if any(se):
                ph.update(cost(*[R.choice(['EXTERNAL', 'LINEAR_LS']) for _ in range(3)]))
            if integ == 'GNSF':
                common['model__gnsf_model__purely_linear'] = R.choice([0, 1])
                common['model__gnsf_model__nontrivial_f_LO'] = R.choice([0, 1])
            sp = integ in ('ERK', 'IRK') and common['dims_np'] and R.random() < 0.5
            L.append(ocp('mix_%d' % i, **ph, **common, **opt, **sens(*se, p=sp), **NORTI, mex=False, **so(integrator_type=integ),
                         dims_nz=0 if integ in ('ERK', 'DISCRETE') else R.choice([0, 1])))
    return L


# ---- expansion on disk and type check ---------------------------------------------------------
WARN = ['-W' + w for w in ('uninitialized sometimes-uninitialized conditional-uninitialized array-bounds return-stack-address sizeof-pointer-memaccess sizeof-array-argument '
                           'sizeof-pointer-div unsequenced division-by-zero format dangling free-nonheap-object return-type').split()]


class Unit:
    """one generated C file: typed AST plus the way back to the template"""

    def __init__(self, config, out, rel, tu, diags):
        self.config, self.out, self.rel, self.tu, self.diags = config, out, rel, tu, diags


def _hash(cfg, texts):
    h = hashlib.sha256()
    h.update(F.header_hash().encode())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    for r, d, fs in sorted(os.walk(os.path.join(F.STUBS, 'matlab'))):
        for f in sorted(fs):
            h.update(open(os.path.join(r, f), 'rb').read())
    for o in sorted(texts):
        h.update(o.encode() + b'\0' + texts[o].encode())
    return h.hexdigest()[:24]


def expand(cfg):
    """(texts: out -> source, maps: out -> line map, errors: [(rel, message)], branches taken per template)"""
    texts, maps, errs, br = {}, {}, [], {}
    for rel, out, *sub in cfg.files:
        try:
            t, m, r = render.render(rel, sub[0] if sub else cfg.d)
        except RenderError as x:
            errs.append((rel, str(x)))
            continue
        if r.unknown:
            errs.append((rel, 'no value for ' + ', '.join(sorted(r.unknown))))
        texts[out], maps[out] = t, m
        br.setdefault(rel, set()).update(r.branches)
    return texts, maps, errs, br


def _clang(args):
    root, out, omp = args
    cf = os.path.join(root, out.replace('/', '_') + '.pkl')
    if os.path.exists(cf):
        try:
            with open(cf, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    flags = ['-std=c99', '-Wno-everything']
    inc = F.INCS + ['-I' + os.path.join(F.REPO, 'interfaces'), '-I' + os.path.join(F.STUBS, 'matlab'), '-I' + root,
                    '-I' + os.path.join(F.REPO, 'interfaces/acados_matlab_octave')]
    cmd = [F.clang(), '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', '-fno-color-diagnostics'] + F.DEFS + \
          (F.OMP if omp else []) + inc + flags
    p = subprocess.run(cmd + WARN + ['-Wincompatible-pointer-types', '-Wint-conversion', '-Wincompatible-function-pointer-types', os.path.join(root, out)],
                       cwd=F.REPO, capture_output=True)
    diags = []
    for l in p.stderr.decode(errors='replace').splitlines():
        m = re.match(r'(.*?):(\d+):(\d+): (error|fatal error|warning|note): (.*)', l)
        if m:
            f = m.group(1)
            f = os.path.relpath(f, root) if f.startswith(root) else f
            diags.append((f, int(m.group(2)), m.group(4), m.group(5)))
    tu, err = None, None
    if not any(x[2] in ('error', 'fatal error') for x in diags):
        path, tu, err = F._parse_json((os.path.join(root, out), omp), inc=inc, root=root)
    r = (tu, diags)
    tmp = cf + '.%d' % os.getpid()
    with open(tmp, 'wb') as f:
        pickle.dump(r, f, protocol=4)
    os.replace(tmp, cf)
    return r


def load(cfgs=None, omp=True, jobs=8):
    """[(config, {out: Unit}, errors, branches)]"""
    res = []
    work = []
    exp = []
    for c in cfgs or configs():
        texts, maps, errs, br = expand(c)
        root = os.path.join(GEN, _hash(c, texts))
        if not os.path.exists(os.path.join(root, '.done')):
            for o, t in texts.items():
                os.makedirs(os.path.dirname(os.path.join(root, o)), exist_ok=True)
                with open(os.path.join(root, o), 'w') as f:
                    f.write(t)
            open(os.path.join(root, '.done'), 'w').close()
        exp.append((c, root, texts, maps, errs, br))
        work += [(root, o, omp) for o in texts if o.endswith('.c')]
    with ProcessPoolExecutor(max_workers=jobs) as ex:
        got = dict(zip(work, ex.map(_clang, work)))
    for c, root, texts, maps, errs, br in exp:
        us = {}
        rel = {x[1]: x[0] for x in c.files}
        for o in texts:
            if o.endswith('.c'):
                tu, diags = got[(root, o, omp)]
                us[o] = Unit(c, o, rel[o], tu, diags)
                us[o].root = root
        res.append(dict(cfg=c, root=root, units=us, maps=maps, errors=errs, branches=br, rel=rel))
    return res


def where(g, f, l):
    """template position of a line of a generated file"""
    f = os.path.relpath(f, g['root']) if f.startswith(g['root']) else f
    m = g['maps'].get(f)
    if m is None:
        return '%s:%s' % (f, l)
    return '%s:%s' % (g['rel'][f], m[l - 1] if l - 1 < len(m) else '?')
