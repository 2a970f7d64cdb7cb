"""P22: problem descriptions whose sizes do not fit together are rejected before code generation."""
import ast, glob, os
import cfront as F
import pyshape as S
from pyshape import Lin, Arr, sym, add
from report import AnalysisBroken

RULE = ('AcadosOcp.make_consistent, with every method and helper it calls, is abstractly interpreted on problem descriptions whose arrays are known by symbolic shapes and by the range of their index entries. '
        'For each of a family of formulations (cost types, nonlinear and convex-over-nonlinear constraints, slacks by idxs* and by idxs_rev, algebraic variables, horizon zero) a fitting description must pass, and for each size or index of '
        'each array, a description that differs from the fitting one only there (size any other value, or an index negative, below -1 for idxs_rev, or at or above the size it indexes) must end in an exception on every path.')
B = 'interfaces/acados_template/acados_template'


def L(s):
    """'nx+nu-1' -> Lin"""
    if isinstance(s, Lin):
        return s
    r = Lin(0)
    for t in str(s).replace('-', '+-').split('+'):
        if not t:
            continue
        g = -1 if t[0] == '-' else 1
        t = t.lstrip('-')
        r = add(r, Lin(int(t)) if t.isdigit() else sym(t), g)
    return r


# field: (shape, {hi:, ...}).  Names of sizes are symbols; the sets below give relations
def bounds(sfx, groups):
    d = {}
    for g, n in groups:
        d['constraints.l%s%s' % (g, sfx)] = ([n], {})
        d['constraints.u%s%s' % (g, sfx)] = ([n], {})
    return d


def cost(ct, sfx, terminal, nz):
    y = 'ny' + sfx
    d = {}
    if ct == 'LINEAR_LS':
        d['cost.W' + sfx] = ([y, y], {}); d['cost.Vx' + sfx] = ([y, 'nx'], {}); d['cost.yref' + sfx] = ([y], {})
        if not terminal:
            d['cost.Vu' + sfx] = ([y, 'nu'], {})
            if nz:
                d['cost.Vz' + sfx] = ([y, 'nz'], {})
    elif ct == 'NONLINEAR_LS':
        d['cost.W' + sfx] = ([y, y], {}); d['cost.yref' + sfx] = ([y], {}); d['model.cost_y_expr' + sfx] = ([y, '1'], {'ca': 'SX'})
    elif ct == 'CONVEX_OVER_NONLINEAR':
        d['cost.yref' + sfx] = ([y], {})
        d['model.cost_y_expr' + sfx] = ([y, '1'], {'ca': 'SX'}); d['model.cost_r_in_psi_expr' + sfx] = ([y, '1'], {'ca': 'SX'}); d['model.cost_psi_expr' + sfx] = (['1', '1'], {'ca': 'SX'})
    else:
        n = 'nx' if terminal else 'nx+nu'
        d['model.cost_expr_ext_cost' + sfx] = (['1', '1'], {'ca': 'SX'}); d['model.cost_expr_ext_cost_custom_hess' + sfx] = ([n, n], {'ca': 'SX'})
    return d


def family(quick=True):
    """name, values of scalar attributes, arrays, lower bounds"""
    out = []
    for name, ct, con, slack, nz, x0, N in (
            ('linear_ls, h, idxs', 'LINEAR_LS', 'BGH', 'idx', 0, True, 1), ('linear_ls, algebraic', 'LINEAR_LS', 'BGH', None, 1, False, 1), ('nonlinear_ls, h, idxs_rev', 'NONLINEAR_LS', 'BGH', 'rev', 0, False, 1),
            ('conl, phi, idxs', 'CONVEX_OVER_NONLINEAR', 'BGP', 'idx', 0, True, 1), ('external, phi, idxs_rev', 'EXTERNAL', 'BGP', 'rev', 0, False, 1), ('external, h', 'EXTERNAL', 'BGH', None, 1, True, 1),
            ('linear_ls, no horizon', 'LINEAR_LS', 'BGH', 'idx', 0, False, 0), ('nonlinear_ls, no horizon', 'NONLINEAR_LS', 'BGP', 'rev', 0, False, 0)):
        sc = {'dims.nx': 'nx', 'dims.nx_next': 'nx', 'dims.nu': 'nu', 'dims.nz': 'nz' if nz else '0', 'dims.np': 'np', 'dims.np_global': 'ng_p', 'solver_options.N_horizon': 'N' if N else '0'}
        lit = {'cost.cost_type_e': ct, 'constraints.constr_type_e': 'BGH', 'solver_options.integrator_type': 'DISCRETE', 'model.name': 'm', 'solver_options.tf': 1.0 if N else None,
               'solver_options.hessian_approx': 'GAUSS_NEWTON', 'solver_options.qp_solver': 'PARTIAL_CONDENSING_HPIPM', 'name': 'm'}
        if N:
            lit.update({'cost.cost_type': ct, 'cost.cost_type_0': ct, 'constraints.constr_type': 'BGH', 'constraints.constr_type_0': 'BGH', 'constraints.has_x0': x0})
        a = {'parameter_values': (['np'], {}), 'p_global_values': (['ng_p'], {}), 'model.disc_dyn_expr': (['nx', '1'], {'ca': 'SX', 'fix': 1})}
        lb = {'nx': 1, 'nu': 1, 'nz': 1, 'N': 2}
        stages = ['_0', '', '_e'] if N else ['_e']
        for s in stages:
            a.update(cost(ct, s, s == '_e', nz))
            lb['ny' + s] = 1
            nbx = 'nx' if s == '_0' and x0 else 'nbx' + s
            a['constraints.idxbx' + s] = ([nbx], {'hi': 'nx', 'over': 'nx', 'under': '0'})
            a.update(bounds(s, [('bx', nbx)]))
            gr = []
            if s == '_0':
                a['constraints.idxbxe_0'] = (['nx' if x0 else 'nbxe_0'], {'any': 1, 'hi': nbx, 'over': nbx, 'under': '0'})
            if s == '':
                a['constraints.idxbu'] = (['nbu'], {'hi': 'nu', 'over': 'nu', 'under': '0'})
                gr.append(('bu', 'nbu'))
                lb['nbu'] = 1
            if s != '_0':
                n = 'ng' + s
                gr.append(('g', n))
                a['constraints.C' + s] = ([n, 'nx'], {})
                if s == '':
                    a['constraints.D'] = ([n, 'nu'], {})
                lb[n] = 1
            if con == 'BGH':
                gr.append(('h', 'nh' + s)); a['model.con_h_expr' + s] = (['nh' + s, '1'], {'ca': 'SX'})
                lb['nh' + s] = 1
            else:
                gr.append(('phi', 'nphi' + s)); a['model.con_phi_expr' + s] = (['nphi' + s, '1'], {'ca': 'SX'}); a['model.con_r_expr' + s] = (['nr' + s, '1'], {'ca': 'SX', 'fix': 1})
                lb['nphi' + s] = 1; lb['nr' + s] = 1
            a.update(bounds(s, gr))
            lb['nbx' + s] = 1
            # slacks
            if slack == 'idx':
                ns = []
                kinds = {'_0': [], '': ['bx', 'bu', 'g'], '_e': ['bx', 'g']}[s] + (['h'] if con == 'BGH' else ['phi'])
                for k in kinds:
                    m = 'ns%s%s' % (k, s)
                    n = 'n%s%s' % (k, s)
                    lb[m] = 1
                    # n >= ns: n is replaced by ns + rest everywhere
                    sc['=' + n] = '%s+r%s%s' % (m, k, s)
                    a['constraints.idxs%s%s' % (k, s)] = ([m], {'hi': n, 'over': n, 'under': '0'})
                    a['constraints.ls%s%s' % (k, s)] = ([m], {'empty': 1}); a['constraints.us%s%s' % (k, s)] = ([m], {'empty': 1})
                    ns.append(m)
                if s == '_0':
                    ns += ['nsbu', 'nsg']
                tot = '+'.join(ns)
                for z in ('Zl', 'Zu', 'zl', 'zu'):
                    a['cost.%s%s' % (z, s)] = ([tot], {})
            elif slack == 'rev':
                ni = '+'.join({'_0': ['nbu', nbx, 'ng'], '': ['nbu', 'nbx', 'ng'], '_e': ['nbx_e', 'ng_e']}[s] + [('nh' if con == 'BGH' else 'nphi') + s])
                lb['ns' + s] = 1
                a['constraints.idxs_rev' + s] = ([ni], {'hi': ni, 'lo': '-1', 'over': ni, 'under': '-1', 'ns': 'ns' + s})
                a['constraints.ls' + s] = (['ns' + s], {'empty': 1}); a['constraints.us' + s] = (['ns' + s], {'empty': 1})
                for z in ('Zl', 'Zu', 'zl', 'zu'):
                    a['cost.%s%s' % (z, s)] = (['ns' + s], {})
            else:
                for z in ('Zl', 'Zu', 'zl', 'zu'):
                    a['cost.%s%s' % (z, s)] = (['0'], {})
        out.append((name, sc, lit, a, lb))
    return out


def subst(x, sub):
    x = L(x)
    r = Lin(x.c)
    for k, v in x.t.items():
        y = L(sub[k]) if k in sub else sym(k)
        r = add(r, Lin(y.c * v, {a: b * v for a, b in y.t.items()}))
    return r


def load():
    trees = []
    for p in sorted(glob.glob(os.path.join(F.REPO, B, '*.py'))):
        trees.append((os.path.relpath(p, F.REPO), ast.parse(open(p).read())))
    # names of the module under analysis take precedence
    trees.sort(key=lambda t: (not t[0].endswith('acados_ocp.py'), not t[0].endswith('utils.py')))
    return S.World(trees)


def describe(w, fam, change):
    """change: None or (field, kind, index) -> (Ev, object)"""
    name, sc, lit, arrs, lb = fam
    sub = {k[1:]: v for k, v in sc.items() if k[0] == '='}
    lb = dict(lb)
    ne = []
    ch = {}
    if change is not None:
        f, kind, i = change
        shape, a = arrs[f]
        if kind == 'pair':
            lb['m_'] = lb['q_'] = 1 if a.get('empty') else 0
            ne.append(add(sym('m_'), subst(shape[i], sub), -1))
        elif kind == 'size':
            lb['m_'] = 1 if a.get('empty') or f.startswith('model.') or 'idxs_rev' in f else 0
            ne.append(add(sym('m_'), subst(shape[i], sub), -1))
    facts = S.Facts(lb, ne)
    ev = S.Ev(w, facts, skip={'make_consistent_model', 'AcadosModel.make_consistent', 'AcadosSimDims'}, stubs=S.STUBS)
    ev.taint = frozenset()      # environment dependent defaults: one choice
    o = ev.new('AcadosOcp', path='ocp')
    ev.forks = []; ev.assumed = []

    def put(path, v):
        p = path.split('.')
        b = o
        for x in p[:-1]:
            b = b.s.get(x)
            if not isinstance(b, S.Obj):
                raise AnalysisBroken('AcadosOcp().%s is not found by the analysis' % x)
        b.s[p[-1]] = v
    for k, v in sc.items():
        if k[0] != '=':
            put(k, S.num(subst(v, sub)))
    for k, v in lit.items():
        put(k, v)
    for k, (shape, a) in arrs.items():
        sh = [subst(x, sub) for x in shape]
        at = {x: subst(a[x], sub) for x in ('hi', 'lo', 'ns') if x in a}
        at.setdefault('lo', Lin(0))
        if change is not None and change[1] == 'pair' and k in partners(change[0], arrs):
            sh[0] = sym('q_')
        if change is not None and change[0] == k:
            kind, i = change[1], change[2]
            if kind in ('size', 'pair'):
                sh[i] = sym('m_')
            elif kind == 'over':
                del at['hi']; at['max'] = at['over'] = subst(a['over'], sub)
            elif kind == 'far':
                del at['hi']; at['max'] = at['over'] = add(subst(a['over'], sub), sym('m_')); lb['m_'] = 1
            elif kind == 'under':
                del at['lo']; at['under'] = subst(a['under'], sub); at['min'] = add(at['under'], Lin(-1))
        if 'ca' in a:
            at['ca'] = a['ca']
        put(k, Arr('ca' if 'ca' in a else 'np', sh, {k}, **at))
    return ev, o


def call(ev, o):
    m = ev.w.members('AcadosOcp').get('make_consistent')
    ev.steps = 0
    ev.invoke(S.Fn(m[1], {}, o, 'AcadosOcp'), [], {'verbose': S.Op((), 'verbose')})


def partners(f, arrs):
    """the arrays that belong to the same quantity: upper to lower bounds, the slack penalties"""
    o, n = f.split('.')[0], f.split('.')[-1]
    out = []
    if o == 'constraints' and n[0] == 'l':
        out = [o + '.u' + n[1:]]
    elif o == 'cost' and n[:2] == 'Zl':
        out = [o + '.' + z + n[2:] for z in ('Zu', 'zl', 'zu')]
    return [x for x in out if x in arrs]


def touched(change, fam):
    f = change[0]
    return {f, '$m_', '$q_'} | (set(partners(f, fam[3])) if change[1] == 'pair' else set())


def run(ctx):
    w = load()
    if 'AcadosOcp' not in w.classes or 'make_consistent' not in w.members('AcadosOcp'):
        raise AnalysisBroken('AcadosOcp.make_consistent not found')
    # the model checks its own expressions; its sizes are the given ones
    m = w.members('AcadosModel')
    m['make_consistent'] = ('meth', ast.parse('def make_consistent(self, dims):\n    pass').body[0])
    m = w.members('AcadosCodeGenOptions')
    m['make_consistent'] = ('meth', ast.parse('def make_consistent(self, *args, **kw):\n    pass').body[0])
    loc = '%s:%d' % (w.where['AcadosOcp'], w.members('AcadosOcp')['make_consistent'][1].lineno)
    bad = {}
    for fam in family():
        ps = S.paths(lambda: describe(w, fam, None), call, frozenset())
        ctx.count('formulations'); ctx.count('paths', len(ps))
        if any(o[0] == 'return' for o, _ in ps):
            pass
        elif any(o[0] == 'stop' for o, _ in ps):
            ctx.skip('%s: not interpreted' % fam[0]); continue
        else:
            o, ev = ps[0]
            if not any(e.forks or e.assumed for _, e in ps) or True:
                ctx.violation('fits:%s' % fam[0], '%s:%s' % (w.where['AcadosOcp'], o[1]), 'a description in which every size fits (%s) is rejected: %s' % (fam[0], o[2][:100]))
            continue
        obl = []
        for f, (shape, a) in sorted(fam[3].items()):
            if a.get('fix'):
                continue
            for i, s in enumerate(shape):
                if a.get('any'):
                    continue
                if f.startswith('model.') and i == 1 and shape[0] != shape[1] and shape[1] == '1':
                    continue
                if f.startswith('model.') and shape == ['1', '1'] and i == 1:
                    continue
                if s == '0':
                    continue
                obl.append((f, 'size', i))
                if i == 0 and partners(f, fam[3]):
                    obl.append((f, 'pair', 0))
            for k in ('over', 'far', 'under'):
                if k in a or k == 'far' and 'over' in a:
                    obl.append((f, k, 0))
        for c in obl:
            ctx.count('obligations')
            ps = S.paths(lambda: describe(w, fam, c), call, frozenset(touched(c, fam)))
            ctx.count('paths', len(ps))
            through = [e for o, e in ps if o[0] == 'return' and S.feasible(e)]
            if not through:
                if any(o[0] == 'stop' for o, _ in ps):
                    ctx.skip('%s: %s %s %s' % (fam[0], c[0], c[1], c[2]))
                else:
                    ctx.count('rejected as they must')
                continue
            t = touched(c, fam)
            def dirty(e):
                return any(x[0] & t for x in e.assumed) or any(x[0] & t and not S.exact(x[3]) for x in e.forks)
            clean = [e for e in through if not dirty(e)]
            if not clean:
                ctx.skip('%s: %s %s %s (decided by %s)' % (fam[0], c[0], c[1], c[2], sorted({x[1] for e in through for x in e.assumed + e.forks if x[0] & t})[:4]))
                continue
            bad.setdefault(c, []).append(fam[0])
    bad_fields = {x for fam in family() for x in fam[3]}
    for (f, kind, i), fams in sorted(bad.items()):
        what = 'the size of %s (axis %d)' % (f, i) if kind == 'size' else 'the sizes of %s and %s' % (f, ', '.join(partners(f, dict.fromkeys(bad_fields)))) if kind == 'pair' else 'an index in %s %s' % (f, 'at or above the size it indexes' if kind in ('over', 'far') else 'below the smallest index')
        ctx.violation('%s:%s:%d' % (f, kind, i), loc, 'a description that does not fit in %s is accepted (%s)' % (what, '; '.join(fams)))
    ctx.floor('obligations', 300)
    ctx.floor('rejected as they must', 250)
