"""T31: every name the generated code and the library itself pass to a name-dispatched function is accepted by it."""
import re, itertools
import cfront as F, cgraph, dispatch, fields, templates, tsel
import pyguards, tera, pyffi
import c03, c05

RULE = ('For every call in the code-generation templates (and in the library itself) that passes a literal name to a name-dispatched C function, the function is '
        'interpreted abstractly with that name, function-pointer slots resolved to the implementations that the module selection installs. The selections are '
        'enumerated from the dimensions the traced slots depend on (NLP solver, QP solver, regularization, globalization, integrator, cost and constraint '
        'type per stage class) and restricted to those under which the governing Tera conditions of the call can hold (three-valued evaluation). A selection '
        'for which no path of the interpreted function returns is the violation.')

ENUM = {'nlp': 'ocp_nlp_solver_t', 'reg': 'ocp_nlp_reg_t', 'glob': 'ocp_nlp_globalization_t', 'qp': 'ocp_qp_solver_t', 'cost': 'ocp_nlp_cost_t',
        'con': 'ocp_nlp_constraints_t', 'sim': 'sim_solver_t'}
VARS = {'nlp': ['solver_options.nlp_solver_type'], 'reg': ['solver_options.regularize_method'], 'glob': ['solver_options.globalization'],
        'qp': ['solver_options.qp_solver'], 'sim': ['solver_options.integrator_type', 'mocp_opts.integrator_type']}
SVARS = {('cost', '0'): ['cost.cost_type_0'], ('cost', 'p'): ['cost.cost_type'], ('cost', 'e'): ['cost.cost_type_e', 'cost_e.cost_type_e'],
         ('con', '0'): ['constraints.constr_type_0'], ('con', 'p'): ['constraints.constr_type'], ('con', 'e'): ['constraints.constr_type_e', 'constraints_e.constr_type_e']}


def dims_of(P):
    """source file stem -> (dimension, enumerators that install it)"""
    own = {}
    for dim, ety in ENUM.items():
        for en in P.enum_types.get(ety, ()):
            o = c03.OWN.get(en)
            if o:
                own.setdefault(o[1], (dim, set()))[1].add(en)
    own['ocp_nlp_dynamics_disc'] = ('sim', {'DISCRETE'})
    own['ocp_nlp_dynamics_cont'] = ('sim', set(own_sim(P)))
    for en in P.enum_types.get('ocp_qp_solver_t', ()):
        if en in c03.OWN:
            st = 'ocp_qp_partial_condensing' if en.startswith('PARTIAL') else 'ocp_qp_full_condensing'
            own.setdefault(st, ('qp', set()))[1].add(en)
    return own


def own_sim(P):
    return [e for e in P.enum_types['sim_solver_t'] if e in c03.OWN]


def values(P, dim):
    if dim == 'sim':
        return own_sim(P) + ['DISCRETE']
    ety = ENUM[dim]
    return [e for e in P.enum_types.get(ety, ()) if e in c03.OWN and not c03.UNAVAILABLE.search(e)]


def stem(x):
    return x[0].split('/')[-1][:-2]


class Accept:
    def __init__(self, P, G, D):
        self.P, self.G, self.D = P, G, D
        self.own = dims_of(P)
        self.memo = {}
        self.base = {}

    def dims(self, path, name, field):
        k = (path, name, field)
        if k not in self.base:
            r = fields.run_field(self.P, self.G, path, name, self.D[(path, name)], field)
            self.base[k] = None if r is None else (bool(r[1]), sorted({self.own[stem(t)][0] for t in r[0].targets if stem(t) in self.own}))
        return self.base[k]

    def ok(self, path, name, field, sel):
        """does the function accept the name when sel: {dim: enumerator} is installed?"""
        k = (path, name, field, tuple(sorted(sel.items())))
        if k not in self.memo:
            P = self.P
            fn = dict(P.functions[name])[path]
            ps = F.params(fn)
            idx = self.D[(path, name)]
            c = fields.Cli(P, self.G, [p.n for i, p in enumerate(ps) if i > idx and (p.t or '').strip().endswith('*')])

            def allowed(x):
                o = self.own.get(stem(x))
                return o is None or o[0] not in sel or sel[o[0]] in o[1]
            c.allowed = allowed
            r = fields.run_field(P, self.G, path, name, idx, field, client=c)
            self.memo[k] = None if r is None else bool(r[1])
        return self.memo[k]


def loop_range(sk, fn, var, at):
    """stage classes of the innermost enclosing  for (int var = a; var < b; var++)  before token `at`"""
    t = sk.toks
    best = None
    for i in range(fn[2], at):
        if t[i].s == 'for' and t[i + 1].s == '(':
            args, e = templates.split_args(t, i + 1, fn[3])
            j = i + 2
            seg = [[]]
            d = 0
            while j < e:
                if t[j].s == ';':
                    seg.append([])
                else:
                    seg[-1].append(t[j])
                j += 1
            if len(seg) != 3:
                continue
            init = ''.join(x.s for x in seg[0])
            m = re.match(r'(?:int)?(\w+)=(.*)$', init)
            if not m or m.group(1) != var:
                continue
            # does the loop body contain `at`?
            k = e + 1
            if k < fn[3] and t[k].s == '{':
                dd = 0
                while k < fn[3]:
                    dd += t[k].s == '{'
                    dd -= t[k].s == '}'
                    if dd == 0:
                        break
                    k += 1
            else:
                while k < fn[3] and t[k].s != ';':
                    k += 1
            if e < at <= k:
                best = (m.group(2), ''.join(x.s for x in seg[1]))
    return best


def stages(sk, call, arg):
    s = ''.join(x.s for x in arg)
    if s == '0':
        return ['0']
    if s in ('N', 'capsule->nlp_dims->N'):
        return ['e']
    if re.match(r'^[A-Za-z_]\w*$', s):
        r = loop_range(sk, call.fn, s, call.i)
        if r:
            a, c = r
            out = []
            if a == '0':
                out.append('0')
            out.append('p')
            if '<=' in c:
                out.append('e')
            return out
    return ['0', 'p', 'e']


# slack and residual dimensions imply the constraints they belong to (they are computed from index sets checked against them)
IMPLIES = {'nsh': 'nh', 'nsphi': 'nphi', 'nr': 'nphi'}


def facts(sk, c):
    """equalities and positivity that hold wherever code with governing tags c is generated: {variable: value or pyguards.POS}"""
    env = {}

    def conj(e):
        if e[0] == 'var' and len(sk.sets.get(e[1], ())) == 1 and not sk.sets[e[1]][0][1]:
            return conj(sk.sets[e[1]][0][0])
        if e[0] == 'bin' and e[1] == 'and':
            conj(e[2]); conj(e[3])
        elif e[0] == 'bin' and e[1] == '==' and e[3][0] in ('str', 'num', 'bool'):
            n = tsel.norm(e[2])
            if n:
                env.setdefault(n, e[3][1])
        elif e[0] == 'bin' and e[1] in ('>', '!=') and e[3] in (('num', 0), ('num', 0.0)):
            n = tsel.norm(e[2])
            if n:
                env.setdefault(n, pyguards.POS)
    for t in c:
        if t[0] == 'if':
            cond = sk.ctx[t[1]][1][t[2]][0]
            if cond is not None:
                conj(cond)
    return env


def canonical(env):
    """names as the Python front end knows them; multi-phase options are handed to one description per phase"""
    out = {'solver_options.N_horizon': pyguards.POS}
    for k, v in env.items():
        k = re.sub(r'^mocp_opts\.', 'solver_options.', k)
        k = re.sub(r'^(cost|constraints)_e\.', r'\1.', k)
        k = re.sub(r'^(phases_dims|dims_0|dims_e)\.', 'dims.', k)
        out[k] = v
    ch = True
    for k, v in list(out.items()):
        m = re.match(r'^dims\.(\w+?)(_0|_e)?$', k)
        if m and v == pyguards.POS and m.group(1) in IMPLIES:
            out.setdefault('dims.%s%s' % (IMPLIES[m.group(1)], m.group(2) or ''), v)
    return out


def implied(env):
    """what a canonical description additionally implies: convex-over-nonlinear dimensions only exist with BGP, residual dimensions only with LS-like costs"""
    if env.get('dims.nz') == pyguards.POS and env.get('solver_options.integrator_type') == 'DISCRETE':
        return False            # discrete dynamics have no algebraic variables
    for suf in ('', '_0', '_e'):
        if env.get('dims.nphi' + suf) == pyguards.POS and env.get('constraints.constr_type' + suf, 'BGP') != 'BGP':
            return False
        if env.get('dims.ny' + suf) == pyguards.POS and env.get('cost.cost_type' + suf) == 'EXTERNAL':
            return False
    return True


GUARDS = []


def feasible(sk, c, env):
    if tsel.governed(sk, c, env) is False:
        return False
    e = dict(facts(sk, c))
    e.update(env)
    e = canonical(e)
    if not implied(e):
        return False
    if not GUARDS:
        GUARDS.append(pyguards.Guards())
    return GUARDS[0].rejects(e) is None


def clean(s):
    return re.sub(r'\x00\d+\x00', 'NAME', s)


def library(ctx, P, G, D, A):
    for name, lst in sorted(P.functions.items()):
        for path, fn in lst:
            for a in fn.walk():
                if a.k != 'CallExpr':
                    continue
                t = F.callee(a)
                tg = [k for k in dispatch.call_targets(P, G, a, t, path) if k in D and D[k] + 1 < len(a.c)]
                res = []
                for (p2, n2) in tg:
                    s = F.string_lit(a.c[1 + D[(p2, n2)]])
                    if s is None:
                        continue
                    ctx.count('library call sites')
                    d = A.dims(p2, n2, s)
                    if d is None:
                        ctx.skip('%s(%s)' % (n2, s)); continue
                    res.append((n2, s, d[0]))
                if res and not any(x[2] for x in res):
                    ctx.violation('%s:%s:%s' % (path, name, res[0][1]), '%s:%s' % (path, a.l), '%s passes "%s", which is rejected by %s' % (name, res[0][1], ', '.join(x[0] for x in res)))
                ctx.bad = getattr(ctx, 'bad', [])
                ctx.bad += [(path, a.l, x) for x in res if not x[2]]


def wrappers(ctx, P, G, D, A, byname):
    for mod, cl in pyffi.WRAP:
        C = pyffi.module(mod).classes[cl]
        for mname, fn in sorted(C.methods.items()):
            own = set(pyffi.candidates(C, fn))
            r0 = pyffi.run_method(mod, cl, mname, {})
            if r0 is None:
                ctx.skip('%s.%s: too many paths' % (cl, mname)); continue
            if not any(f in byname for f, args, line in pyffi.foreign(r0)):
                continue
            done = set()
            # parameters whose value is checked against the names the method knows before it reaches the library
            ps = []
            for q in pyffi.strparams(fn):
                r = pyffi.run_method(mod, cl, mname, {q: 'no such name'})
                if r is not None and not any(a[0] == 'c' and a[1] == b'no such name' for f, args, line in pyffi.foreign(r) if f in byname for a in args):
                    ps.append(q)
                else:
                    ctx.count('names passed through unchecked')
            for b in [{}] + [{q: c} for q in ps for c in sorted(own)]:
                r = pyffi.run_method(mod, cl, mname, b)
                if r is None:
                    ctx.skip('%s.%s: too many paths' % (cl, mname)); continue
                for f, args, line in pyffi.foreign(r):
                    if f not in byname:
                        continue
                    path = byname[f][0]
                    idx = D[(path, f)]
                    if idx >= len(args) or args[idx][0] != 'c' or not isinstance(args[idx][1], bytes):
                        continue
                    s = args[idx][1].decode()
                    if (f, s) in done:
                        continue
                    done.add((f, s))
                    ctx.count('wrapper names')
                    d = A.dims(path, f, s)
                    if d is None:
                        ctx.skip('%s(%s)' % (f, s))
                    elif not d[0]:
                        ctx.violation('%s.%s:%s:%s' % (cl, mname, f, s), '%s/%s.py:%d' % (pyffi.BASE, mod, line), '%s.%s passes "%s" to %s, which rejects it for every module' % (cl, mname, s, f))


def run(ctx):
    P = F.load(); G = cgraph.CG(P)
    D = dispatch.dispatchers(P, G)
    A = Accept(P, G, D)
    byname = {}
    for (path, name), idx in D.items():
        byname.setdefault(name, []).append(path)
    for tp in templates.files():
        sk = templates.skeleton(tp)
        for call in templates.calls(sk):
            if call.name not in byname:
                continue
            path = byname[call.name][0]
            idx = D[(path, call.name)]
            if idx >= len(call.args):
                continue
            s = templates.literal(call.args[idx])
            if s is None:
                ctx.count('names built at run time'); continue
            ctx.count('template call sites')
            where = '%s:%d' % (tp, call.line)
            key = '%s:%s:%s:%s' % (tp.split('/')[-1], call.fn[0], call.name, s)
            d = A.dims(path, call.name, s)
            if d is None:
                ctx.skip('%s(%s)' % (call.name, s)); continue
            if not d[0]:
                ctx.violation(clean(key), where, '%s rejects the name "%s" for every module' % (call.name, s)); continue
            if 'matlab_templates' in tp:
                continue            # serves run-time requests of the user: some module must accept the name
            dims = d[1]
            sts = [None]
            if 'cost' in dims or 'con' in dims:
                fn = dict(P.functions[call.name])[path]
                ps = [p.n for p in F.params(fn)]
                si = [i for i, n in enumerate(ps) if n in ('stage', 'start_stage', 'i') and i < idx]
                sts = stages(sk, call, call.args[si[0]]) if si and si[0] < len(call.args) else ['0', 'p', 'e']
            for st in sts:
                lst = [values(P, x) for x in dims]
                if len(list(itertools.product(*lst))) > 400:
                    ctx.skip('%s(%s): too many selections' % (call.name, s)); continue
                for combo in itertools.product(*lst):
                    sel = dict(zip(dims, combo))
                    env = {}
                    if 'zoro' in tp:
                        env = {v: 'BGH' for (a, b), vs in SVARS.items() if a == 'con' for v in vs}     # documented: zoRO does not support BGP
                    for x, en in sel.items():
                        for v in VARS.get(x, []) + SVARS.get((x, st), []):
                            if env.get(v, en) != en:
                                env = None
                                break
                            env[v] = en
                        if env is None:
                            break
                    if env is None or not feasible(sk, call.ctx, env):
                        continue
                    ctx.count('selections decided')
                    ok = A.ok(path, call.name, s, sel)
                    if ok is None:
                        ctx.skip('%s(%s) %s' % (call.name, s, sel))
                    elif not ok:
                        ctx.violation('%s:%s' % (clean(key), ','.join('%s%s=%s' % (x, '' if x not in ('cost', 'con') else '_' + st, y) for x, y in sorted(sel.items()))), where,
                                      '%s passes "%s" to %s, which rejects it when %s' % (clean(call.fn[0]), s, call.name, sel))
    library(ctx, P, G, D, A)
    wrappers(ctx, P, G, D, A, byname)
    ctx.floor('template call sites', 600)
    ctx.floor('selections decided', 3000)
    ctx.floor('library call sites', 300)
    ctx.floor('wrapper names', 100)
