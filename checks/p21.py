"""P21: reading an attribute of a description object returns what was assigned, and assigning one leaves the others alone."""
import ast, os
import cfront as F, pysetter as P
from report import AnalysisBroken

RULE = ('Every property with a setter of the Python description classes is evaluated abstractly: the argument ranges over a finite partition of the Python values (types, numeric regions cut at the constants occurring, '
        'each string constant and any other string, lists, arrays, expressions), helper functions and methods are inlined, undecided conditions fork. On every path on which the setter does not raise, '
        'the getter evaluated in the resulting state must return the argument, unchanged or only normalised in type or shape; on a path that raises, no attribute may have been written before. '
        'The attributes read by the getter of any other property must be disjoint from those written, except for the documented shorthands, whose effect is checked against their documentation.')
D = 'interfaces/acados_template/acados_template'
CLASSES = [('acados_ocp_options.py', 'AcadosOcpOptions'), ('acados_ocp_options.py', 'AcadosOcpQpOptions'), ('acados_ocp_constraints.py', 'AcadosOcpConstraints'), ('acados_ocp_cost.py', 'AcadosOcpCost'),
           ('acados_model.py', 'AcadosModel'), ('acados_dims.py', 'AcadosOcpDims'), ('acados_dims.py', 'AcadosSimDims'), ('acados_sim.py', 'AcadosSimOptions'), ('acados_sim.py', 'AcadosSim'),
           ('acados_code_gen_options.py', 'AcadosCodeGenOptions'), ('acados_ocp.py', 'AcadosOcp'), ('acados_multiphase_ocp.py', 'AcadosMultiphaseOcp')]
QPT = ['qp_solver_tol_stat', 'qp_solver_tol_eq', 'qp_solver_tol_ineq', 'qp_solver_tol_comp']
NLT = ['nlp_solver_tol_stat', 'nlp_solver_tol_eq', 'nlp_solver_tol_ineq', 'nlp_solver_tol_comp']
# documented shorthands: (class, property) -> properties that must all read back as the argument
SHORT = {('AcadosOcpOptions', 'tol'): NLT, ('AcadosOcpOptions', 'qp_tol'): QPT,
         ('AcadosCodeGenOptions', 'with_solution_sens_wrt_params'): ['with_solution_sens_wrt_params_forw', 'with_solution_sens_wrt_params_adj'],
         ('AcadosOcpConstraints', 'x0'): ['lbx_0', 'ubx_0']}
ALSO = {('AcadosOcpConstraints', 'x0'): {'idxbx_0', 'idxbxe_0', 'has_x0'}}
# selection matrices: the index vector they are converted to
J = {'Jbx_0': 'idxbx_0', 'Jbx': 'idxbx', 'Jbx_e': 'idxbx_e', 'Jbu': 'idxbu', 'Jsbx': 'idxsbx', 'Jsbu': 'idxsbu', 'Jsbx_e': 'idxsbx_e', 'Jsg': 'idxsg', 'Jsh': 'idxsh', 'Jsphi': 'idxsphi', 'Jsg_e': 'idxsg_e', 'Jsh_e': 'idxsh_e',
     'Jsphi_e': 'idxsphi_e', 'Jsh_0': 'idxsh_0', 'Jsphi_0': 'idxsphi_0'}
NORMALIZERS = {'os.path.abspath', 'os.path.realpath', 'os.path.normpath'}


def derives(v):
    """the argument classes a value derives from"""
    if v[0] == 'p':
        return True
    if v[0] in ('d', 'seq'):
        return any(derives(x) for x in (v[1] if v[0] == 'd' else v[2]) if isinstance(x, tuple))
    if v[0] == 'pm':
        return derives(v[1])
    return False


def same(v, c):
    """is v the argument of class c (up to type and shape): True / False / None (not decided)"""
    if v[0] == 'p':
        return v[1] == c or v[1][1:] == c[1:] and {v[1][0], c[0]} <= {'int', 'float', 'bool'}
    if c in (('none',), ('list', None)) and v[0] == 'k' and v[1] in (None, []):
        return True         # both stand for 'nothing given'
    if v[0] == 'k':
        if c[0] in ('int', 'float'):
            return c[1] == c[2] == v[1]
        return {'bool': lambda: v[1] is c[1], 'str': lambda: c[1] is not None and v[1] == c[1], 'none': lambda: v[1] is None, 'list': lambda: c[1] is None and v[1] == []}.get(c[0], lambda: False)()
    if v[0] == 'empty':
        return c[0] in ('none', 'arr', 'sx', 'list', 'str', 'tuple') and True
    if v[0] == 'seq':
        if c[0] in ('list', 'tuple') and v[1] in ('list', 'tuple'):
            return (not v[2]) if c[1] is None else all(same(x, c[1]) for x in v[2]) if v[2] else False
        return False
    if v[0] in ('ref', 'self', 'b'):
        return False
    if v[0] == 'norm':
        return True
    if v[0] == 'd':
        return False
    return None


class Ev(P.Ev):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.reads = set()

    def getattr(self, b, name, dp):
        r = super().getattr(b, name, dp)
        if not (b == ('self', 'self') and (name in self.props or name in self.methods)):
            self.reads.discard(b[1])
            self.reads.add(b[1] + '.' + (self.mangle(name) if b[1] == 'self' else name))
        return r

    def libcall(self, name, args, kw, n):
        if name in NORMALIZERS and args and args[0][0] == 'p' and args[0][1][0] == 'str':
            return ('p', args[0][1], 'norm')
        return super().libcall(name, args, kw, n)

    def pmethod(self, v, m, args, kw):
        if m == 'replace' and v[0] == 'p' and v[2] == 'norm' and len(args) == 2 and args[1] == ('k', '/'):
            return v
        return super().pmethod(v, m, args, kw)


def initconsts(c, written):
    """attributes only ever set by the initialiser to a constant"""
    r = {}
    for m in c.body:
        if isinstance(m, ast.FunctionDef) and m.name == '__init__':
            for x in ast.walk(m):
                if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                    t = x.targets[0] if isinstance(x, ast.Assign) else x.target
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr not in written:
                        try:
                            r[t.attr] = ('k', ast.literal_eval(x.value))
                        except ValueError:
                            pass
        elif isinstance(m, ast.Assign) and isinstance(m.targets[0], ast.Name):
            try:
                r[m.targets[0].id] = ('k', ast.literal_eval(m.value))
            except ValueError:
                pass
    return r


def machine(fn, cname, cls_=Ev):
    tree = ast.parse(open(os.path.join(F.REPO, D, fn)).read())
    ut = ast.parse(open(os.path.join(F.REPO, D, 'utils.py')).read())
    lc = P.load_class(tree, cname)
    if lc is None:
        raise AnalysisBroken('class %s not found in %s' % (cname, fn))
    c, props = lc
    helpers, consts = P.module_env(tree, ut)
    written = set()
    for m in c.body:
        if isinstance(m, ast.FunctionDef) and m.name != '__init__':
            for x in ast.walk(m):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    written.add(x.attr)
    e = cls_(c, helpers, props, consts)
    for a, v in initconsts(c, written).items():
        if a.lstrip('_') in props and props[a.lstrip('_')][1] is not None:
            continue
        e.modconsts[e.mangle(a)] = v
    return e, c, props, helpers


def reach(e, m, helpers):
    """syntax trees of the function and of everything it inlines"""
    seen, todo = [], [m]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.append(x)
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and y.id in helpers:
                todo.append(helpers[y.id])
            elif isinstance(y, ast.Attribute) and y.attr in e.methods:
                todo.append(e.methods[y.attr])
    return seen


def consts_of(e, trees):
    out = []
    for t in trees:
        for y in ast.walk(t):
            a = e.mangle(y.attr) if isinstance(y, ast.Attribute) else y.id if isinstance(y, ast.Name) else None
            v = e.modconsts.get(a)
            if v and isinstance(v[1], (tuple, list, set, str, dict)):
                out += [x for x in ([v[1]] if isinstance(v[1], str) else v[1]) if isinstance(x, str)]
    return out


def partition(e, m, helpers, ths=(), strs=()):
    trees = reach(e, m, helpers)
    cl, alls = P.classes([m] + [t for t in trees if t is not m and t.name.startswith('check')], tuple(consts_of(e, trees)) + tuple(strs), ths)
    e.allstr = alls
    return cl


def getter_reads(e, props):
    r = {}
    for q, (g, s) in sorted(props.items()):
        if g is None:
            continue
        e.reads = set()
        try:
            e.explore(lambda: e.getattr(('self', 'self'), q, 0))
            r[q] = frozenset(x for x in e.reads if x != 'self.' + q)
        except P.Stop as ex:
            r[q] = None
    return r


# default labels are made up from the variables they label
DEFAULTS = {('AcadosModel', 'x', 'x_labels'), ('AcadosModel', 'u', 'u_labels')}


def group(cn, p):
    """the attributes documented to share storage with p"""
    r = {p}
    for (c, k), v in SHORT.items():
        g = {k} | set(v) | ALSO.get((c, k), set())
        if c == cn and p == k:
            r |= g
        elif c == cn and p in g:
            r.add(k)
    if cn == 'AcadosOcpConstraints':
        for k, v in J.items():
            if p in (k, v) or k in r or v in r:
                r |= {k, v}
        for (c, k), v in SHORT.items():
            if c == cn and r & ({k} | set(v) | ALSO.get((c, k), set())) and p in ('Jbx_0', 'idxbx_0'):
                r.add(k)
    return r


def run(ctx):
    nprop = npath = ncls = 0
    for fn, cn in CLASSES:
        e, c, props, helpers = machine(fn, cn)
        f = '%s/%s' % (D, fn)
        ctx.count('classes')
        reads = getter_reads(e, props)
        if cn in ('AcadosOcpOptions', 'AcadosModel', 'AcadosOcpConstraints') and len(props) < 50:
            raise AnalysisBroken('only %d properties found in %s' % (len(props), cn))
        for p, (g, s) in sorted(props.items()):
            if s is None:
                continue
            nprop += 1
            if g is None:
                ctx.skip('%s.%s: setter without getter' % (cn, p))
                continue
            short = SHORT.get((cn, p))
            jm = J.get(p) if cn == 'AcadosOcpConstraints' else None
            targets = short or [jm or p]
            writes, bad, und, acc = {}, None, None, 0
            for cl in partition(e, s, helpers):
                arg, done = ('p', cl, 'same'), [False]

                def once():
                    done[0] = False
                    e.call(s, [('self', 'self'), arg], [])
                    w = len(e.stores)
                    done[0] = True
                    vals = [(q, e.getattr(('self', 'self'), q, 0)) for q in targets]
                    return w, vals
                def whole():
                    try:
                        return once()
                    except P.Raise:
                        if done[0]:
                            return None
                        raise
                try:
                    res = e.explore(whole)
                except (P.Stop, RecursionError) as ex:
                    und = und or 'argument %s: %s' % (P.label(cl), ex)
                    continue
                ncls += 1
                npath += len(res)
                for kind, r, stores, conds, heap, equal in res:
                    if kind == 'raise':
                        if stores and bad is None:
                            bad = 'rejects %s after %s has already been overwritten (line %d)' % (P.label(cl), stores[0][0].replace('self._%s__' % cn, 'self.'), stores[0][2])
                        continue
                    acc += 1
                    if r is None:           # the getter refuses to answer
                        if cl != ('none',) and not bad:
                            bad = 'after assigning %s, reading %s raises' % (P.label(cl), p)
                        continue
                    for st in stores[:r[0]]:
                        writes[st[0]] = st[2]
                    for q, v in r[1]:
                        if cl == ('none',) and p not in ('x0',) and v[0] != 'p' and v != ('ref', 'self.' + e.mangle('__' + p)):
                            continue        # None stands for the default
                        if jm:
                            ok = derives(v) or v[0] == 'empty' or (True if v[0] == 'd' else False)
                        else:
                            ok = True if v[0] == "ref" and v[1] in equal else same(v, cl)
                            if short and ok is False and v[0] == 'd' and derives(v):
                                ok = same(v[1][0], cl) if len(v[1]) == 1 else None
                        if ok is False and not bad:
                            what = ', '.join('%s is %s' % (t.split('|')[0], b) for t, b in conds[:3])
                            bad = 'after assigning %s, reading %s gives %s%s' % (P.label(cl), q, show(v), ' (when %s)' % what if what else '')
                        elif ok is None:
                            und = und or 'argument %s: value of %s after the assignment not decided' % (P.label(cl), q)
            key = '%s.%s' % (cn, p)
            where = '%s:%d' % (f, s.lineno)
            if bad:
                ctx.violation('roundtrip:' + key, where, '%s: %s' % (key, bad))
            if not acc and not und:
                ctx.violation('nothing accepted:' + key, where, '%s: the setter rejects every value' % key)
            allowed = group(cn, p)
            for q, rd in reads.items():
                if q in allowed or rd is None or (cn, p, q) in DEFAULTS:
                    continue
                hit = [w for w in writes if w in rd]
                if hit:
                    ctx.violation('frame:%s:%s' % (key, q), '%s:%d' % (f, writes[hit[0]]), 'assigning %s also changes what %s.%s returns (both use %s)' % (p, cn, q, hit[0].replace('_%s__' % cn, '')))
            if und:
                ctx.skip('%s: %s' % (key, und))
            else:
                ctx.count('decided attributes')
    ctx.count('settable attributes', nprop)
    ctx.count('argument classes evaluated', ncls)
    ctx.count('paths', npath)
    if nprop < 350:
        raise AnalysisBroken('only %d settable attributes found' % nprop)


def show(v):
    if v[0] == 'k':
        return repr(v[1])
    if v[0] == 'p':
        return P.label(v[1])
    if v[0] == 'ref':
        return 'the old content of ' + v[1].split('__')[-1]
    if v[0] in ('d', 'seq'):
        return 'a value computed from it' if derives(v) else 'another value'
    return v[0]
