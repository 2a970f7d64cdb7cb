"""P25: arrays whose memory the Python wrappers hand to C have the element type, layout, lifetime and size the C side relies on."""
import ast, re
import cfront as F, cgraph, dispatch, fields, pyffi, pyinterp as PI
from report import AnalysisBroken

RULE = ('Every public method of the OCP, batch OCP, integrator and batch integrator wrappers is interpreted abstractly on all paths (private helpers inlined, arguments unknown). '
        'For every address of a numpy array that is taken or passed to a function of the acados library or of a generated solver: the element type must be the one of the '
        'pointer, the memory must be contiguous, the array must still be referenced at the call, and its number of elements must be the one reported by the dimension query '
        'for the same stage and field (allocated with it, or compared with it and rejected otherwise), or be passed along. Which fields are vectors, and how many integers a '
        'dimension query writes, is taken from the C sources by abstract interpretation of the query for each field it accepts.')
WORK = pyffi.WRAP + [('acados_ocp_qp_solver', 'AcadosOcpQpSolver')]
LIB = re.compile(r'(shared_lib|acados_lib)$|^(get_shared_lib|CDLL|ctypes\.CDLL)\(')
ALLOC = {'zeros', 'ones', 'empty', 'full'}
FAMQ = {'ocp_nlp_cost_dims_get_from_attr': 'cost', 'ocp_nlp_constraint_dims_get_from_attr': 'constraint', 'ocp_nlp_qp_dims_get_from_attr': 'qp', 'sim_dims_get_from_attr': 'sim'}
FAMS = {'ocp_nlp_cost_model_set': {'cost', 'dim'}, 'ocp_nlp_cost_model_get': {'cost', 'dim'}, 'ocp_nlp_constraints_model_set': {'constraint', 'dim'}, 'ocp_nlp_constraints_model_get': {'constraint', 'dim'},
        'ocp_nlp_get_at_stage': {'qp', 'dim'}, 'ocp_nlp_out_get': {'dim'}, 'ocp_nlp_out_set': {'dim'}, 'ocp_nlp_in_get': {'dim'}, 'ocp_nlp_in_set': {'dim'}, 'ocp_nlp_set': {'dim'},
        'ocp_nlp_get_from_iterate': {'dim'}, 'sim_out_get': {'sim'}, 'sim_in_set': {'sim'}, 'sim_solver_set': {'sim'}, 'sim_memory_get': {'sim'}, 'sim_in_get': {'sim'}, 'sim_out_set': {'sim'},
        'ocp_nlp_get_all': {'total'}, 'ocp_nlp_set_all': {'total'}}
PGLOB = {'ocp_nlp_eval_lagrange_grad_p': 'p_global', 'ocp_nlp_eval_solution_sens_adj_p': 'p_global'}
# results of ocp_nlp_get that are arrays: their extents in terms of other results
STATS = {'statistics': (('stat', 'stat_n+1'), ('stat', 'min(stat_m,nlp_iter+1)')), 'primal_step_norm': (('stat', 'nlp_iter'),), 'dual_step_norm': (('stat', 'nlp_iter'),)}
# names under which the C side keeps a vector of the same size
ALIAS = {'z_guess': 'z', 'xdot_guess': 'x', 'y_ref': 'yref'}
# sensitivity of the dynamics with respect to parameters: (next state, parameters)
PAIR = {'S_p': ('pi', 'p')}


# extents of the solution of a plain OCP QP (HPIPM's d_ocp_qp_sol_get_*), dimensions as kept by the description
QPOUT = {'x': 'nx[k]', 'u': 'nu[k]', 'pi': 'nx[k+1]', 'lam': '2*nbx[k]+2*nbu[k]+2*ng[k]+2*ns[k]', 'sl': 'ns[k]', 'su': 'ns[k]'}
# data whose size is the business of the description's own consistency check (not of the call)
NOSIZE = {'ocp_qp_in_set', 'ocp_qp_xcond_solver_opts_set', 'ocp_qp_solver_get_stats', 'ocp_nlp_solver_opts_set', 'ocp_nlp_solver_opts_set_at_stage', 'sim_opts_set'}


def poly(t, atom):
    """{sorted atoms: coefficient} of an integer term"""
    if t[0] == 'c' and isinstance(t[1], int):
        return {(): t[1]} if t[1] else {}
    if t[0] == 'op' and t[1] in ('Add', 'Sub', 'Mult') and len(t) == 4:
        a, b = poly(t[2], atom), poly(t[3], atom)
        r = {}
        if t[1] == 'Mult':
            for m, x in a.items():
                for n, y in b.items():
                    k = tuple(sorted(m + n))
                    r[k] = r.get(k, 0) + x * y
        else:
            r = dict(a)
            for n, y in b.items():
                r[n] = r.get(n, 0) + (y if t[1] == 'Add' else -y)
        return {k: v for k, v in r.items() if v}
    if t[0] == 'call' and leaf(t[1]) == 'sum' and len(t[2]) == 1 and t[2][0][0] in ('list', 'tuple'):
        r = {}
        for x in t[2][0][1]:
            for n, y in poly(x, atom).items():
                r[n] = r.get(n, 0) + y
        return r
    return {(atom(t),): 1}


def cname(v):
    if v[0] == 'attr' and LIB.search(PI.text(v[1])):
        return v[2]
    if v[0] == 'call' and v[1] == 'getattr' and len(v[2]) >= 2 and LIB.search(PI.text(v[2][0])):
        return pyffi.strname(v[2][1], '*') or '?'
    return None


def leaf(f):
    return f.split('.')[-1]


def npcall(v, names):
    return v[0] == 'call' and leaf(v[1]) in names and re.match(r'(np|numpy)\.\w+$', v[1]) is not None


def recv(v):
    """receiver of a method call value"""
    return v[4][1] if v[0] == 'call' and len(v) > 4 and v[4][0] == 'attr' and v[4][1] not in (('sym', 'np'), ('sym', 'numpy')) else None


SAME = {'astype', 'reshape', 'ravel', 'flatten', 'copy', 'transpose', 'squeeze'}
NSAME = {'ascontiguousarray', 'asfortranarray', 'asarray', 'array', 'ravel', 'reshape', 'copy', 'atleast_1d', 'require', 'squeeze', 'transpose'}


def parent(v):
    """array v is a conversion of (same number of elements), or None"""
    r = recv(v)
    if r is not None and leaf(v[1]) in SAME:
        return r
    if npcall(v, NSAME) and v[2] and v[2][0][0] not in ('list', 'tuple'):
        return v[2][0]
    if v[0] == 'attr' and v[2] == 'T':
        return v[1]
    return None


def chain(v):
    out = [v]
    while parent(v) is not None:
        v = parent(v)
        out.append(v)
    return out


def root(v):
    return chain(v)[-1]


def base(v):
    """array whose memory v shares or may share (indexing and views stripped)"""
    while v[0] == 'op' and v[1] == 'item':
        v = v[2]
    return v


def intidx(i):
    return i[0] != 'op' or i[1] not in ('slice',)


def leading(v):
    """v = base[i, j, ...]: leading integer indices, or None when it is another kind of view"""
    i = v[3]
    xs = list(i[1]) if i[0] == 'tuple' else [i]
    while xs and xs[-1] == ('op', 'slice', ('c', None), ('c', None), ('c', None)):
        xs.pop()
    return xs if all(x[0] != 'op' or x[1] != 'slice' for x in xs) else None


def facts(st):
    """equalities known on this path"""
    out = []
    for c, b in st.conds:
        if c[0] == 'op' and (c[1] == 'Eq' and b or c[1] == 'NotEq' and not b):
            out += [(c[2], c[3]), (c[3], c[2])]
    return out


def kind(v, st):
    """element kind: double, int, size(64 bit), bool, None = whatever the caller passed / unknown"""
    if v[0] == 'op' and v[1] == 'item':
        return kind(v[2], st)
    for x in chain(v):
        for a, b in facts(st):
            if a[0] == 'attr' and a[2] == 'dtype' and a[1] == x:
                k = pyffi.dtype_kind(b)
                if k:
                    if x == v:
                        return k
    k = pyffi.array_kind(v)
    if k is not None:
        return k
    p = parent(v)
    if p is not None and not (leaf(v[1]) == 'astype' if v[0] == 'call' else False) and not (v[0] == 'call' and 'dtype' in dict(v[3])):
        return kind(p, st)
    if npcall(v, {'array', 'asarray'}) and v[2] and v[2][0][0] in ('list', 'tuple') and 'dtype' not in dict(v[3]):
        if all(x[0] == 'c' and isinstance(x[1], float) for x in v[2][0][1]) and v[2][0][1]:
            return 'double'
    return None


def dense(v, st):
    """True: contiguous; None: not known to be"""
    if v[0] == 'op' and v[1] == 'item':
        return True if leading(v) is not None and corder(v[2]) else None
    for c, b in st.conds:
        if b and PI.text(c) in ("%s.flags['C_CONTIGUOUS']" % PI.text(v), "%s.flags.c_contiguous" % PI.text(v), "%s.flags.contiguous" % PI.text(v)):
            return True
        if b and c[0] == 'op' and c[1] == 'item' and c[2] == ('attr', v, 'flags') and c[3][0] == 'c' and str(c[3][1]).lower() in ('c_contiguous', 'f_contiguous', 'contiguous', 'forc'):
            return True
        if b and c[0] == 'attr' and c[1] == ('attr', v, 'flags') and c[2] in ('c_contiguous', 'f_contiguous', 'contiguous', 'forc'):
            return True
    if npcall(v, ALLOC | {'concatenate', 'ascontiguousarray', 'asfortranarray', 'hstack', 'vstack', 'ravel', 'copy', 'zeros_like', 'ones_like', 'empty_like', 'arange', 'linspace', 'tile', 'repeat', 'eye', 'stack'}):
        return True
    if npcall(v, {'array'}):
        c = dict(v[3]).get('copy')
        return True if c in (None, ('c', True)) else None
    r = recv(v)
    if r is not None:
        f = leaf(v[1])
        if f == 'astype':
            return True if dict(v[3]).get('copy') in (None, ('c', True)) else dense(r, st)
        if f in ('flatten', 'ravel', 'copy'):
            return True
        if f in ('reshape', 'transpose'):
            return dense(r, st)
    if v[0] == 'attr' and v[2] == 'T':
        return dense(v[1], st)
    if npcall(v, {'reshape', 'transpose', 'asarray', 'atleast_1d'}) and v[2]:
        return True if v[2][0][0] in ('list', 'tuple') else dense(v[2][0], st)
    return None


def corder(v):
    if npcall(v, ALLOC):
        return dict(v[3]).get('order') in (None, ('c', 'C'))
    return npcall(v, {'ascontiguousarray'})


class Cl(pyffi.Inl):
    unroll = 10
    max_paths = 3000

    def __init__(self, C, chk, meth):
        super().__init__(C, False)
        self.chk, self.meth = chk, meth
        self.envs = []

    def call(self, e, fname, fval, args, kw, node, st):
        if re.match(r'(np|numpy)\.(zeros|ones|empty|full)$', fname):
            return [(('call', fname, tuple(args), tuple(kw) + (('@', ('c', node.lineno)),), fval), st)]
        p = self.chk.pointer(('call', fname, tuple(args), tuple(kw), fval))
        if p and leaf(fname) in ('cast', 'data_as'):
            self.chk.cast(self, p, node, st)
        n = cname(fval)
        if n:
            self.chk.foreign(self, n, args, node, st)
        self.envs.append(st.env)
        try:
            return super().call(e, fname, fval, args, kw, node, st)
        finally:
            self.envs.pop()


class Chk:
    def __init__(self, P, G):
        self.P, self.G = P, G
        self.viol, self.undec, self.sites, self.obl, self.noted = {}, {}, set(), set(), set()
        self.dims = {}

    # --- the C side -----------------------------------------------------------------------
    def params(self, n):
        l = self.P.functions.get(n)
        return [p.n for p in F.params(l[0][1])] if l else None

    def query(self, n):
        """field -> (number of ints written, 'vec'|'mat'|'one') for the fields a dimension query accepts"""
        if n not in self.dims:
            if n not in self.P.functions:
                raise AnalysisBroken('C function %s not found' % n)
            path, fn = self.P.functions[n][0]
            ps = [p.n for p in F.params(fn)]
            i = next(k for k, p in enumerate(F.params(fn)) if dispatch.char_param(p.t))
            out = ps[-1]
            d = {}
            for f in dispatch.literals(self.P, path, n, i):
                r = fields.run_field(self.P, self.G, path, n, i, f)
                if r is None:
                    continue
                for o in r[1]:
                    env = o[1].env
                    ks = [int(m.group(1)) for m in (re.fullmatch(re.escape(out) + r'\[(\d+)\]', str(k)) for k in env) if m]
                    v = env.get(out + '[1]')
                    d[f] = (max(ks) + 1 if ks else 0, 'vec' if v == ('i', 0) else 'one' if v == ('i', 1) else 'mat' if v is not None else 'none')
            if not d:
                raise AnalysisBroken('no accepted field of %s found' % n)
            self.dims[n] = d
        return self.dims[n]

    # --- values ---------------------------------------------------------------------------
    def pointer(self, v):
        """(array, pointee kind or 'void', keeps a reference) of a pointer value made from an array, or None"""
        if v[0] == 'call':
            f = leaf(v[1])
            if f == 'cast' and len(v[2]) > 1:
                t = PI.text(v[2][1])
                m = re.search(r'POINTER\((?:ctypes\.)?(c_\w+)\)', t)
                to = pyffi.CT.get(m.group(1)) if m else 'void'
                a = v[2][0]
                if a[0] == 'attr' and a[2] == 'data' and a[1][0] == 'attr' and a[1][2] == 'ctypes':
                    return a[1][1], to, False
                p = self.pointer(a)
                return (p[0], to, p[2]) if p else None
            if f == 'data_as' and recv(v) is not None and recv(v)[0] == 'attr' and recv(v)[2] == 'ctypes':
                m = re.search(r'POINTER\((?:ctypes\.)?(c_\w+)\)', PI.text(v[2][0])) if v[2] else None
                return recv(v)[1], pyffi.CT.get(m.group(1)) if m else 'void', True
            if f == 'c_void_p' and v[2]:
                return self.pointer(v[2][0])
        if v[0] == 'attr' and v[2] == 'data' and v[1][0] == 'attr' and v[1][2] == 'ctypes':
            return v[1][1], 'void', False
        return None

    def add(self, key, file, line, msg):
        self.viol.setdefault(key, {'key': key, 'file': file, 'line': line, 'message': msg})

    def where(self, cl):
        return '%s/%s.py' % (pyffi.BASE, cl.modname)

    def cast(self, cl, p, node, st):
        X, to, keep = p
        name = '%s.%s' % (cl.C.node.name, cl.meth)
        site = (name, PI.text(base(X)).split('(')[0], node.lineno)
        self.sites.add((cl.modname, node.lineno))
        X = self.resolve(X, st)
        k = kind(X, st)
        if self.from_caller(cl, X):
            return
        self.obl.add((name, node.lineno, 'type')); self.obl.add((name, node.lineno, 'layout'))
        if to in ('double', 'int') and k != to:
            if k is None and root(X)[0] != 'sym' and not npcall(root(X), {'array', 'asarray'}):
                self.undec.setdefault('%s:%d: element type of %s' % (name, node.lineno, self.show(X)), node.lineno)
            elif not (k == 'int' and to == 'double' and self.voided(cl, node)):
                self.add('type:%s:%d' % (name, self.ordinal(cl, node)), self.where(cl), node.lineno,
                         '%s: the elements of %s are %s but the pointer handed to C points to %s' % (name, self.show(X), {'double': 'doubles', 'int': '32-bit integers', 'size': '64-bit integers', 'bool': 'booleans', None: 'of whatever type the caller passed'}.get(k, k), to))
        if dense(X, st) is not True:
            self.add('layout:%s:%d' % (name, self.ordinal(cl, node)), self.where(cl), node.lineno,
                     '%s: %s is handed to C by address without being made contiguous; a strided view passed by the caller is read wrongly' % (name, self.show(X))) \
                if root(base(X))[0] in ('sym',) or X[0] == 'op' else self.undec.setdefault('%s:%d: layout of %s' % (name, node.lineno, self.show(X)), node.lineno)

    def opaque(self, x):
        """result of a function that is not modelled"""
        return x[0] == 'call' and not (len(x) > 4 and cname(x[4])) and re.match(r'(self\.)?_?\w+$', x[1]) is not None

    def from_caller(self, cl, X):
        r = root(base(root(X)))
        return not cl.stack and r[0] == 'sym' and r[1] in cl.given

    def voided(self, cl, node):
        """the pointer of this expression is only used after a conversion to void*"""
        fn = cl.C.methods.get(cl.meth)
        for n in ast.walk(fn) if fn else ():
            if isinstance(n, ast.Assign) and n.value is node and isinstance(n.targets[0], ast.Name):
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == n.targets[0].id and isinstance(x.ctx, ast.Load)]
                casts = [x for c in ast.walk(fn) if isinstance(c, ast.Call) and 'c_void_p' in ast.unparse(c) for x in ast.walk(c) if isinstance(x, ast.Name)]
                return bool(uses) and all(any(u is x for x in casts) for u in uses)
        return False

    def ordinal(self, cl, node):
        fn = cl.C.methods.get(cl.meth)
        ls = sorted({n.lineno for n in ast.walk(fn) if isinstance(n, ast.Call) and leaf(ast.unparse(n.func)) in ('cast', 'data_as')}) if fn else []
        return ls.index(node.lineno) if node.lineno in ls else 0

    def show(self, v):
        while parent(v) is not None and v[0] != 'sym':
            v = parent(v)
        if v[0] == 'call':
            a = dict(v[3]).get('@')
            return 'the array allocated in line %s' % a[1] if a else 'the array %s(...)' % v[1]
        if v[0] == 'op' and v[1] == 'item':
            return 'a part of ' + self.show(v[2])
        return PI.text(v)

    def resolve(self, X, st):
        if X[0] == 'attr':
            return st.heap.get(PI.text(X), X)
        return X

    # --- foreign calls --------------------------------------------------------------------
    def strip(self, v):
        while v[0] == 'call' and leaf(v[1]) in ('c_int', 'int', 'encode', 'str', 'c_int32', 'c_size_t') and (v[2] or recv(v) is not None):
            v = recv(v) if leaf(v[1]) == 'encode' else v[2][0]
        if v[0] == 'call' and leaf(v[1]) in ('replace', 'removeprefix') and recv(v) is not None and v[2] and v[2][0] == ('c', 'sens_'):
            return self.strip(recv(v))
        if v[0] == 'op' and v[1] == 'item' and v[3][0] == 'op' and v[3][1] == 'slice' and v[3][2] == ('c', 5) and v[3][3] == ('c', None):
            return self.strip(v[2])
        if v[0] == 'c' and isinstance(v[1], bytes):
            return ('c', v[1].decode())
        return v

    def fieldterm(self, v, st):
        v = self.strip(v)
        if v[0] != 'c':
            for a, b in facts(st):
                if a == v and b[0] == 'c' and isinstance(b[1], str):
                    v = b
        if v[0] == 'c' and isinstance(v[1], str):
            s = v[1][5:] if v[1].startswith('sens_') else v[1]
            return ('c', ALIAS.get(s, s))
        return v

    def norm(self, t, st):
        """scalar term -> product of factors (tuple, sorted by text)"""
        t = self.strip(t)
        if t[0] == 'c':
            return () if t[1] == 1 else (t,)
        if t[0] == 'op' and t[1] in ('Mult', 'mult', '*'):
            return self.srt(self.norm(t[2], st) + self.norm(t[3], st))
        if t[0] == 'op' and t[1] == 'item':
            b, i = t[2], t[3]
            fl = st.heap.get('#fill ' + PI.text(b))
            if fl and i[0] == 'c' and i[1] in (0, 1):
                return (('Q%d' % i[1],) + self.fl(fl, st),)
            if b[0] == 'attr' and b[2] == 'shape' and i == ('c', 0):
                return (('len', root(b[1])),)
        if t[0] == 'attr' and t[2] == 'size':
            return (('size', root(t[1])),)
        if t[0] == 'call':
            f = leaf(t[1])
            n = cname(t[4]) if len(t) > 4 else None
            if n == 'ocp_nlp_dims_get_from_attr' and len(t[2]) >= 5:
                return (('Q', 'dim', self.stage(t[2][3]), self.fieldterm(t[2][4], st)),)
            if n == 'ocp_nlp_dims_get_total_from_attr' and len(t[2]) >= 4:
                return (('Q', 'total', None, self.fieldterm(t[2][3], st)),)
            if f == 'dims_get' and len(t[2]) == 2 and 'acados_lib' not in t[1]:
                return (('Q', 'dim', self.stage(t[2][1]), self.fieldterm(t[2][0], st)),)
            if f == 'get_dim_flat' and len(t[2]) == 1:
                return (('Q', 'total', None, self.fieldterm(t[2][0], st)),)
            if f == 'len' and len(t[2]) == 1:
                return (('len', root(t[2][0])),)
            if npcall(t, {'prod'}) and t[2]:
                s = self.shape(t[2][0], st)
                if s is not None:
                    return s
            if f == 'get_stats' and t[2] and t[2][0][0] == 'c':
                return (('stat', t[2][0][1]),)
            if f == 'min':
                xs = t[2][0][1] if len(t[2]) == 1 and t[2][0][0] in ('list', 'tuple') else t[2]
                return (('stat', 'min(%s)' % ','.join(sorted((self.plain(x, st) for x in xs), reverse=True))),)
        if t[0] == 'op' and t[1] in ('Add', 'add', '+'):
            return (('stat', self.plain(t, st)),)
        return (t,)

    def plain(self, t, st):
        if t[0] == 'op' and t[1] in ('Add', 'Sub', 'Mult'):
            q = poly(t, lambda v: self.plain(v, st))
            return '+'.join('*'.join(([str(c)] if c != 1 or not m else []) + list(m)) for m, c in sorted(q.items(), key=lambda x: (x[0] == (), x[0])))
        n = self.norm(t, st) if t[0] != 'op' else (t,)
        return n[0][1] if len(n) == 1 and n[0][0] == 'stat' else PI.text(t)

    def stage(self, v):
        return self.strip(v)

    def srt(self, t):
        return tuple(sorted(t, key=repr))

    def fl(self, fl, st):
        return (fl[0], fl[1], self.fieldterm(fl[2], st))

    def shape(self, v, st):
        """product of the entries of a shape value"""
        if v[0] in ('tuple', 'list'):
            r = ()
            for x in v[1]:
                r += self.norm(x, st)
            return self.srt(r)
        if v[0] == 'call' and leaf(v[1]) in ('tuple', 'list') and v[2]:
            return self.shape(v[2][0], st)
        fl = st.heap.get('#fill ' + PI.text(v))
        if fl:
            fl = self.fl(fl, st)
            return self.srt((('Q0',) + fl, ('Q1',) + fl))
        if v[0] == 'attr' and v[2] == 'shape':
            return (('size', root(v[1])),)
        if v[0] == 'call' or v[0] == 'op' or v[0] == 'sym' or v[0] == 'c':
            return self.norm(v, st)
        return None

    def sizes(self, X, st):
        """products of factors known to be the number of elements of X (or a lower bound of it)"""
        out = []
        r = root(X)
        if npcall(r, ALLOC) and (r[2] or 'shape' in dict(r[3])):
            s = self.shape(r[2][0] if r[2] else dict(r[3])['shape'], st)
            if s is not None:
                out.append(s)
        if npcall(r, {'array', 'asarray'}) and r[2] and r[2][0][0] in ('list', 'tuple'):
            out.append(() if len(r[2][0][1]) == 1 else (('c', len(r[2][0][1])),))
        if npcall(r, {'zeros_like', 'ones_like', 'empty_like'}) and r[2]:
            out += self.sizes(r[2][0], st)
        out += [(('len', r),), (('size', r),)]
        for a, b in facts(st):
            if a[0] == 'attr' and a[2] == 'shape' and root(a[1]) == r:
                s = self.shape(b, st)
                if s is not None:
                    out.append(s)
            elif a[0] == 'tuple' and len(a[1]) == 2 and a[1][1] == ('c', 0) and self.norm(a[1][0], st) == (('len', r),):
                s = self.shape(b, st)
                if s is not None:
                    out.append(tuple(x for x in s if x[0] != 'Q1'))
            elif self.norm(a, st) in ((('len', r),), (('size', r),)):
                out.append(self.norm(b, st))
        return out

    def candidates(self, fam, fterm, st):
        """(fields that may be meant on this path, every condition on the field was understood)"""
        n = next(k for k, v in FAMQ.items() if v == fam)
        d = self.query(n)
        if fterm[0] == 'c':
            return ([fterm[1]] if fterm[1] in d else []), True, d
        out, sure = [], True
        for f in d:
            ok = True
            for c, b in st.conds:
                if not self.mentions(c, fterm):
                    continue
                v = self.evalc(self.subst(c, fterm, ('c', f)))
                if v is None:
                    sure = False
                elif v != b:
                    ok = False
            if ok:
                out.append(f)
        return out, sure, d

    def mentions(self, v, x):
        return v == x or any(self.mentions(y, x) for y in v if isinstance(y, tuple))

    def subst(self, v, x, y):
        if v == x:
            return y
        return tuple(self.subst(z, x, y) if isinstance(z, tuple) else z for z in v)

    def evalc(self, c):
        if c[0] == 'op' and c[1] == 'Not':
            v = self.evalc(c[2])
            return None if v is None else not v
        if c[0] == 'op' and c[1] in ('In', 'NotIn', 'Eq', 'NotEq') and len(c) == 4:
            r = PI.Py().compare(c[1], c[2], self.sets(c[3]))
            return bool(r[1]) if r[0] == 'c' else None
        if c[0] == 'call' and leaf(c[1]) in ('startswith', 'endswith') and len(c) > 4 and c[4][0] == 'attr' and c[4][1][0] == 'c' and c[2] and PI.isconst(c[2][0]):
            a = PI.pyval(c[2][0])
            return getattr(c[4][1][1], leaf(c[1]))(a)
        if c[0] == 'c':
            return bool(c[1])
        return None

    def sets(self, v):
        if v[0] == 'op' and v[1] in ('BitOr', 'Add', '|', '+'):
            a, b = self.sets(v[2]), self.sets(v[3])
            if a[0] in ('set', 'list', 'tuple') and b[0] in ('set', 'list', 'tuple'):
                return ('list', a[1] + b[1])
        return v

    def alive(self, X, cl, st):
        want = {base(x) for x in chain(base(X))} if False else {base(X)}
        b = base(X)
        if b[0] in ('sym', 'attr'):
            return True
        vals = list(st.env.values()) + list(st.heap.values()) + [v for e in cl.envs for v in e.values()]
        return any(self.holds(v, b) for v in vals if isinstance(v, tuple))

    def holds(self, v, b):
        """object v keeps the memory of b alive"""
        v = base(v)
        if v == b:
            return True
        if v[0] in ('list', 'tuple', 'set') and isinstance(v[1], tuple):
            return any(self.holds(x, b) for x in v[1])
        r = recv(v)
        if r is not None and leaf(v[1]) in ('reshape', 'transpose', 'squeeze'):
            return self.holds(r, b)
        if v[0] == 'attr' and v[2] == 'T':
            return self.holds(v[1], b)
        if v[0] == 'call' and leaf(v[1]) == 'data_as' and recv(v) is not None:
            return self.holds(recv(v)[1], b) if recv(v)[0] == 'attr' else False
        if npcall(v, {'reshape', 'transpose'}) and v[2]:
            return self.holds(v[2][0], b)
        return False

    def foreign(self, cl, n, args, node, st):
        name = '%s.%s' % (cl.C.node.name, cl.meth)
        ptrs = [(i, self.pointer(a)) for i, a in enumerate(args)]
        ptrs = [(i, p) for i, p in ptrs if p]
        if not ptrs:
            return
        ps = self.params(n) if not n.startswith('*') else None

        def arg(*names):
            if ps:
                for i, p in enumerate(ps):
                    if p in names and i < len(args):
                        return args[i]
            return None
        for i, (X, to, keep) in ptrs:
            X = self.resolve(X, st)
            self.sites.add((cl.modname, node.lineno))
            if self.from_caller(cl, X):
                continue
            self.obl.add((name, node.lineno, 'alive')); self.obl.add((name, node.lineno, 'size'))
            if not keep and not self.alive(X, cl, st):
                self.add('alive:%s:%s' % (name, n), self.where(cl), node.lineno, '%s: when %s is called, nothing refers to %s any more (the variable now denotes another array): its memory may have been released' % (name, n, self.show(X)))
            self.size(cl, name, n, i, X, args, arg, node, st)
        if n in FAMQ:
            fam = FAMQ[n]
            X = self.resolve(ptrs[-1][1][0], st)
            st.heap['#fill ' + PI.text(X)] = (fam, self.stage(arg('stage')) if fam != 'sim' else None, self.fieldterm(arg('field'), st))

    def size(self, cl, name, n, i, X, args, arg, node, st):
        bad = None
        got = self.sizes(X, st)
        field, stage = arg('field', 'attr', 'name'), arg('stage', 'i')
        stage = self.stage(stage) if stage is not None else None
        fterm = self.fieldterm(field, st) if field is not None else None
        fname = PI.text(fterm).strip("'") if fterm is not None else ''
        if n in FAMQ:
            need = max(x[0] for x in self.query(n).values())
            k = [s for s in got if len(s) <= 1 and (not s or s[0][0] == 'c')]
            have = max([1 if not s else s[0][1] for s in k] or [0])
            if not k:
                self.undec.setdefault('%s:%d: size of the dimension buffer' % (name, node.lineno), 0)
            elif have < need:
                self.add('size:%s:%s' % (name, n), self.where(cl), node.lineno, '%s: %s writes %d integers, the buffer has %s' % (name, n, need, have))
            return
        if n.startswith('*'):
            allc = [self.norm(a, st) for j, a in enumerate(args) if j != i and not self.pointer(a)]
            j = i
            while j < len(args) and self.pointer(args[j]):
                j += 1
            near = args[j] if j < len(args) else args[i - 1]
            if 'acados_update_time_steps' in n or 'create_with_discretization' in n:
                near = args[i - 1]
            counts = [self.norm(near, st)]
            if X[0] == 'op' and X[1] == 'item' and 'adj_p' in n:
                b = base(X)
                sh = b[2][0][1] if npcall(b, ALLOC) and b[2] and b[2][0][0] in ('tuple', 'list') else ()
                idx = leading(X) or []
                if len(sh) == 3 and len(idx) == 2 and idx[0] == ('c', 0):
                    nb, ns, q = [self.norm(x, st) for x in sh]
                    bad = None if q == (('Q', 'dim', ('c', 0), ('c', 'p_global')),) and self.srt(ns + q) in counts and nb in allc else \
                        'the rows of the array are not laid out as the batch size, the number of seeds and the number of parameters passed along say'
                else:
                    self.undec.setdefault('%s:%d: array of %s' % (name, node.lineno, n), 0)
            elif not any(c in got for c in counts):
                bad = 'its number of elements is neither passed along nor compared with what is passed along'
            if bad:
                self.add('size:%s:%s:%d' % (name, n, i), self.where(cl), node.lineno, '%s passes %s to %s, but %s' % (name, self.show(X), n, bad))
            return
        if n in NOSIZE:
            return
        if n == 'ocp_qp_out_get':
            r = root(X)
            poss = [f for f in QPOUT if all(self.evalc(self.subst(c, self.strip(field), ('c', f))) in (None, b) for c, b in st.conds)] if self.strip(field)[0] != 'c' else [self.strip(field)[1]]
            if not poss and self.strip(field)[0] != 'c':
                return      # no field reaches this path
            sh = (r[2][0][1] if r[2][0][0] in ('tuple', 'list') else (r[2][0],)) if npcall(r, ALLOC) and r[2] else None
            if sh is None or not poss or any(f not in QPOUT for f in poss):
                self.undec.setdefault('%s:%d: array of %s' % (name, node.lineno, n), 0)
                return
            t = sh[0]
            for x in sh[1:]:
                t = ('op', 'Mult', t, x)

            def atom(v):
                v = self.strip(v)
                m = re.search(r'(\w+)$', PI.text(v[2])) if v[0] == 'op' and v[1] == 'item' else None
                if not m:
                    return PI.text(v)
                i = poly(v[3], lambda w: 'k' if self.strip(w) == stage else PI.text(w))
                i = {k: c for k, c in i.items() if c}
                return m.group(1) + {((('k',), 1),): '[k]', (((), 1), (('k',), 1)): '[k+1]'}.get(tuple(sorted(i.items())), '[%s]' % PI.text(v[3]))
            g = poly(t, atom)
            for f in poss:
                w = {(x[2:] if x.startswith('2*') else x,): 2 if x.startswith('2*') else 1 for x in QPOUT[f].split('+')} if f != 'pi' else {('nx[k+1]',): 1}
                if g != w:
                    self.add('size:%s:%s:%s' % (name, n, f), self.where(cl), node.lineno, '%s passes %s to %s for %r: it has %s elements instead of %s' % (name, self.show(X), n, f, '+'.join('%s%s' % ('' if c == 1 else '%d*' % c, '*'.join(k) or '1') for k, c in sorted(g.items())) or '0', QPOUT[f]))
            return
        if n == 'ocp_nlp_get':
            if fterm is not None and fterm[0] == 'c' and fterm[1] in STATS:
                want = self.srt(STATS[fterm[1]])
                if want not in got:
                    bad = 'which has not the extent of %r (%s)' % (fterm[1], ' x '.join(x[1] for x in STATS[fterm[1]]))
            elif fterm is not None and fterm[0] == 'c':
                b = base(X)
                g = self.sizes(b, st)
                if not any(all(x[0] == 'c' and x[1] > 0 for x in s) for s in g):
                    bad = 'whose number of elements is not known to be at least one'
                elif X[0] == 'op':
                    idx = leading(X)
                    sh = b[2][0][1] if npcall(b, ALLOC) and b[2] and b[2][0][0] in ('tuple', 'list') else None
                    if not idx or sh is None or not all(x[0] == 'c' and y[0] == 'c' and x[1] < y[1] for x, y in zip(idx, sh)):
                        bad = 'of which the addressed part is not known to exist'
            else:
                poss = [f for f in STATS if all(self.evalc(self.subst(c, fterm, ('c', f))) in (None, b) for c, b in st.conds)]
                if not poss:
                    self.undec.setdefault('%s:%d: field of %s' % (name, node.lineno, n), 0)
                for f in poss:
                    if self.srt(STATS[f]) not in got:
                        bad = 'which has not the extent of %r (%s)' % (f, ' x '.join(x[1] for x in STATS[f]))
        elif n in PGLOB:
            want = (('Q', 'dim', ('c', 0), ('c', 'p_global')),)
            if X[0] == 'op' and X[1] == 'item' and leading(X) is not None:
                b = base(X)
                sh = b[2][0][1] if npcall(b, ALLOC) and b[2] and b[2][0][0] in ('tuple', 'list') else ()
                rest = ()
                for x in sh[len(leading(X)):]:
                    rest += self.norm(x, st)
                if rest != want:
                    bad = 'whose rows are not as long as there are global parameters'
            elif want not in got:
                bad = 'whose size is not the number of global parameters'
        elif n in FAMS:
            fams = FAMS[n]
            if any(f in PAIR and fterm == ('c', f) for f in PAIR) and 'sim' not in fams:
                want = self.srt([('Q', 'dim', stage, ('c', x)) for x in PAIR[fterm[1]]])
                if want not in got:
                    bad = 'whose size is not the product of the dimensions of %s and %s of this stage' % PAIR[fterm[1]]
            elif fterm == ('c', 'qpscaling_obj'):
                if () not in got:
                    bad = 'which has not one element'
            else:
                bad = 'whose number of elements was not compared with (or allocated from) the size reported for the same %sfield' % ('stage and ' if stage is not None else '')
                for s in got:
                    if len(s) == 1 and s[0][0] == 'Q' and s[0][1] in fams and (s[0][1] == 'total' or s[0][2] == stage) and s[0][3] == fterm:
                        bad = None; break
                    qs = [x for x in s if x[0] in ('Q0', 'Q1')]
                    if len(qs) == len(s) and qs and all(x[1] in fams and (x[1] == 'sim' or x[2] == stage) and x[3] == fterm for x in qs):
                        fam = qs[0][1]
                        cand, sure, d = self.candidates(fam, fterm, st)
                        ks = sorted(x[0] for x in qs)
                        if ks == ['Q0', 'Q1']:
                            # compared with both: right for every field; allocated from the product: right unless the second is reported as 0
                            w = [f for f in cand if d[f][1] == 'vec'] if npcall(root(X), ALLOC) else []
                            msg = 'which is allocated without elements for %s (reported with second dimension 0)'
                        elif ks == ['Q0']:
                            w = [f for f in cand if d[f][1] == 'mat'] if npcall(root(X), ALLOC) else []
                            msg = 'which is allocated with the number of rows only for the matrix field(s) %s'
                        else:
                            continue
                        if not w:
                            bad = None; break
                        if not sure:
                            self.undec.setdefault('%s:%d: fields for which %s is called' % (name, node.lineno, n), 0)
                            bad = None; break
                        bad = msg % ', '.join(sorted(w))
        else:
            self.undec.setdefault('%s:%d: what %s reads or writes' % (name, node.lineno, n), 0)
        if bad and any(self.opaque(x) for g in got for x in g):
            self.undec.setdefault('%s:%d: size of %s' % (name, node.lineno, self.show(X)), 0)
            bad = None
        if bad:
            self.add('size:%s:%s:%s' % (name, n, fname), self.where(cl), node.lineno, '%s passes %s to %s, %s' % (name, self.show(X), n, bad))


def has_ptr(fn):
    s = ast.unparse(fn)
    return '.ctypes' in s


def run(ctx):
    P = F.load(omp=False)
    G = cgraph.CG(P)
    K = Chk(P, G)
    nm = paths = 0
    for mod, cls in WORK:
        M = pyffi.module(mod)
        if cls not in M.classes:
            raise AnalysisBroken('class %s not found' % cls)
        C = M.classes[cls]
        helpers = {m for m, f in C.methods.items() if has_ptr(f)}
        for m, fn in sorted(C.methods.items()):
            calls = {x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self'}
            if not has_ptr(fn) and not (calls & helpers and any(h.startswith('_') for h in calls & helpers)):
                continue
            nm += 1
            cl = Cl(C, K, m)
            # what a private helper is passed is judged at its call sites
            used = m.startswith('_') and any(m in {x.attr for x in ast.walk(f2) if isinstance(x, ast.Attribute)} for m2, f2 in C.methods.items() if m2 != m)
            cl.given = {a.arg for a in fn.args.args + fn.args.kwonlyargs} if used else set()
            cl.modname = mod
            e = PI.Py(cl, M.consts)
            try:
                paths += len(e.run(fn, {'self': ('sym', 'self')}))
            except PI.Limit:
                K.undec['%s.%s: too many paths' % (cls, m)] = fn.lineno
    if nm < 10 or len(K.sites) < 30:
        raise AnalysisBroken('only %d methods and %d places that hand arrays to C found' % (nm, len(K.sites)))
    for v in sorted(K.viol.values(), key=lambda v: (v['file'], v['line'])):
        ctx.violation(v['key'], '%s:%d' % (v['file'], v['line']), v['message'])
    for u in sorted(K.undec):
        ctx.skip(u)
    ctx.count('methods', nm)
    ctx.count('paths', paths)
    ctx.count('places', len(K.sites))
    ctx.count('obligations', len(K.obl))
    for n, d in sorted(K.dims.items()):
        ctx.sample('%s: %d fields accepted, %d of them vectors' % (n, len(d), sum(1 for x in d.values() if x[1] == 'vec')))
