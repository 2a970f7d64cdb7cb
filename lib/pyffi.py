"""Foreign calls made by the Python wrappers: which C function, with which values, on which path."""
import ast, os, re
import cfront as F
import pyinterp as PI

BASE = 'interfaces/acados_template/acados_template'
WRAP = [('acados_ocp_solver', 'AcadosOcpSolver'), ('acados_sim_solver', 'AcadosSimSolver'),
        ('acados_ocp_batch_solver', 'AcadosOcpBatchSolver'), ('acados_sim_batch_solver', 'AcadosSimBatchSolver')]
CT = {'c_int': 'int', 'c_int32': 'int', 'c_double': 'double', 'c_bool': 'bool', 'c_char': 'char', 'c_size_t': 'size', 'c_int64': 'size',
      'c_long': 'size', 'c_float': 'float', 'c_longlong': 'size', 'c_uint': 'int'}
_m = {}


def module(name):
    if name not in _m:
        _m[name] = PI.Module(os.path.join(F.REPO, BASE, name + '.py'))
    return _m[name]


def strname(n, hole='\x00'):
    """string a value denotes, unknown parts as hole; None if it is not known to be a string"""
    if n[0] == 'c':
        return n[1] if isinstance(n[1], str) else None
    if n[0] == 'fstr':
        return ''.join(p if isinstance(p, str) else hole if p[0] != 'c' else str(p[1]) for p in n[1])
    if n[0] == 'op' and n[1] == 'Add':
        l, r = strname(n[2], hole), strname(n[3], hole)
        return None if l is None and r is None else re.sub('%s+' % re.escape(hole), lambda m: hole, (hole if l is None else l) + (hole if r is None else r))
    return None


def libfn(fname, fval, st=None):
    """C function called, or None.  Generated names come out with the model name removed ('acados_solve')"""
    if fval[0] == 'attr' and re.search(r'(shared_lib|acados_lib)$', PI.text(fval[1])):
        return fval[2]
    if fval[0] == 'call' and fval[1] == 'getattr' and len(fval[2]) >= 2 and re.search(r'(shared_lib|acados_lib)$', PI.text(fval[2][0])):
        return strname(fval[2][1])
    return None


class Inl(PI.Client):
    """inlines private helpers of the class"""
    def __init__(self, C, merge=False):
        self.C = C
        self.merge = merge
        self.stack = []

    def helper(self, fname, fval, node):
        """private method of the class, or function of its module, that is called"""
        if fval[0] == 'attr' and fval[1] == ('sym', 'self') and fval[2].startswith('_') and fval[2] in self.C.methods:
            fn, b = self.C.methods[fval[2]], {'self': ('sym', 'self'), '*defaults': True}
            if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list):
                return fn, [a.arg for a in fn.args.args], b
            return fn, [a.arg for a in fn.args.args][1:], b
        if isinstance(node.func, ast.Name) and fval == ('sym', node.func.id) and node.func.id in self.C.mod.functions:
            fn = self.C.mod.functions[node.func.id]
            return fn, [a.arg for a in fn.args.args], {'*defaults': True}
        return None

    def call(self, e, fname, fval, args, kw, node, st):
        h = self.helper(fname, fval, node)
        if h and len(self.stack) < 4 and h[0].name not in self.stack and not any(a[:2] == ('op', 'star') for a in args):
            fn, ps, b = h
            if sum(1 for _ in ast.walk(fn)) > 1500 or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs:
                return None
            for p, a in zip(ps, args):
                b[p] = a
            for k, v in kw:
                b[k] = v
            self.stack.append(fn.name)
            try:
                st2 = st.copy()
                env = dict(st.env)
                st2.env = {}
                out = []
                for k, v, s in e.run(fn, b, st2):
                    s.env = dict(env)
                    out.append((v if k == 'return' else ('raise', v), s))
                return out
            finally:
                self.stack.pop()
        return None


    def load(self, e, v, st):
        if v[1] == ('sym', 'self'):
            return self.field(e, v[2])
        return None

    def field(self, e, name, depth=0):
        """value of self.<name> when the class body or the constructor gives it one constant value"""
        c = self.C.__dict__.setdefault('_fields', {})
        if name in c:
            return c[name]
        c[name] = None
        exprs = []
        for n in self.C.node.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name) and t.id == name:
                        exprs.append(n.value)
        for m in list(self.C.methods.values()) + list(self.C.setters.values()):
            for n in ast.walk(m):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and x.attr == name:
                                exprs.append(n.value if t is x and m.name == '__init__' and not isinstance(n, ast.AugAssign) else None)
        if len(exprs) == 1 and exprs[0] is not None:
            r = PI.Py(self, self.C.mod.consts).ev(exprs[0], PI.S(env={'self': ('sym', 'self')}))
            if len(r) == 1 and PI.isconst(r[0][0]) and r[0][0][0] in ('set', 'list', 'tuple'):
                c[name] = r[0][0]
        return c[name]


def strparams(fn):
    r = []
    names = [a.arg for a in fn.args.args if a.arg != 'self']
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare):
            for x in [n.left] + n.comparators:
                if isinstance(x, ast.Name) and x.id in names and x.id not in r:
                    if any(isinstance(c, ast.Constant) and isinstance(c.value, str) or isinstance(c, (ast.Name, ast.List, ast.Tuple, ast.Attribute)) for c in [n.left] + n.comparators):
                        r.append(x.id)
        if isinstance(n, ast.Attribute) and n.attr == 'encode' and isinstance(n.value, ast.Name) and n.value.id in names and n.value.id not in r:
            r.append(n.value.id)
    return [x for x in r if x in names]


def dtype_kind(v):
    t = PI.text(v)
    if re.search(r'int32|intc|c_int', t):
        return 'int'
    if re.search(r'int64', t) or t == 'int':
        return 'size'
    if re.search(r'float64|double', t) or t == 'float':
        return 'double'
    if 'bool' in t:
        return 'bool'
    return None


def array_kind(v):
    """element kind of a numpy array value, or None"""
    if v[0] == 'call':
        f = v[1].split('.')[-1] if not v[1].startswith('getattr') else v[1]
        kw = dict(v[3])
        if f in ('zeros', 'ones', 'empty', 'full', 'array', 'ascontiguousarray', 'asfortranarray', 'zeros_like', 'asarray', 'atleast_1d', 'reshape', 'ravel', 'flatten', 'copy', 'concatenate'):
            if 'dtype' in kw:
                return dtype_kind(kw['dtype'])
            if f in ('zeros', 'ones', 'empty'):
                if len(v[2]) > 1:
                    return dtype_kind(v[2][1])
                return 'double'
            if len(v) > 4 and v[4][0] == 'attr' and v[4][1] not in (('sym', 'np'), ('sym', 'numpy')):
                return array_kind(v[4][1])
            if f in ('ascontiguousarray', 'asfortranarray', 'asarray', 'atleast_1d', 'array', 'reshape', 'ravel') and v[2]:
                return array_kind(v[2][0])
        if f == 'astype' and v[2]:
            return dtype_kind(v[2][0])
        if len(v) > 4 and v[4][0] == 'attr' and f in ('reshape', 'ravel', 'flatten', 'copy', 'squeeze', 'transpose'):
            return array_kind(v[4][1])
    if v[0] == 'attr' and v[2] == 'T':
        return array_kind(v[1])
    return None


def value_kind(v):
    """kind of the object a foreign pointer argument refers to, or None"""
    if v[0] == 'c':
        return 'char' if isinstance(v[1], (bytes, str)) else None
    if v[0] == 'call':
        f = v[1].split('.')[-1]
        a = v[2]
        if f in ('byref', 'pointer', 'addressof') and a:
            return obj_kind(a[0])
        if f == 'cast' and len(a) > 1:
            m = re.search(r'POINTER\((?:ctypes\.)?(c_\w+)\)', PI.text(a[1]))
            inner = value_kind(a[0])
            if m:
                return inner if inner is not None else CT.get(m.group(1))
            return inner
        if f == 'c_void_p' and a:
            return value_kind(a[0])
        if f == 'data_as' and v[1].endswith('.ctypes.data_as'):
            m = re.search(r'POINTER\((?:ctypes\.)?(c_\w+)\)', PI.text(a[0]))
            return CT.get(m.group(1)) if m else None
        if f == 'encode':
            return 'char'
        if f == 'create_string_buffer':
            return 'char'
    if v[0] == 'attr' and v[2] == 'data' and v[1][0] == 'attr' and v[1][2] == 'ctypes':
        return array_kind(v[1][1])
    if v[0] == 'attr' and v[2] == 'ctypes':
        return array_kind(v[1])
    if v[0] == 'sym':
        return None
    return obj_kind(v)


def obj_kind(v):
    if v[0] == 'call':
        f = v[1].split('.')[-1]
        if f in CT:
            return CT[f]
        if f == 'c_void_p':
            return 'ptr'
        if f == 'op':
            return None
    if v[0] == 'call' and v[1].startswith('Mult('):
        m = re.search(r'(c_\w+)', v[1])
        return CT.get(m.group(1)) if m else None
    return None


def run_method(modname, clsname, method, bound):
    """outcomes of a method with some parameters bound to constants, or None"""
    M = module(modname)
    C = M.classes[clsname]
    fn = C.methods.get(method) or C.getters.get(method)
    for merge in (False, True):
        e = PI.Py(Inl(C, merge), M.consts)
        a = {'self': ('sym', 'self')}
        a.update({k: ('c', v) for k, v in bound.items()})
        try:
            return e.run(fn, a)
        except PI.Limit:
            pass
    return None


def foreign(outs, ends=None):
    """distinct foreign calls: (C function, args, line); a path stops at a call for which ends() is true"""
    seen = set()
    for k, v, s in outs:
        # a decision on the name that could not be made: the path may not exist
        if any(c[0] == 'op' and c[1] in ('In', 'NotIn', 'Eq', 'NotEq') and c[2][0] == 'c' and isinstance(c[2][1], str) for c, b in s.conds):
            continue
        for x in s.eff:
            if x[0] == 'call':
                n = libfn(x[1], x[5])
                if n and (n, x[2], x[4]) not in seen:
                    seen.add((n, x[2], x[4]))
                    yield n, x[2], x[4]
                if n and ends and ends(n, x[2]):
                    break


def candidates(C, fn):
    r = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and re.match(r'^[A-Za-z]\w*$', n.value):
            r.add(n.value)
    init = C.methods.get('__init__')
    if init is not None:
        for n in ast.walk(init):
            if isinstance(n, (ast.List, ast.Tuple)):
                for x in n.elts:
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        r.add(x.value)
    for m in list(C.methods.values()):
        for n in ast.walk(m):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.lstrip('_') == fn.name.lstrip('_'):
                for a in n.args:
                    if isinstance(a, ast.Constant) and isinstance(a.value, str):
                        r.add(a.value)
    return sorted(r)
