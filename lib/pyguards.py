"""Rejections: which problem descriptions the Python front end refuses (raise statements with their path conditions, three-valued)."""
import ast, os
import cfront as F

FILE = 'interfaces/acados_template/acados_template/acados_ocp.py'
ROOT = {'opts': 'solver_options', 'constraints': 'constraints', 'cost': 'cost', 'dims': 'dims', 'model': 'model'}
POS = ('pos',)      # some number > 0


def path(e, al):
    if isinstance(e, ast.Name):
        return al.get(e.id)
    if isinstance(e, ast.Attribute):
        if isinstance(e.value, ast.Name) and e.value.id == 'self':
            return e.attr
        b = path(e.value, al)
        return None if b is None else b + '.' + e.attr
    return None


def value(e, env, al):
    if isinstance(e, ast.Constant):
        return e.value
    p = path(e, al)
    return env.get(p) if p else None


def bindvar(n, x, a2, e2, env, al):
    p = path(x, al)
    a2.pop(n, None)
    if p is not None:
        a2[n] = p
    else:
        v = value(x, env, al)
        a2[n] = '$' + n
        e2['$' + n] = v


def members(x, env, al):
    if isinstance(x, (ast.List, ast.Tuple)):
        return [truth(y, env, al) for y in x.elts]
    if isinstance(x, (ast.ListComp, ast.GeneratorExp)) and len(x.generators) == 1:
        g = x.generators[0]
        if isinstance(g.target, ast.Name) and isinstance(g.iter, (ast.List, ast.Tuple)) and not g.ifs:
            out = []
            for y in g.iter.elts:
                a2 = dict(al); e2 = dict(env)
                bindvar(g.target.id, y, a2, e2, env, al)
                out.append(truth(x.elt, e2, a2))
            return out
    return None


def truth(e, env, al):
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.Name) and ('expr', e.id) in al and al.get(e.id) is None:
        a2 = dict(al)
        x = a2.pop(('expr', e.id))
        return truth(x, env, a2)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        t = truth(e.operand, env, al)
        return None if t is None else not t
    if isinstance(e, ast.BoolOp):
        ts = [truth(x, env, al) for x in e.values]
        if isinstance(e.op, ast.And):
            return False if False in ts else (True if all(t is True for t in ts) else None)
        return True if True in ts else (False if all(t is False for t in ts) else None)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        if e.func.id in ('any', 'all') and len(e.args) == 1:
            ts = members(e.args[0], env, al)
            if ts is None:
                return None
            if e.func.id == 'any':
                return True if True in ts else (False if all(t is False for t in ts) else None)
            return False if False in ts else (True if all(t is True for t in ts) else None)
        f = al.get(('lambda', e.func.id))
        if f is not None and len(f.args.args) == len(e.args):
            a2 = dict(al)
            e2 = dict(env)
            for q, x in zip(f.args.args, e.args):
                bindvar(q.arg, x, a2, e2, env, al)
            return truth(f.body, e2, a2)
        return None
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, o, b = e.left, e.ops[0], e.comparators[0]
        va = value(a, env, al)
        if isinstance(o, (ast.In, ast.NotIn)):
            if va is None or va == POS:
                return None
            if not isinstance(b, (ast.List, ast.Tuple, ast.Set)):
                vb = value(b, env, al)
                if isinstance(va, str) and isinstance(vb, str):
                    return (va in vb) == isinstance(o, ast.In)
                return None
            vs = [value(x, env, al) for x in b.elts]
            r = True if va in vs else (None if None in vs else False)
            return r if isinstance(o, ast.In) or r is None else not r
        vb = value(b, env, al)
        if va is None or vb is None:
            return None
        if va == POS or vb == POS:
            if va == POS and vb == 0 and isinstance(vb, int):
                return {ast.Gt: True, ast.GtE: True, ast.NotEq: True, ast.Eq: False, ast.Lt: False, ast.LtE: False}.get(type(o))
            return None
        if isinstance(o, ast.Eq):
            return va == vb
        if isinstance(o, ast.NotEq):
            return va != vb
        if isinstance(va, (int, float)) and isinstance(vb, (int, float)):
            return {ast.Gt: va > vb, ast.GtE: va >= vb, ast.Lt: va < vb, ast.LtE: va <= vb}.get(type(o))
    return None


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Guards:
    """raise statements of AcadosOcp reached from make_consistent, through its own helper methods and module functions"""

    def __init__(self):
        src = open(os.path.join(F.REPO, FILE)).read()
        self.raises = []      # (line, [(test, polarity)], aliases)
        self.methods, self.functions = {}, {}
        for cl in ast.parse(src).body:
            if isinstance(cl, ast.ClassDef) and cl.name == 'AcadosOcp':
                self.methods = {fn.name: fn for fn in cl.body if isinstance(fn, ast.FunctionDef)}
            elif isinstance(cl, ast.FunctionDef):
                self.functions[cl.name] = cl
        self.stack = []
        for fn in self.methods.values():
            if fn.name == 'make_consistent':
                self.enter(fn, [], {})
        if not self.raises:
            for fn in self.methods.values():
                if 'make_consistent' in fn.name:
                    self.enter(fn, [], {})

    def enter(self, fn, conds, binding):
        if fn.name in self.stack or len(self.stack) > 4:
            return
        self.stack.append(fn.name)
        al = dict(ROOT)
        al.update(binding)
        count = {}
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    for q in ast.walk(t):
                        if isinstance(q, ast.Name):
                            count[q.id] = count.get(q.id, 0) + 1
            elif isinstance(s, (ast.AugAssign, ast.For)):
                for q in ast.walk(s.target):
                    if isinstance(q, ast.Name):
                        count[q.id] = 9
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and count[s.targets[0].id] == 1:
                n = s.targets[0].id
                al[n] = path(s.value, {})
                if isinstance(s.value, ast.Lambda):
                    al[('lambda', n)] = s.value
                elif al[n] is None:
                    al[n] = path(s.value, al)
                    if al[n] is None:
                        al[('expr', n)] = s.value
        self.walk(fn.body, conds, al)
        self.stack.pop()

    def callee(self, e):
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == 'self':
            return self.methods.get(e.func.attr)
        if isinstance(e.func, ast.Name):
            return self.functions.get(e.func.id)

    def walk(self, body, conds, al):
        conds = list(conds)
        for s in body:
            if isinstance(s, ast.Raise):
                self.raises.append((s.lineno, list(conds)))
            elif isinstance(s, ast.If):
                self.walk(s.body, conds + [(s.test, True, al)], al)
                self.walk(s.orelse, conds + [(s.test, False, al)], al)
                if ends(s.body) and not isinstance(s.body[-1], ast.Raise):
                    conds.append((s.test, False, al))
            elif isinstance(s, ast.Assert):
                self.raises.append((s.lineno, conds + [(s.test, False, al)]))
            elif isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call):
                f = self.callee(s.value)
                if f is not None:
                    ps = [a.arg for a in f.args.args]
                    if ps[:1] == ['self']:
                        ps = ps[1:]
                    self.enter(f, conds, {p: path(a, al) for p, a in zip(ps, s.value.args) if path(a, al)})
            # bodies of loops, with and try may not run / rejections may be caught: not considered

    def rejects(self, env):
        """line of a raise statement that is certainly reached for every description matching env, or None"""
        for line, conds in self.raises:
            if conds and all(truth(t, env, al) is p for t, p, al in conds):
                return line
        return None
