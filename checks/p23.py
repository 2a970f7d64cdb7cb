"""P23: code templates only refer to data the Python description objects provide."""
import ast, glob, os, re
import cfront as F, tera
from report import AnalysisBroken

RULE = ('All templates of the code generator are parsed. Every variable and attribute path occurring in an expression or condition is resolved, with the scoping of set, set_global, for and macro, against the data model '
        'of each description object the template is rendered with (OCP, multi-phase OCP, simulation), read from the Python classes: the instance attributes assigned anywhere in the class and what their to_dict methods add. '
        'Branches that belong to another problem class and branches guarded by "is defined" are excluded. A path whose first unresolved component is an attribute no object provides is reported.')
B = 'interfaces/acados_template/acados_template'
ANY = ('any',)


class Model:
    def __init__(self):
        self.cls = {}
        self.mod = {}
        for p in glob.glob(os.path.join(F.REPO, B, '*.py')) + glob.glob(os.path.join(F.REPO, B, 'ros2', '*.py')):
            t = ast.parse(open(p).read())
            for c in t.body:
                if isinstance(c, ast.ClassDef):
                    self.cls[c.name] = c
                    self.mod[c.name] = os.path.relpath(p, F.REPO)
        self.memo = {}

    def fields(self, name):
        """attribute -> type of the instances of a class, as they appear in the rendered dictionary; None: not known"""
        if name in self.memo:
            return self.memo[name]
        c = self.cls.get(name)
        if c is None:
            return None
        r = self.memo[name] = {}
        for b in c.bases:
            if isinstance(b, ast.Name) and self.fields(b.id):
                r.update(self.fields(b.id))
        props = {m.name for m in c.body if isinstance(m, ast.FunctionDef) and any(isinstance(d, ast.Name) and d.id == 'property' for d in m.decorator_list)}
        td = next((m for m in c.body if isinstance(m, ast.FunctionDef) and m.name == 'to_dict'), None)
        bymember = td is not None and 'getmembers' in ast.unparse(td)
        if bymember:
            for p in props:
                r[p] = ANY
        for m in c.body:
            if isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name):
                r[m.target.id] = self.atype(m.annotation)
            if not isinstance(m, ast.FunctionDef):
                continue
            late = any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in m.decorator_list) and not bymember      # only there once somebody assigned it
            ann = {a.arg: a.annotation for a in m.args.args if a.annotation is not None}
            for x in ast.walk(m):
                if isinstance(x, (ast.Assign, ast.AnnAssign)):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            a = t.attr[2:] if t.attr.startswith('__') else t.attr
                            if bymember and a not in props or t.attr in props and not t.attr.startswith('__') and not bymember:
                                continue
                            ty = self.vtype(x.value, ann) if x.value is not None else ANY
                            if isinstance(x, ast.AnnAssign) and ty in (ANY, ('none',)):
                                ty = self.atype(x.annotation)
                            if late and ty[0] != 'obj':
                                continue
                            if r.get(a, ('none',)) in (('none',), ANY):
                                r[a] = ty
        for a, v in list(r.items()):
            if v == ('none',):
                r[a] = ANY
        for m in c.body:        # attributes named at run time: the class is open
            if isinstance(m, ast.FunctionDef) and m.name in ('__init__', '__post_init__', '__new__'):
                for x in ast.walk(m):
                    if isinstance(x, ast.Call) and ast.unparse(x.func) in ('setattr', 'object.__setattr__') and not isinstance(x.args[1], ast.Constant) or isinstance(x, ast.Attribute) and x.attr == '__dict__':
                        r['*'] = ANY
        # keys added by to_dict, and by methods that write into the dictionary
        if td is not None:
            for x in ast.walk(td):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
                    r.setdefault(x.slice.value, ANY)
                elif isinstance(x, ast.Dict):
                    for k in x.keys:
                        if isinstance(k, ast.Constant) and isinstance(k.value, str):
                            r.setdefault(k.value, ANY)
        return r

    def atype(self, a):
        s = ast.unparse(a) if not isinstance(a, str) else a
        names = [n for n in re.findall(r'\w+', s) if n in self.cls]
        if len(names) == 1:
            return ('list', ('obj', names[0])) if re.match(r'(?:Optional\[)?[Ll]ist\[', s) else ('obj', names[0])
        return ('list', ANY) if re.match(r'[Ll]ist\b', s) else ANY

    def vtype(self, v, ann):
        if isinstance(v, ast.Constant) and v.value is None:
            return ('none',)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in self.cls:
            return ('obj', v.func.id)
        if isinstance(v, ast.ListComp):
            return ('list', self.vtype(v.elt, ann))
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and isinstance(v.left, ast.List) and len(v.left.elts) == 1:
            t = self.vtype(v.left.elts[0], ann)
            return ('list', ANY if t == ('none',) else t)
        if isinstance(v, ast.Name) and v.id in ann:
            return self.atype(ann[v.id])
        return ANY


ROOTS = {'OCP': 'AcadosOcp', 'MOCP': 'AcadosMultiphaseOcp', 'SIM': 'AcadosSim', 'ROS': 'RosTopicMapper'}


def rendered(M):
    """template path -> problem classes whose description it is rendered with (from the file names in the Python modules)"""
    allf = sorted(glob.glob(os.path.join(F.REPO, B, '**', '*.in.*'), recursive=True))
    byname = {}
    for k, cn in ROOTS.items():
        if cn not in M.cls:
            raise AnalysisBroken('class %s not found' % cn)
        for x in ast.walk(M.cls[cn]):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and '.in.' in x.value and len(x.value) < 80:
                byname.setdefault(os.path.basename(x.value), set()).add(k)
    r = {}
    for f in allf:
        rel = os.path.relpath(f, F.REPO)
        d = os.path.basename(os.path.dirname(f))
        if 'ros2_templates' in rel:
            ks = {'OCP', 'MOCP'} if d.startswith('ocp_') else {'SIM'} if d.startswith('sim_') else {'ROS'} if d.startswith('ros_mapper') else set()
            ks &= byname.get(os.path.basename(f), set())
        elif 'custom_update' in rel:
            ks = {'OCP'}
        else:
            ks = set(byname.get(os.path.basename(f), ())) - {'ROS'}
            if 'matlab_templates' in rel:
                ks = ks & {'OCP', 'SIM'} | (ks & {'MOCP'})
        r[rel] = sorted(ks)
    return r


class Walk:
    def __init__(self, M, kind, rel, out, tally, others=()):
        self.others = others
        self.M, self.kind, self.rel, self.out, self.tally = M, kind, rel, out, tally
        self.glob = {}
        self.macros = set()

    def root(self, n):
        if n in self.glob:
            return self.glob[n]
        if n == 'problem_class':
            return ANY
        f = self.M.fields(ROOTS[self.kind]) if self.kind in ROOTS else None
        if f is None:
            return ANY
        return f.get(n, ANY if '*' in f else None)

    def typ(self, e, sc, line, guard):
        """type of an expression; reports unresolved references on the way"""
        k = e[0]
        if k == 'var':
            for s in reversed(sc):
                if e[1] in s:
                    return s[e[1]]
            t = self.root(e[1])
            if e[1] in ('loop', '__tera_context', 'self'):
                return ANY
            self.tally['references'] = self.tally.get('references', 0) + 1
            if t is None:
                self.miss(e, e[1], 'the description object', line, guard)
                return ANY
            return t
        if k == 'attr':
            b = self.typ(e[1], sc, line, guard)
            if b[0] == 'obj':
                f = self.M.fields(b[1])
                self.tally['references'] = self.tally.get('references', 0) + 1
                if f is not None:
                    if e[2] not in f and '*' not in f:
                        self.miss(e, e[2], b[1], line, guard)
                        return ANY
                    return f.get(e[2], ANY)
            return ANY
        if k == 'idx':
            b = self.typ(e[1], sc, line, guard)
            self.typ(e[2], sc, line, guard)
            return b[1] if b[0] == 'list' else ANY
        if k == 'filter':
            b = self.typ(e[1], sc, line, guard)
            for _, a in e[3]:
                self.typ(a, sc, line, guard)
            if e[2] in ('first', 'last') and b[0] == 'list':
                return b[1]
            if e[2] in ('slice', 'reverse', 'sort', 'filter', 'concat') and b[0] == 'list':
                return b
            if e[2] == 'default':
                return b
            return ANY
        if k == 'test':
            if e[2] not in ('defined', 'undefined'):
                self.typ(e[1], sc, line, guard)
            for a in e[4] or []:
                if isinstance(a, tuple):
                    self.typ(a, sc, line, guard)
            return ANY
        if k == 'call':
            for _, a in e[2]:
                self.typ(a, sc, line, guard)
            return ANY
        if k == 'bin':
            g = guard
            self.typ(e[2], sc, line, guard)
            if e[1] == 'and':
                g = guard | defined(e[2])
            self.typ(e[3], sc, line, g)
            return ANY
        if k in ('not', 'neg'):
            self.typ(e[1], sc, line, guard)
        elif k == 'array':
            for x in e[1]:
                self.typ(x, sc, line, guard)
            return ('list', ANY)
        return ANY

    def miss(self, e, name, owner, line, guard):
        p = tera.etext(e)
        if any(p == g or p.startswith(g + '.') or p.startswith(g + '[') for g in guard):
            return
        self.out.append((name, owner, p, line))

    def has(self, e, sc, kind=None):
        """is the path provided (by the description of the given problem class)"""
        w = Walk(self.M, kind or self.kind, self.rel, [], {})
        w.glob = {} if kind else self.glob
        w.typ(e, sc, 0, set())
        return not w.out

    def cond(self, e, sc, line, guard):
        """a condition: a path that does not exist is false there; accepted only where another class rendered with this template has it"""
        if e[0] == 'bin' and e[1] in ('and', 'or'):
            self.cond(e[2], sc, line, guard)
            if self.truth(e[2], sc) is (e[1] == 'or'):
                return
            self.cond(e[3], sc, line, guard | (defined(e[2]) if e[1] == 'and' else undefined(e[2])))
        elif e[0] == 'not':
            self.cond(e[1], sc, line, guard)
        elif e[0] in ('var', 'attr') and not self.has(e, sc) and any(self.has(e, sc, k) for k in self.others):
            return
        else:
            self.typ(e, sc, line, guard)

    def truth(self, e, sc=()):
        """three-valued value of a condition on the problem class"""
        if e[0] in ('var', 'attr') and not self.has(e, sc):
            return False
        if e[0] == 'bin' and e[1] in ('==', '!='):
            l, r = e[2], e[3]
            if l[0] == 'str':
                l, r = r, l
            if l == ('var', 'problem_class') and r[0] == 'str' and self.kind in ('OCP', 'MOCP', 'SIM'):
                return (r[1] == self.kind) == (e[1] == '==')
        if e[0] == 'not':
            t = self.truth(e[1], sc)
            return None if t is None else not t
        if e[0] == 'bin' and e[1] in ('and', 'or'):
            a, b = self.truth(e[2], sc), self.truth(e[3], sc)
            if e[1] == 'and':
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        return None

    def walk(self, ns, sc, guard):
        for n in ns:
            k = n[0]
            if k == 'out':
                self.typ(n[1], sc, n[2], guard)
            elif k == 'if':
                g0 = guard
                for c, body in n[1]:
                    if c is not None:
                        self.cond(c, sc, n[2], g0)
                        t = self.truth(c, sc)
                        if t is False:
                            continue
                        self.walk(body, sc, g0 | defined(c))
                        if t is True:
                            break
                        g0 = g0 | undefined(c)
                    else:
                        self.walk(body, sc, g0)
            elif k == 'for':
                t = self.typ(n[3], sc, n[6] if len(n) > 6 else 0, guard)
                s = {n[2]: t[1] if t[0] == 'list' else ANY, 'loop': ANY}
                if n[1]:
                    s[n[1]] = ANY
                self.walk(n[4], sc + [s], guard)
                self.walk(n[5] or [], sc, guard)
            elif k == 'set':
                t = self.typ(n[2], sc, n[4], guard)
                if n[3] or not sc:
                    self.glob[n[1]] = t
                else:
                    sc[-1][n[1]] = t
            elif k == 'macro':
                self.walk(n[3], [{'loop': ANY, **{(p if isinstance(p, str) else p[0]): ANY for p in n[2]}}], guard)


def paths(e):
    return {tera.etext(e)}


def defined(c):
    if c[0] == 'test' and c[2] == 'defined' and not c[3] or c[0] == 'test' and c[2] == 'undefined' and c[3]:
        return paths(c[1])
    if c[0] == 'bin' and c[1] == 'and':
        return defined(c[2]) | defined(c[3])
    if c[0] == 'not':
        return undefined(c[1])
    return set()


def undefined(c):
    """paths known to be defined when the condition is false"""
    if c[0] == 'test' and (c[2] == 'undefined' and not c[3] or c[2] == 'defined' and c[3]):
        return paths(c[1])
    if c[0] == 'bin' and c[1] == 'or':
        return undefined(c[2]) | undefined(c[3])
    if c[0] == 'not':
        return defined(c[1])
    return set()


def run(ctx):
    M = Model()
    for k, cn in ROOTS.items():
        if len(M.fields(cn) or ()) < 8:
            raise AnalysisBroken('data model of %s not found' % cn)
    tally = {}
    for rel, kinds in sorted(rendered(M).items()):
        if not kinds:
            ctx.skip('%s: not rendered from Python' % rel)
            continue
        try:
            t = tera.load(os.path.join(F.REPO, rel))
        except tera.TeraError as ex:
            ctx.skip('%s: %s' % (rel, ex))
            continue
        ctx.count('templates')
        for k in kinds:
            out = []
            Walk(M, k, rel, out, tally, [x for x in kinds if x != k]).walk(t, [], set())
            ctx.count('template/description pairs')
            for name, owner, p, line in out:
                own = owner if owner != 'the description object' else ROOTS[k]
                ctx.violation('%s:%s:%s' % (rel.split('/')[-1], own, p), '%s:%s' % (rel, line), 'the template uses %s, but %s provides no %s (rendered for %s)' % (p, own, name, ROOTS[k]))
    for k, v in tally.items():
        ctx.count(k, v)
    ctx.floor('templates', 50)
    ctx.floor('references', 5000)
