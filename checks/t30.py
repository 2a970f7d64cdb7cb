"""T30: generated solvers release exactly what they create."""
import os, re
import cfront as F, cgraph, absint, gen
from report import AnalysisBroken

RULE = ('Every template is expanded for the family of problem descriptions and type-checked. In each generated solver (OCP, multi-phase, integrator, zoRO update, S-function, main program) '
        'the creation functions are interpreted abstractly with all helpers inlined and loops unrolled (sizes are constants of the description), recording each heap block, '
        'each object a create function of the library hands out and each external function object that is set up; then the free functions are interpreted on the resulting state. Every '
        'recorded resource must be released exactly once, by the counterpart of its creator, nothing else may be released, and an array may not be released before its elements. '
        'Functions called in between (updates, resets) are interpreted between creation and release; local blocks must be released before a function returns.')
HEAP = {'malloc', 'calloc', 'acados_malloc', 'acados_calloc', 'realloc'}
FREE = {'free', 'acados_free'}


def counterpart(name, protos):
    m = re.fullmatch(r'(.*?)(?:create|new)(_\w+)?', name)
    if not m:
        return None
    a, b = m.group(1), m.group(2) or ''
    for r in ('free', 'destroy'):
        for s in (b, ''):
            if a + r + s in protos:
                return a + r + s
    return None


class C(absint.Client):
    max_states = 16
    inline_depth = 8

    def __init__(self, P, unit, problems, counts):
        self.P, self.unit = P, unit
        self.problems, self.counts = problems, counts
        self.rel = {}
        self.local = False

    def key(self, st):
        return st.ts

    def inline(self, path, name, e):
        return path == self.unit

    def note(self, kind, name, node, e, txt):
        self.problems.setdefault((kind, name), (e.cur().path, e.cur().name, node.l, txt))

    def add(self, st, rid, fam, node, e, what):
        if any(r == rid for r, f, l, w in st.ts):
            self.note('twice', what, node, e, '%s is created again while the first one has not been released' % what)
            return
        st.ts = tuple(sorted(st.ts + ((rid, fam, node.l, what),)))
        self.counts[fam] = self.counts.get(fam, 0) + 1

    def drop(self, st, rids, fam, node, e):
        """release the resource of this family (element 0 of an array has the address of the array), else one of another family"""
        hit = [x for x in st.ts if x[0] in rids and x[1] == fam] or [x for x in st.ts if x[0] in rids]
        if not hit:
            return False
        rid, f0, _, what = hit[0]
        if f0 != fam:
            self.note('family', what, node, e, '%s was created for release by %s but is released by %s' % (what, f0, fam))
        if fam == 'free':
            kids = [x for x in st.ts if x[0] == 'set:' + rid or re.match(r'set:&?%s(->|\[|\.)' % re.escape(rid), x[0])]
            if kids:
                self.note('order', what, node, e, 'the block %s is released before what it holds (%s)' % (what, kids[0][3]))
        st.ts = tuple(x for x in st.ts if x[0] != rid)
        return True

    def place(self, n):
        """text of what a call result is assigned to"""
        p = n.p
        while p is not None and p.k in ('CStyleCastExpr', 'ImplicitCastExpr', 'ParenExpr'):
            p = p.p
        if p is not None and p.k == 'BinaryOperator' and p.op == '=':
            return text(p.c[0])
        if p is not None and p.k == 'VarDecl':
            return p.n
        return '?'

    def on_call(self, e, name, slot, args, node, st):
        if name is None:
            return None
        if name in HEAP:
            k = fresh('mem~%s~%d~' % (e.cur().name, node.l), st)
            self.add(st, k, 'free', node, e, self.place(node))
            return [(('p', k), st)]
        if name in FREE and len(args) == 1:
            return self.release(e, args[0], 'free', node, st, name)
        if e.P.lookup(name, e.cur().path) and self.inline(e.P.lookup(name, e.cur().path)[0], name, e):
            return None
        if name == 'ssSetUserData' and len(args) == 2:
            st.env['capsule~userdata'] = args[1]
            return [(('t', 'void'), st)]
        if name == 'ssGetUserData' and 'capsule~userdata' in st.env:
            return [(st.env['capsule~userdata'], st)]
        if name == 'ocp_nlp_plan_create' and args:
            r = self.created(e, name, args, node, st)
            for v, s in r:
                s.env[absint.vtext(v) + '->N'] = args[0]
            return r
        if counterpart(name, e.P.protos):
            return self.created(e, name, args, node, st)
        if name in self.rel:
            return self.release(e, args[0], name, node, st, name)
        m = re.search(r'free|destroy', name)
        if m and len(args) == 1 and any(counterpart(n, e.P.protos) == name for n in e.P.protos if 'create' in n or 'new' in n):
            return self.release(e, args[0], name, node, st, name)
        return None

    def created(self, e, name, args, node, st):
        fam = counterpart(name, e.P.protos)
        self.rel[fam] = 1
        rt = e.P.protos[name][0]
        if rt[:rt.index('(')].rstrip().endswith('*'):
            k = fresh('obj~%s~%s~%d~' % (name, e.cur().name, node.l), st)
            self.add(st, k, fam, node, e, self.place(node))
            return [(('p', k), st)]
        if args and args[0][0] in ('&', 't', 'p'):
            self.add(st, 'set:' + absint.vtext(args[0]), fam, node, e, pretty(st, text(node.c[1])))
        return [(('t', 'call:%s' % name), st)]

    def release(self, e, v, fam, node, st, name):
        if v == ('i', 0):
            return [(('t', 'void'), st)]
        ok = self.drop(st, ([v[1]] if v[0] in 'tp' else []) + ['set:' + absint.vtext(v)], fam, node, e)
        if not ok and not (v[0] == 't' and str(v[1]).startswith('any')):
            w = text(node.c[1])
            if not self.local:
                self.note('never', '%s(%s)' % (fam, re.sub(r'\[\w+\]', '[]', w)), node, e, '%s is released by %s but was not created (or was released before)' % (w, name))
        return [(('t', 'void'), st)]

    def on_return(self, e, val, node, st):
        pass


def fresh(pre, st):
    k = 0
    while any(r[0] == pre + str(k) for r in st.ts):
        k += 1
    return pre + str(k)


def pretty(st, t):
    return t


def text(n):
    n = F.strip_casts(n)
    if n.k == 'UnaryOperator':
        return (n.op or '') + text(n.c[0]) if n.op in ('&', '*') else text(n.c[0])
    if n.k == 'MemberExpr':
        return text(n.c[0]) + ('->' if (n.x or {}).get('isArrow') else '.') + (n.n or '')
    if n.k == 'ArraySubscriptExpr':
        return text(n.c[0]) + '[' + text(n.c[1]) + ']'
    if n.k == 'DeclRefExpr':
        return n.r[1] if n.r else n.n
    if n.k == 'IntegerLiteral':
        return str(n.v)
    if n.k == 'BinaryOperator':
        return text(n.c[0]) + n.op + text(n.c[1])
    return n.n or '..'


class Eng(absint.Engine):
    limit = 3000000

    def havoc_args(self, args, n, st, name):
        # library functions do not change members of the capsule or of the plan
        super().havoc_args([a for a in args if a[0] == '&'], n, st, name)


    def block(self, v):
        return v[0] == 'p' and isinstance(v[1], str) and re.fullmatch(r'(mem|obj)~[\w~]+', v[1])

    def truth(self, v, st):
        return True if self.block(v) else super().truth(v, st)

    def arith(self, op, a, b):
        # creation succeeds; the address of an element in its array form
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if self.block(x) and y == ('i', 0):
                    return ('i', int(op == '!='))
        if op in ('+', '-') and b[0] == 'i' and b[1] and (self.block(a) or (a[0] == '&' and re.fullmatch(r'(mem|obj)~[\w~]+\[\d+\]', a[1]))):
            k = b[1] if op == '+' else -b[1]
            if a[0] == '&' and int(a[1][a[1].index('[') + 1:-1]) + k == 0:
                return ('p', a[1][:a[1].index('[')])
            return ('&', self.index(a, ('i', k)))
        return super().arith(op, a, b)


def pairs(u):
    """[(creation functions, middle functions, release functions)]"""
    f = set(u.tu.functions)
    r = []

    def one(*pats):
        out = []
        for p in pats:
            m = [n for n in f if re.fullmatch(p, n)]
            if not m:
                return None
            out.append(sorted(m)[0])
        return out
    c = one(r'\w+_acados_create_capsule', r'\w+_acados_create') or one(r'\w+_acados_sim_solver_create_capsule', r'\w+_acados_sim_create')
    d = one(r'\w+_acados_free', r'\w+_acados_free_capsule') or one(r'\w+_acados_sim_free', r'\w+_acados_sim_solver_free_capsule')
    if c and d:
        r.append((c, d))
    c, d = one('custom_update_init_function'), one('custom_update_terminate_function')
    if c and d:
        r.append((c, d))
    c, d = one('mdlStart'), one('mdlTerminate')
    if c and d:
        r.append((c, d))
    if 'main' in f:
        r.append((['main'], []))
    return r


def middle(u, cs, ds):
    """functions of the unit, not part of creation or release, that create or release something"""
    fs = u.tu.functions
    calls = {n: {F.callee(x) for x in f.walk() if x.k == 'CallExpr'} for n, f in fs.items()}

    def close(start):
        done, work = set(), list(start)
        while work:
            n = work.pop()
            if n not in done:
                done.add(n)
                work += [c for c in calls.get(n, ()) if c]
        return done
    used = close(list(cs) + list(ds))
    return sorted(n for n in fs if n not in used and (n.startswith("mdl") or (fs[n].x or {}).get("storageClass") != "static") and not n.endswith('_create_with_discretization')
                  and any(c in HEAP or c in FREE or (c not in fs and re.search('create|free|destroy', c)) for c in close([n])))


def seq(P, u, path, fns, states, problems, counts):
    """interpret functions one after the other on the state left by the previous one"""
    for fn in fns:
        out = []
        node = dict(P.functions[fn])[path]
        if True:
            for st in states:
                c = C(P, path, problems, counts)
                e = Eng(P, c)
                args = [('p', st.env['*capsule'][1]) if '*capsule' in st.env and ('capsule' in (a.t or '') or a.n == 'solver') else ('p', 'arg~%s' % (a.n or '')) for a in F.params(node)]
                s0 = st.copy()
                s0.env = dict(st.env)
                for v, s in e.run(path, fn, args, s0):
                    s.env = {k: x for k, x in s.env.items() if re.match(r'(mem~|obj~|arg~|::|\*capsule$|capsule~)', k)}
                    s.facts = {}
                    if re.search(r'create_capsule$', fn) and v[0] == 'p':
                        s.env['*capsule'] = v
                    out.append(s)
        u2 = {}
        for s in out:
            u2.setdefault((s.ts, tuple(sorted((k, str(x)) for k, x in s.env.items() if x[0] == 'p' and x[1][:4] in ('mem~', 'obj~')))), s)
        states = list(u2.values())
        if len(states) > 12:
            raise absint.Unsupported('more than 12 resource states after ' + fn)
    return states


def run(ctx):
    nu = 0
    seen = {}
    for g in gen.load():
        for o, u in g['units'].items():
            if u.tu is None:
                continue
            pr = pairs(u)
            if not pr:
                continue
            path = os.path.join(g['root'], o)
            P = F.Program({path: u.tu}, {})
            if path not in [p for l in P.functions.values() for p, _ in l]:
                path = next(p for l in P.functions.values() for p, f in l)
            nu += 1
            for cs, ds in pr:
                problems, counts = {}, {}
                try:
                    sts = seq(P, u, path, cs, [absint.St()], problems, counts)
                    ctx.count('creation_states', len(sts))
                    end = seq(P, u, path, ds, sts, problems, counts) if ds else sts
                    for m in middle(u, cs, ds):
                        ctx.count('calls_in_between')
                        end = end + seq(P, u, path, ds, seq(P, u, path, [m], sts, problems, {}), problems, {})
                except absint.Unsupported as x:
                    ctx.skip('%s %s: %s' % (u.rel, cs[-1], x))
                    continue
                for st in end:
                    for rid, fam, l, what in st.ts:
                        problems.setdefault(('leak', what), (path, cs[-1], l, '%s is created but never released by %s' % (what, fam)))
                ctx.count('solvers')
                for f, n in counts.items():
                    ctx.count('resources', n)
                for (k, w), (p, f, l, t) in problems.items():
                    key = '%s:%s:%s' % (u.rel.split('/')[-1], k, re.sub(r'\[\w+\]', '[]', w))
                    if key not in seen:
                        seen[key] = 1
                        ctx.violation(key, gen.where(g, p, l), '%s (description %s)' % (t, getattr(g['cfg'], 'name', '')))
    if nu < 100 or ctx.counts.get('resources', 0) < 2000:
        raise AnalysisBroken('T30: generated solvers or their resources not found')
