"""Forward abstract interpreter over the typed AST (structured control flow, path-splitting with merging).

Values:  ('i',n) ('f',x) constants; ('s',text,offset) pointer into a constant string; ('us',id,cls) pointer to a string
about which only non-membership is known; ('p',loc) the unknown value initially stored at loc; ('&',loc) address of loc;
('fn',name); ('t',tag) opaque; ('e',op,a,b) unevaluated expression.
Locations are access paths:  'x', 'x->f', 'x->f[i]', 'x.f' with local aliases resolved.
Nothing is executed: loops with constant bounds are unrolled by constant propagation, all others are run to a fixpoint.
"""
import cfront as F

NORETURN = {'exit', 'abort', '_exit', '__assert_fail', '__assert', 'acados_abort', 'longjmp'}


class Unsupported(Exception):
    pass


def vtext(v):
    k = v[0]
    if k == 'i' or k == 'f':
        return str(v[1])
    if k == 's':
        return '"%s"+%d' % (v[1], v[2]) if v[2] else '"%s"' % v[1]
    if k == 'us':
        return '?str'
    if k == 'p':
        return v[1]
    if k == '&':
        return '&' + v[1]
    if k == 'fn':
        return v[1]
    if k == 't':
        return '<%s>' % (v[1],)
    if k == 'e':
        if len(v) == 3:
            return '%s%s' % (v[1], vtext(v[2]))
        return '(%s%s%s)' % (vtext(v[2]), v[1], vtext(v[3]))
    return repr(v)


def depth(v):
    if v[0] == 'e':
        return 1 + max(depth(a) for a in v[2:])
    return 0


class St:
    __slots__ = ('env', 'must', 'may', 'facts', 'ts')

    def __init__(self):
        self.env = {}; self.must = frozenset(); self.may = frozenset(); self.facts = {}; self.ts = ()

    def copy(self):
        s = St()
        s.env = dict(self.env); s.must = self.must; s.may = self.may; s.facts = dict(self.facts); s.ts = self.ts
        return s

    def same(self, o):
        return self.env == o.env and self.must == o.must and self.may == o.may and self.facts == o.facts and self.ts == o.ts


class Client:
    max_states = 24
    inline_depth = 6
    merge = True
    loops_at_least_once = False

    def key(self, st):
        return st.ts

    def on_write(self, e, loc, val, node, st):
        pass

    def on_load(self, e, loc, node, st):
        pass

    def on_call(self, e, name, slot, args, node, st):
        """return None for default treatment, or [(value, state)] (an empty list: does not return)"""
        return None

    def inline(self, path, name, e):
        return False

    def on_return(self, e, val, node, st):
        pass


def const_table(d):
    t = d.t or ''
    return t.startswith('const ') and '*' not in t.split('[')[0] and (d.x or {}).get('init') and any(c.k == 'InitListExpr' for c in d.c)


class Frame:
    def __init__(self, path, name, fn, fid):
        self.path = path; self.name = name; self.fn = fn; self.fid = fid
        self.ids = {}
        self.consts = {}      # id -> constant array or struct declared in the function
        seen = {}
        for a in fn.walk():
            if a.k in ('ParmVarDecl', 'VarDecl') and a.id:
                n = a.n or '_'
                seen[n] = seen.get(n, 0) + 1
                self.ids[a.id] = fid + n + ('' if seen[n] == 1 else '~%d' % seen[n])
                if a.k == 'VarDecl' and const_table(a):
                    self.consts[a.id] = a


class Engine:
    maxd = 6

    def __init__(self, P, client, cg=None):
        self.P = P
        self.c = client
        self.cg = cg
        self.frames = []
        self.exits = []       # (kind, frame-depth, val, st)
        self.nwork = 0
        self.limit = 400000
        self._frames_cache = {}

    # ---- public -------------------------------------------------------------------------
    def run(self, path, name, args=None, st=None):
        """returns list of (value, state) for every normal return; process-terminating paths vanish"""
        fn = dict(self.P.functions.get(name, ())).get(path)
        if fn is None:
            d = self.P.lookup(name, path)
            if d is None:
                raise Unsupported('no definition of ' + name)
            path, fn = d
        st = st or St()
        return self.call_fn(path, name, fn, args or [], st, root=True)

    def cur(self):
        return self.frames[-1]

    def call_fn(self, path, name, fn, args, st, root=False):
        fid = '' if root else '%s%s:' % (self.frames[-1].fid.rstrip(':') + '/' if self.frames and self.frames[-1].fid else '', name)
        fc = self._frames_cache.get((path, name, fid))
        if fc is None:
            fc = self._frames_cache[(path, name, fid)] = Frame(path, name, fn, fid)
        fr = fc
        ps = F.params(fn)
        for i, p in enumerate(ps):
            if i < len(args) and args[i] is not None:
                st.env[fr.ids[p.id]] = args[i]
            elif not root:
                st.env[fr.ids[p.id]] = ('t', 'arg%d:%s' % (i, name))
        self.frames.append(fr)
        try:
            b = F.body(fn)
            flow = self.ex(b, [st])
            outs = [(v, s) for v, s in flow['ret']]
            outs += [(('t', 'void'), s) for s in flow['next']]
            if flow['goto']:
                raise Unsupported('goto')
        finally:
            self.frames.pop()
        if not root and len(outs) > 1:
            # drop the callee's locals so that equal states merge
            for v, s in outs:
                for k in [k for k in s.env if k.startswith(fid)]:
                    del s.env[k]
                for k in [k for k in s.facts if fid in k]:
                    del s.facts[k]
            outs = self.merge_vals(outs)
        return outs

    # ---- merging ------------------------------------------------------------------------
    def merge_states(self, sts, tag):
        if len(sts) <= 1:
            return sts
        if not self.c.merge and len(sts) <= self.c.max_states:
            out = []
            for s in sts:
                if not any(s.same(o) for o in out):
                    out.append(s)
            return out
        d = {}
        for s in sts:
            k = self.c.key(s)
            if k in d:
                d[k] = self.join(d[k], s, tag)
            else:
                d[k] = s
        return list(d.values())

    def join(self, a, b, tag):
        s = St()
        s.ts = a.ts
        s.must = a.must & b.must
        s.may = a.may | b.may
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        ea, eb = a.env, b.env
        for k in ea:
            va = ea[k]
            vb = eb.get(k)
            if vb is None:
                vb = ('p', k)
            s.env[k] = va if va == vb else ('t', '%s@%s' % (k, tag))
        for k in eb:
            if k not in ea:
                s.env[k] = eb[k] if eb[k] == ('p', k) else ('t', '%s@%s' % (k, tag))
        return s

    def merge_vals(self, outs):
        d = {}
        for v, s in outs:
            k = (v, self.c.key(s))
            if k in d:
                d[k] = (v, self.join(d[k][1], s, 'ret'))
            else:
                d[k] = (v, s)
        r = list(d.values())
        return r

    # ---- statements ---------------------------------------------------------------------
    def ex(self, n, sts):
        fl = dict(next=[], brk=[], cont=[], ret=[], goto=[])
        if not sts:
            return fl
        self.nwork += 1
        if self.nwork > self.limit:
            raise Unsupported('work limit')
        k = n.k
        m = getattr(self, 'x_' + k, None)
        if m:
            m(n, sts, fl)
        elif k in ('Null', 'NullStmt'):
            fl['next'] = sts
        else:                                   # expression statement
            for s in sts:
                for v, s2 in self.ev(n, s):
                    fl['next'].append(s2)
        if len(fl['next']) > 1:
            fl['next'] = self.merge_states(fl['next'], 'j%d' % n.l)
        return fl

    def _seq(self, stmts, sts, fl):
        cur = sts
        for c in stmts:
            if not cur:
                break
            f = self.ex(c, cur)
            for q in ('brk', 'cont', 'ret', 'goto'):
                fl[q] += f[q]
            cur = f['next']
        fl['next'] += cur

    def x_CompoundStmt(self, n, sts, fl):
        self._seq(n.c, sts, fl)

    def x_DeclStmt(self, n, sts, fl):
        cur = sts
        for d in n.c:
            if d.k != 'VarDecl':
                continue
            loc = self.cur().ids.get(d.id, d.n)
            init = [c for c in d.c if c.k not in ('FullComment',)]
            out = []
            for s in cur:
                if (d.x or {}).get('init') and init:
                    if init[-1].k == 'InitListExpr':
                        for j, e in enumerate(init[-1].c):
                            for v, s in self.ev(e, s)[:1]:
                                s.env['%s[%d]' % (loc, j)] = v
                        s.env[loc] = ('&', loc)
                        out.append(s)
                        continue
                    for v, s2 in self.ev(init[-1], s):
                        if '[' in (d.t or '') and v[0] == 's':
                            self._strcpy(loc, v, s2)
                        else:
                            s2.env[loc] = v
                            self.c.on_write(self, loc, v, d, s2)
                        out.append(s2)
                else:
                    self.kill(s, loc)
                    if '*' not in (d.t or '') and '[' not in (d.t or '') and self.P.rec_of(d.t) in self.P.records:
                        s.env.pop(loc, None)
                        out.append(s)
                        continue
                    s.env[loc] = ('&', loc) if (d.t or '').endswith(']') else ('t', 'uninit:' + loc)
                    out.append(s)
            cur = out
        fl['next'] += cur

    def x_IfStmt(self, n, sts, fl):
        cs = [c for c in n.c]
        cond, th = cs[0], cs[1]
        el = cs[2] if len(cs) > 2 else None
        T, E = [], []
        for s in sts:
            t, e = self.cond(cond, s)
            T += t; E += e
        T = self.merge_states(T, 't%d' % n.l); E = self.merge_states(E, 'e%d' % n.l)
        f = self.ex(th, T)
        for q in fl:
            fl[q] += f[q]
        if el is not None:
            f = self.ex(el, E)
            for q in fl:
                fl[q] += f[q]
        else:
            fl['next'] += E

    def x_ReturnStmt(self, n, sts, fl):
        for s in sts:
            if n.c:
                for v, s2 in self.ev(n.c[0], s):
                    self.c.on_return(self, v, n, s2)
                    fl['ret'].append((v, s2))
            else:
                self.c.on_return(self, ('t', 'void'), n, s)
                fl['ret'].append((('t', 'void'), s))
        if len(fl['ret']) > 1:
            fl['ret'] = self.merge_vals(fl['ret'])

    def x_BreakStmt(self, n, sts, fl):
        fl['brk'] += sts

    def x_ContinueStmt(self, n, sts, fl):
        fl['cont'] += sts

    def x_GotoStmt(self, n, sts, fl):
        raise Unsupported('goto')

    def x_LabelStmt(self, n, sts, fl):
        self._seq(n.c, sts, fl)

    def _omp(self, n, sts, fl):
        """OpenMP directive: analyse the associated statement once"""
        for c in n.c:
            if c.k == 'CapturedStmt':
                inner = c.c[0]
                b = inner
                if inner.k == 'CapturedDecl':
                    b = inner.c[0]
                f = self.ex(b, sts)
                for q in fl:
                    fl[q] += f[q]
                return
            if c.k in ('ForStmt', 'CompoundStmt'):
                f = self.ex(c, sts)
                for q in fl:
                    fl[q] += f[q]
                return
        fl['next'] += sts

    def x_OMPParallelForDirective(self, n, sts, fl):
        self._omp(n, sts, fl)

    x_OMPParallelDirective = x_OMPForDirective = x_OMPCriticalDirective = x_OMPParallelForDirective

    def loop(self, n, sts, fl, cond, body, step, post=False):
        """generic loop.  constant-condition loops are unrolled, others run to a fixpoint"""
        exits = []
        # 1. try unrolling
        cur = [s.copy() for s in sts]
        trial_ret, trial_goto = [], []
        ok = True
        if not post and cond is not None and cond.k != 'Null' and self.unrollable(cond):
            it = 0
            texits = []
            snap = self.snapshot()
            while True:
                T, E = [], []
                for s in cur:
                    r = self.cond(cond, s)
                    if r[0] and r[1]:
                        ok = False
                    T += r[0]; E += r[1]
                if not ok:
                    break
                texits += E
                if not T:
                    break
                it += 1
                if it > 80:
                    ok = False
                    break
                f = self.ex(body, T)
                trial_ret += f['ret']; trial_goto += f['goto']
                texits += f['brk']
                cur = f['next'] + f['cont']
                if step is not None and step.k != 'Null':
                    cur = [s2 for s in cur for v, s2 in self.ev(step, s)]
                cur = self.merge_states(cur, 'u%d' % n.l)
                if not cur:
                    break
            if ok:
                fl['next'] += texits
                fl['ret'] += trial_ret
                fl['goto'] += trial_goto
                self.generic_loop = False
                return
            self.restore(snap)
        # 2. fixpoint
        self.generic_loop = True
        if self.c.loops_at_least_once:
            # one generic iteration: everything assigned in the loop is summarised first
            assigned = [a.c[0] for r in (body, step) if r is not None for a in r.walk()
                        if (a.k == 'BinaryOperator' and a.op == '=') or a.k == 'CompoundAssignOperator' or (a.k == 'UnaryOperator' and a.op in ('++', '--'))]
            T = []
            for s in [s.copy() for s in sts]:
                for l in assigned:
                    if l.k == 'DeclRefExpr' and l.r[3] in self.cur().ids:
                        q = self.cur().ids[l.r[3]]
                        self.kill(s, q)
                        s.env[q] = ('t', '%s@l%d' % (q, n.l))
                if cond is None or cond.k == 'Null' or post:
                    T.append(s)
                else:
                    T += self.cond(cond, s)[0]
            f = self.ex(body, T)
            fl['ret'] += f['ret']; fl['goto'] += f['goto']
            out = f['next'] + f['cont'] + f['brk']
            if step is not None and step.k != 'Null':
                out = [s2 for s in out for v, s2 in self.ev(step, s)]
            fl['next'] += out
            return
        cur = self.merge_states([s.copy() for s in sts], 'l%d' % n.l)
        rets, gotos, exits = [], [], []
        for it in range(8):
            snap = self.snapshot()
            rets, gotos, exits = [], [], []
            T = []
            entry = [s.copy() for s in cur]
            if post and it == 0 and False:
                pass
            if cond is None or cond.k == 'Null' or post:
                T = entry
            else:
                for s in entry:
                    t, e = self.cond(cond, s)
                    T += t; exits += e
            f = self.ex(body, T)
            rets = f['ret']; gotos = f['goto']
            exits += f['brk']
            nxt = f['next'] + f['cont']
            if step is not None and step.k != 'Null':
                nxt = [s2 for s in nxt for v, s2 in self.ev(step, s)]
            if post:
                tmp = []
                for s in nxt:
                    t, e = self.cond(cond, s)
                    tmp += t; exits += e
                nxt = tmp
            new = self.merge_states([s.copy() for s in cur] + nxt, 'l%d' % n.l)
            if len(new) == len(cur) and all(any(a.same(b) for b in cur) for a in new):
                break
            cur = new
        else:
            raise Unsupported('loop at line %s does not converge' % n.l)
        fl['next'] += exits
        fl['ret'] += rets
        fl['goto'] += gotos

    def unrollable(self, cond):
        return True

    # clients with accumulating side tables may override these to discard aborted trials
    def snapshot(self):
        f = getattr(self.c, 'snapshot', None)
        return f() if f else None

    def restore(self, x):
        f = getattr(self.c, 'restore', None)
        if f:
            f(x)

    def x_ForStmt(self, n, sts, fl):
        init, cv, cond, step, body = n.c[0], n.c[1], n.c[2], n.c[3], n.c[4]
        f = self.ex(init, sts)
        self.loop(n, f['next'], fl, cond, body, step)

    def x_WhileStmt(self, n, sts, fl):
        self.loop(n, sts, fl, n.c[0], n.c[-1], None)

    def x_DoStmt(self, n, sts, fl):
        self.loop(n, sts, fl, n.c[1], n.c[0], None, post=True)

    def x_SwitchStmt(self, n, sts, fl):
        cond, body = n.c[0], n.c[-1]
        flat = []      # (labels, stmt) labels: list of case values / 'default'

        def flatten(s, labels):
            while s.k in ('CaseStmt', 'DefaultStmt'):
                if s.k == 'DefaultStmt':
                    labels = labels + ['default']
                    s = s.c[-1]
                else:
                    labels = labels + [s.c[0]]
                    s = s.c[-1]
            flat.append((labels, s))
        for c in (body.c if body.k == 'CompoundStmt' else [body]):
            flatten(c, [])
        outs, rets, conts, gotos = [], [], [], []
        for s in sts:
            for v, s1 in self.ev(cond, s):
                targets = []
                rest = []
                cvs = []
                for i, (labs, st_) in enumerate(flat):
                    for lb in labs:
                        if lb == 'default':
                            cvs.append((i, None))
                        else:
                            cvs.append((i, self.ev(lb, s1.copy())[0][0]))
                hit = None
                if v[0] == 'i':
                    for i, cv in cvs:
                        if cv is not None and cv == v:
                            hit = i
                    if hit is None:
                        for i, cv in cvs:
                            if cv is None:
                                hit = i
                    if hit is None:
                        outs.append(s1)
                        continue
                    targets = [(hit, s1)]
                else:
                    for i, cv in cvs:
                        s2 = s1.copy()
                        if cv is not None:
                            if s2.facts.get(vtext(v) + '==' + vtext(cv)) is False:
                                continue
                            s2 = self.assume_eq(v, cv, s2)
                        targets.append((i, s2))
                    if not any(cv is None for i, cv in cvs):
                        outs.append(s1.copy())
                for i, s2 in targets:
                    f = dict(next=[], brk=[], cont=[], ret=[], goto=[])
                    self._seq([q for _, q in flat[i:]], [s2], f)
                    outs += f['next'] + f['brk']
                    rets += f['ret']; conts += f['cont']; gotos += f['goto']
        fl['next'] += outs; fl['ret'] += rets; fl['cont'] += conts; fl['goto'] += gotos

    # ---- conditions ---------------------------------------------------------------------
    def truth(self, v, st):
        if v[0] == 'i':
            return v[1] != 0
        if v[0] == 'f':
            return v[1] != 0
        if v[0] in ('s', '&', 'fn', 'us'):
            return True
        if v[0] == 'e' and v[1] == '!' and len(v) == 3:
            t = self.truth(v[2], st)
            return None if t is None else not t
        return st.facts.get(vtext(v))

    def cond(self, n, st):
        """(states where true, states where false)"""
        n2 = n
        while n2.k == 'CStyleCastExpr':
            n2 = n2.c[-1]
        if n2.k == 'UnaryOperator' and n2.op == '!':
            t, e = self.cond(n2.c[0], st)
            return e, t
        if n2.k == 'BinaryOperator' and n2.op == '&&':
            T, E = [], []
            t, e = self.cond(n2.c[0], st)
            E += e
            for s in t:
                t2, e2 = self.cond(n2.c[1], s)
                T += t2; E += e2
            return self.merge_states(T, 'a%d' % n.l), self.merge_states(E, 'a%d' % n.l)
        if n2.k == 'BinaryOperator' and n2.op == '||':
            T, E = [], []
            t, e = self.cond(n2.c[0], st)
            T += t
            for s in e:
                t2, e2 = self.cond(n2.c[1], s)
                T += t2; E += e2
            return self.merge_states(T, 'o%d' % n.l), self.merge_states(E, 'o%d' % n.l)
        T, E = [], []
        for v, s in self.ev(n2, st):
            b = self.truth(v, s)
            if b is None:
                s2 = s.copy()
                a = self.assume(v, s, True)
                if a is not None:
                    T.append(a)
                a = self.assume(v, s2, False)
                if a is not None:
                    E.append(a)
            elif b:
                T.append(s)
            else:
                E.append(s)
        return T, E

    def assume(self, v, st, val):
        if v[0] == 'e' and v[1] == '!' and len(v) == 3:
            return self.assume(v[2], st, not val)
        st.facts[vtext(v)] = val
        if v[0] == 'e' and len(v) == 4 and v[1] in ('==', '!='):
            if (v[1] == '==') == val:
                return self.assume_eq(v[2], v[3], st)
            st.facts[vtext(v[2]) + '==' + vtext(v[3])] = False
        if v[0] in ('p', 't') and not val:
            self.subst(v, ('i', 0), st)
        h = getattr(self.c, 'on_assume', None)
        if h:
            return h(self, v, val, st)
        return st

    def assume_eq(self, a, b, st):
        if a[0] == 'i' and b[0] != 'i':
            a, b = b, a
        if b[0] in ('i', 'f') and a[0] in ('p', 't'):
            self.subst(a, b, st)
        return st

    def subst(self, a, b, st):
        if a[0] == 'p' and self.stable_loc(a[1]):
            st.env.setdefault(a[1], b)
        for k, v in list(st.env.items()):
            if v == a:
                st.env[k] = b

    def stable_loc(self, loc):
        return '<' not in loc and '(' not in loc

    # ---- expressions --------------------------------------------------------------------
    def ev(self, n, st):
        self.nwork += 1
        if self.nwork > self.limit:
            raise Unsupported('work limit')
        m = getattr(self, 'e_' + n.k, None)
        if m:
            return m(n, st)
        # unknown expression: evaluate children for effects
        cur = [st]
        for c in n.c:
            if c.k.endswith('Decl'):
                continue
            cur = [s2 for s in cur for v, s2 in self.ev(c, s)]
        return [(('t', '%s:%s' % (n.k, n.l)), s) for s in cur]

    def e_IntegerLiteral(self, n, st):
        try:
            return [(('i', int(n.v)), st)]
        except Exception:
            return [(('t', 'int'), st)]

    def e_CharacterLiteral(self, n, st):
        return [(('i', int(n.v)), st)]

    def e_FloatingLiteral(self, n, st):
        return [(('f', float(n.v)), st)]

    def e_StringLiteral(self, n, st):
        return [(('s', F.string_lit(n), 0), st)]

    def e_CStyleCastExpr(self, n, st):
        return self.ev(n.c[-1], st)

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        at = (n.x or {}).get('argType') or {}
        t = at.get('desugaredQualType') or at.get('qualType') or (n.c[0].t if n.c else '?')
        return [(('t', 'sizeof ' + str(t)), st)]

    def e_DeclRefExpr(self, n, st):
        kind, name, ty, rid = n.r or (None, n.n, None, None)
        if kind == 'EnumConstantDecl':
            v = self.P.enums.get(name)
            return [(('i', v) if v is not None else ('t', name), st)]
        if kind == 'FunctionDecl':
            return [(('fn', name), st)]
        for l, s in self.lv(n, st):
            self.c.on_load(self, l, n, s)
            return [(self.load(l, s, n), s)]

    def load(self, loc, st, node=None):
        v = st.env.get(loc)
        if v is not None:
            return v
        t = (node.t if node is not None else '') or ''
        if t.rstrip().endswith(']'):
            return ('&', loc)
        return ('p', loc)

    def lv(self, n, st):
        """[(location, state)]"""
        k = n.k
        if k == 'DeclRefExpr':
            rid = n.r[3] if n.r else None
            for fr in reversed(self.frames[-1:]):
                if rid in fr.ids:
                    return [(fr.ids[rid], st)]
            return [('::' + str(n.r[1] if n.r else n.n), st)]
        if k == 'MemberExpr':
            base = n.c[0]
            if (n.x or {}).get('isArrow'):
                return [(self.deref(v) + n.n if self.deref(v).endswith('.') else self.deref(v) + n.n, s) for v, s in self.ev(base, st)]
            out = []
            for l, s in self.lv(base, st):
                v = s.env.get(l)
                if v is not None and v[0] == 'p' and v[1] != l:
                    l = v[1]                  # struct passed or copied by value
                out.append((l + '.' + n.n, s))
            return out
        if k == 'ArraySubscriptExpr':
            out = []
            for v, s in self.ev(n.c[0], st):
                for i, s2 in self.ev(n.c[1], s):
                    out.append((self.index(v, i), s2))
            return out
        if k == 'UnaryOperator' and n.op == '*':
            return [(self.index(v, ('i', 0)), s) for v, s in self.ev(n.c[0], st)]
        if k == 'CStyleCastExpr':
            return self.lv(n.c[-1], st)
        if k == 'ConditionalOperator':
            out = []
            for v, s in self.ev(n, st):
                out.append((vtext(v), s))
            return out
        if k == 'CompoundLiteralExpr':
            return [('<compound%d>' % n.l, st)]
        return [('<lv:%s:%s>' % (k, n.l), s) for v, s in self.ev_generic(n, st)]

    def ev_generic(self, n, st):
        cur = [st]
        for c in n.c:
            cur = [s2 for s in cur for v, s2 in self.ev(c, s)]
        return [(('t', '%s:%s' % (n.k, n.l)), s) for s in cur]

    def deref(self, v):
        """prefix for v->"""
        if v[0] == '&':
            l = v[1]
            if l.endswith(']') and l.rfind('[') > 0:
                return l + '.'
            return l + '.'
        return vtext(v) + '->'

    def index(self, v, i):
        if v[0] == '&':
            l = v[1]
            # address of an element or array object
            if l.endswith(']') and not l.endswith('[]'):
                # pointer to element: shift
                b = l.rfind('[')
                inner = l[b + 1:-1]
                if i == ('i', 0):
                    return l
                try:
                    if i[0] == 'i':
                        return l[:b] + '[%d]' % (int(inner) + i[1])
                except ValueError:
                    pass
                return l[:b] + '[%s+%s]' % (inner, vtext(i))
            if i == ('i', 0):
                return l
            return l + '[' + vtext(i) + ']'
        if v[0] == 'e' and v[1] == '+' and len(v) == 4:
            if i == ('i', 0):
                return self.index(v[2], v[3])
            return self.index(v[2], self.arith('+', v[3], i))
        return vtext(v) + '[' + vtext(i) + ']'

    def const_elem(self, n, st):
        """initializer an element of a constant table denotes, the table being indexed with constants"""
        if n.k == 'DeclRefExpr':
            if not n.r or n.r[0] != 'VarDecl':
                return None
            d = self.frames[-1].consts.get(n.r[3])
            if d is None and n.r[3] not in self.frames[-1].ids:
                d = self.file_consts().get(n.r[1])
            return next((c for c in d.c if c.k == 'InitListExpr'), None) if d is not None else None
        if n.k in ('CStyleCastExpr', 'ParenExpr', 'ImplicitCastExpr') and n.c:
            return self.const_elem(n.c[-1], st)
        if n.k == 'ArraySubscriptExpr':
            b = self.const_elem(n.c[0], st)
            if b is None or b.k != 'InitListExpr':
                return None
            i = self.ev(n.c[1], st.copy())
            if len(i) == 1 and i[0][0][0] == 'i' and 0 <= i[0][0][1] < len(b.c):
                return b.c[i[0][0][1]]
            return None
        if n.k == 'MemberExpr' and not (n.x or {}).get('isArrow'):
            b = self.const_elem(n.c[0], st)
            if b is None or b.k != 'InitListExpr':
                return None
            fl = self.P.records.get(self.P.rec_of(n.c[0].t)) or next(([(a.n,) for a in r.c if a.k == 'FieldDecl'] for d in self.frames[-1].consts.values()
                 if F.strip_type(d.t) == F.strip_type(n.c[0].t) and d.p is not None for r in d.p.c if r.k == 'RecordDecl'), ())
            fl = [f[0] for f in fl]
            if n.n in fl and fl.index(n.n) < len(b.c):
                return b.c[fl.index(n.n)]
        return None

    def file_consts(self):
        p = self.frames[-1].path
        c = self.__dict__.setdefault('_fc', {})
        if p not in c:
            tu = self.P.tus.get(p)
            c[p] = {d.n: d for d in (tu.globals if tu else ()) if const_table(d)}
        return c[p]

    def e_MemberExpr(self, n, st):
        ce = self.const_elem(n, st)
        if ce is not None and ce.k != 'InitListExpr':
            return self.ev(ce, st)
        out = []
        for l, s in self.lv(n, st):
            self.c.on_load(self, l, n, s)
            out.append((self.load(l, s, n), s))
        return out

    def e_ArraySubscriptExpr(self, n, st):
        ce = self.const_elem(n, st)
        if ce is not None and ce.k != 'InitListExpr':
            return self.ev(ce, st)
        out = []
        for v, s in self.ev(n.c[0], st):
            for i, s2 in self.ev(n.c[1], s):
                if v[0] == 's' and i[0] == 'i':
                    k = v[2] + i[1]
                    if 0 <= k <= len(v[1]):
                        out.append((('i', ord(v[1][k]) if k < len(v[1]) else 0), s2))
                        continue
                l = self.index(v, i)
                if v[0] == '&' and l not in s2.env and (v[1] + '[0]') != l:
                    pass
                self.c.on_load(self, l, n, s2)
                out.append((self.load_elem(l, s2, n), s2))
        return out

    def load_elem(self, l, st, n):
        # a local array of which element 0 is stored as plain loc
        if l.endswith('[0]') and l not in st.env and l[:-3] in st.env and st.env[l[:-3]][0] not in ('&', 'p'):
            pass
        if st.env.get(l) == ('&', l) and '[' not in (n.t or '') and l + '[0]' in st.env:
            l += '[0]'
        return self.load(l, st, n)

    def e_UnaryOperator(self, n, st):
        op = n.op
        if op == '&':
            c = F.strip_casts(n.c[0])
            if c.k == 'DeclRefExpr' and c.r and c.r[0] == 'FunctionDecl':
                return [(('fn', c.r[1]), st)]
            if c.k == 'ArraySubscriptExpr':
                out = []
                for v, s in self.ev(c.c[0], st):
                    for i, s2 in self.ev(c.c[1], s):
                        if v[0] in ('s', 'us'):
                            out.append((self.arith('+', v, i), s2))
                        elif i == ('i', 0) and v[0] in ('p', 't', '&'):
                            out.append((v, s2))
                        else:
                            out.append((('&', self.index(v, i)), s2))
                return out
            return [(('&', l), s) for l, s in self.lv(n.c[0], st)]
        if op == '*':
            out = []
            for v, s in self.ev(n.c[0], st):
                if v[0] == 's':
                    k = v[2]
                    out.append((('i', ord(v[1][k]) if k < len(v[1]) else 0), s))
                    continue
                if v[0] == 'fn':
                    out.append((v, s)); continue
                l = self.index(v, ('i', 0))
                self.c.on_load(self, l, n, s)
                out.append((self.load(l, s, n), s))
            return out
        if op in ('++', '--'):
            out = []
            for l, s in self.lv(n.c[0], st):
                old = self.load(l, s, n.c[0])
                new = self.arith('+' if op == '++' else '-', old, ('i', 1))
                self.write(l, new, n, s)
                out.append((old if (n.x or {}).get('isPostfix') else new, s))
            return out
        out = []
        for v, s in self.ev(n.c[0], st):
            if op == '-' and v[0] in ('i', 'f'):
                out.append(((v[0], -v[1]), s))
            elif op == '+':
                out.append((v, s))
            elif op == '!':
                t = self.truth(v, s)
                out.append((('i', int(not t)) if t is not None else ('e', '!', v), s))
            else:
                out.append((('e', op, v) if depth(v) < 4 else ('t', 'u%d' % n.l), s))
        return out

    def arith(self, op, a, b):
        if a[0] in 'if' and b[0] in 'if' and len(a[0]) == 1 and len(b[0]) == 1:
            try:
                x, y = a[1], b[1]
                k = 'f' if 'f' in (a[0], b[0]) else 'i'
                if op == '+':
                    return (k, x + y)
                if op == '-':
                    return (k, x - y)
                if op == '*':
                    return (k, x * y)
                if op == '/':
                    return (k, x / y) if k == 'f' else (k, int(x / y))
                if op == '%':
                    return (k, x % y)
                if op == '<<':
                    return (k, x << y)
                if op == '&':
                    return (k, x & y)
                if op == '|':
                    return (k, x | y)
                r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}.get(op)
                if r is not None:
                    return ('i', int(r))
            except Exception:
                pass
        if op in '+-' and a[0] == 's' and b[0] == 'i':
            return ('s', a[1], a[2] + (b[1] if op == '+' else -b[1]))
        if op == '-' and a[0] == 's' and b[0] == 's' and a[1] == b[1]:
            return ('i', a[2] - b[2])
        if op == '+' and b[0] == 's' and a[0] == 'i':
            return ('s', b[1], b[2] + a[1])
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if y == ('i', 0) and x[0] in ('s', '&', 'fn', 'us'):
                    return ('i', int(op == '!='))
            if a == b and a[0] in ('p', '&', 's', 'fn', 't'):
                return ('i', int(op == '=='))
        if a[0] == 'us' and op in '+-':
            return ('us', a[1], 'off')
        if op == '+' and b == ('i', 0):
            return a
        if op == '+' and a == ('i', 0):
            return b
        if op == '-' and b == ('i', 0):
            return a
        # normalise (x + c1) + c2
        if op in '+-' and b[0] == 'i' and a[0] == 'e' and a[1] == '+' and len(a) == 4 and a[3][0] == 'i':
            return self.arith('+', a[2], ('i', a[3][1] + (b[1] if op == '+' else -b[1])))
        if op == '-' and b[0] == 'i':
            return ('e', '+', a, ('i', -b[1]))
        if depth(a) >= self.maxd or depth(b) >= self.maxd:
            return ('t', 'deep')
        return ('e', op, a, b)

    CMP = {'==', '!=', '<', '>', '<=', '>='}

    def e_BinaryOperator(self, n, st):
        op = n.op
        if op == '=':
            out = []
            for v, s in self.ev(n.c[1], st):
                for l, s2 in self.lv(n.c[0], s):
                    self.write(l, v, n, s2)
                    out.append((v, s2))
            return out
        if op in ('&&', '||'):
            t, e = self.cond(n, st)
            return [(('i', 1), s) for s in t] + [(('i', 0), s) for s in e]
        if op == ',':
            out = []
            for v, s in self.ev(n.c[0], st):
                out += self.ev(n.c[1], s)
            return out
        out = []
        for a, s in self.ev(n.c[0], st):
            for b, s2 in self.ev(n.c[1], s):
                v = self.arith(op, a, b)
                if op in self.CMP and v[0] == 'e':
                    if op in ('==', '!='):
                        f = s2.facts.get(vtext(a) + '==' + vtext(b))
                        if f is not None:
                            v = ('i', int(f == (op == '==')))
                out.append((v, s2))
        return out

    def e_CompoundAssignOperator(self, n, st):
        out = []
        for v, s in self.ev(n.c[1], st):
            for l, s2 in self.lv(n.c[0], s):
                old = self.load(l, s2, n.c[0])
                self.c.on_load(self, l, n.c[0], s2)
                new = self.arith(n.op[:-1], old, v)
                self.write(l, new, n, s2)
                out.append((new, s2))
        return out

    def e_ConditionalOperator(self, n, st):
        t, e = self.cond(n.c[0], st)
        out = []
        for s in t:
            out += self.ev(n.c[1], s)
        for s in e:
            out += self.ev(n.c[2], s)
        return out

    def e_StmtExpr(self, n, st):
        f = self.ex(n.c[0], [st])
        return [(('t', 'stmtexpr'), s) for s in f['next']]

    def kill(self, st, loc):
        """forget everything that depends on loc"""
        env = st.env
        for k in [k for k in env if k != loc and k.startswith(loc) and k[len(loc):len(loc) + 1] in ('-', '.', '[')]:
            del env[k]
        if st.facts:
            for k in [k for k in st.facts if loc in k]:
                del st.facts[k]

    def write(self, loc, val, node, st):
        if '<lv' not in loc:
            self.kill(st, loc)
            if '<' in loc or self.symbolic_index(loc):
                pass          # element chosen at run time: no strong update
            else:
                st.env[loc] = val
        self.c.on_write(self, loc, val, node, st)

    def symbolic_index(self, loc):
        p = loc.find('[')
        while p >= 0:
            q = loc.find(']', p)
            if not loc[p + 1:q].lstrip('-').isdigit():
                return True
            p = loc.find('[', q)
        return False

    # ---- calls --------------------------------------------------------------------------
    def e_CallExpr(self, n, st):
        name = F.callee(n)
        slot = None
        cur = [([], st)]
        if name is None:
            f = F.strip_casts(n.c[0])
            while f.k == 'UnaryOperator' and f.op == '*':
                f = F.strip_casts(f.c[0])
            if f.k == 'MemberExpr' and self.cg is not None:
                slot = self.cg.member_key(f)
            nxt = []
            for a, s in cur:
                for v, s2 in self.ev(f, s):
                    if v[0] == 'fn' and slot is None:
                        name = v[1]
                    nxt.append((a, s2))
            cur = nxt
        for c in n.c[1:]:
            cur = [(a + [v], s2) for a, s in cur for v, s2 in self.ev(c, s)]
        out = []
        for args, s in cur:
            out += self.do_call(name, slot, args, n, s)
        return out

    def do_call(self, name, slot, args, n, st):
        r = self.c.on_call(self, name, slot, args, n, st)
        if r is not None:
            return r
        if name in NORETURN:
            return []
        b = getattr(self, 'b_' + name, None) if name else None
        if b:
            r = b(args, n, st)
            if r is not None:
                return r
        if name:
            d = self.P.lookup(name, self.cur().path)
            if d and len(self.frames) <= self.c.inline_depth and all(fr.name != name for fr in self.frames) and self.c.inline(d[0], name, self):
                return self.call_fn(d[0], name, d[1], args, st)
        self.havoc_args(args, n, st, name)
        return [(('t', 'call:%s:%d' % (name or slot, n.l)), st)]

    def havoc_args(self, args, n, st, name):
        for a in args:
            if a[0] == '&':
                for k in [k for k in st.env if k == a[1] or (k.startswith(a[1]) and k[len(a[1])] in '-.[')]:
                    st.env[k] = ('t', '%s@c%d' % (k, n.l)) if st.env[k] != ('&', k) else ('&', k)
                if a[1] not in st.env:
                    st.env[a[1]] = ('t', '%s@c%d' % (a[1], n.l))
                for k in [k for k in st.facts if a[1] in k]:
                    del st.facts[k]
            elif a[0] in ('p', 't'):
                pre = vtext(a)
                for k in [k for k in st.env if k.startswith(pre + '->') or k.startswith(pre + '[')]:
                    st.env[k] = ('t', '%s@c%d' % (k, n.l))
                for k in [k for k in st.facts if pre + '->' in k or pre + '[' in k]:
                    del st.facts[k]

    def _str(self, v, st):
        """constant string a pointer refers to, or None; '?' for known-unmatched"""
        if v[0] == 's':
            return v[1][v[2]:] if 0 <= v[2] <= len(v[1]) else None
        if v[0] == '&':
            s = ''
            base = v[1]
            for i in range(300):
                c = st.env.get('%s[%d]' % (base, i))
                if c is None or c[0] != 'i':
                    return None
                if c[1] == 0:
                    return s
                s += chr(c[1])
        return None

    def _strcpy(self, base, v, st, nmax=None):
        t = self._str(v, st)
        self.kill(st, base)
        if t is None:
            if v[0] == 'us':
                st.env[base] = ('us', v[1], 'copy')
            return False
        for i, ch in enumerate(t):
            if nmax is not None and i >= nmax:
                break
            st.env['%s[%d]' % (base, i)] = ('i', ord(ch))
        if nmax is None or len(t) < nmax:
            st.env['%s[%d]' % (base, len(t))] = ('i', 0)
        st.env[base] = ('&', base)
        return True

    def _isus(self, v, st):
        return v[0] == 'us' or (v[0] == '&' and st.env.get(v[1], ('',))[0] == 'us')

    def b_strcmp(self, args, n, st):
        a, b = args[0], args[1]
        x, y = self._str(a, st), self._str(b, st)
        if x is not None and y is not None:
            return [(('i', 0 if x == y else 1), st)]
        for u, w in ((a, y), (b, x)):
            if self._isus(u, st) and w is not None:
                cls = u[2] if u[0] == 'us' else 'copy'
                if cls == '':
                    return [(('i', 1), st)]       # the whole field name: equals no known name
        if a[0] == '&' or b[0] == '&':
            pass
        return [(('e', 'strcmp', a, b), st)]

    def b_strncmp(self, args, n, st):
        x, y = self._str(args[0], st), self._str(args[1], st)
        if x is not None and y is not None and args[2][0] == 'i':
            k = args[2][1]
            return [(('i', 0 if x[:k] == y[:k] else 1), st)]
        return [(('t', 'strncmp:%d:%s' % (n.l, vtext(args[1]))), st)]

    def b_strlen(self, args, n, st):
        x = self._str(args[0], st)
        if x is not None:
            return [(('i', len(x)), st)]
        return [(('e', 'strlen', args[0]), st)]

    def b_strchr(self, args, n, st):
        v = args[0]
        x = self._str(v, st)
        if x is not None and args[1][0] == 'i' and v[0] == 's':
            k = x.find(chr(args[1][1]))
            return [(('i', 0) if k < 0 else ('s', v[1], v[2] + k), st)]
        if v[0] == 'us':
            s2 = st.copy()
            return [(('i', 0), st), (('us', v[1], 'off'), s2)]
        return [(('t', 'strchr:%d' % n.l), st)]

    def b_strncpy(self, args, n, st):
        if args[0][0] == '&':
            if args[2][0] == 'i' and self._str(args[1], st) is not None:
                self._strcpy(args[0][1], args[1], st, args[2][1])
                return [(args[0], st)]
            if args[1][0] == 'us':
                self.kill(st, args[0][1])
                st.env[args[0][1]] = ('us', args[1][1], 'copy')
                return [(args[0], st)]
        return None

    def b_strcpy(self, args, n, st):
        if args[0][0] == '&':
            self._strcpy(args[0][1], args[1], st)
            return [(args[0], st)]
        return None

    def b_printf(self, args, n, st):
        return [(('t', 'printf'), st)]

    b_fprintf = b_fflush = b_snprintf = b_printf
