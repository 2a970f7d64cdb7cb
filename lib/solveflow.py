"""Typestate interpretation of the NLP solve entry points: QP / globalization outcomes, termination test, status and timings.

State (St.ts) is a frozenset of tags:
  qp:ok|qp:fail        outcome of the last QP solve of this call        gl:ok|gl:fail   outcome of the last globalization step
  fresh                residuals were computed after the last step
  lt:<res>             residual member <res> was found below its tolerance (since the last step)
  timed                time_tot was stored from a timer started in this call, and no module work happened since
  tic:<t>, early:<t>   timer <t> was started; before any module work       worked   module work happened
  z:<field>            timing field was reset in this call
"""
import re
import cfront as F, absint
from effects import Effects

SUCCESS, NAN, MAXITER, MINSTEP, QPFAIL, TIMEOUT, INFEAS = 0, 1, 2, 3, 4, 7, 9
CMPS = {'<': {-1}, '<=': {-1, 0}, '>': {1}, '>=': {0, 1}, '==': {0}, '!=': {-1, 1}}
MUST = ('tic:', 'early:', 'z:', 'timed', 'worked')
FIELD = re.compile(r'(?:->|\.)(\w+)')


class Eng(absint.Engine):
    def __init__(self, P, client, cg, eff):
        super().__init__(P, client, cg)
        self.eff = eff
        self.limit = 3000000

    # ---- relational facts about two values -----------------------------------------------
    def signs(self, a, b, st):
        s = {-1, 0, 1}
        if a[0] == 'i' and b[0] == 'i':
            return {(a[1] > b[1]) - (a[1] < b[1])}
        ta, tb = absint.vtext(a), absint.vtext(b)
        if ta == tb:
            return {0}
        for op, ok in CMPS.items():
            for x, y, flip in ((a, b, False), (b, a, True)):
                keys = [absint.vtext(('e', op, x, y))]
                if op in ('==', '!='):
                    keys.append(absint.vtext(x) + op + absint.vtext(y))
                for k in keys:
                    f = st.facts.get(k)
                    if f is None:
                        continue
                    r = ok if f else {-1, 0, 1} - ok
                    s &= {-q for q in r} if flip else r
        # an iteration limit is never negative
        if a == ('i', 0) and tb.endswith('->max_iter'):
            s -= {1}
        return s

    def truth(self, v, st):
        r = super().truth(v, st)
        if r is None and v[0] == 'e' and len(v) == 4 and v[1] in CMPS and v[2][0] != 'f' and v[3][0] != 'f':
            s = self.signs(v[2], v[3], st)
            if s and s <= CMPS[v[1]]:
                return True
            if s and not s & CMPS[v[1]]:
                return False
        return r

    # counters: "counter <= bound" survives increments and joins
    def bound_fact(self, st, v, b, sg):
        if not sg <= {-1, 0}:
            return
        st.facts[absint.vtext(('e', '<=', v, b))] = True
        for op, one in (('<', {-1}), ('==', {0})):
            if sg == one:
                st.facts[absint.vtext(('e', op, v, b))] = True

    def incremented(self, n, st, go):
        rel = []
        for loc, s in self.lv(n.c[0], st.copy()):
            v = self.load(loc, s, n.c[0])
            rel += [(loc, b) for b in self.c.bounds if self.signs(v, b, st) == {-1}]
        out = go()
        for v, s in out:
            for loc, b in rel:
                w = self.load(loc, s, n.c[0])
                self.bound_fact(s, w, b, {-1, 0})
        return out

    def e_UnaryOperator(self, n, st):
        if n.op == '++':
            return self.incremented(n, st, lambda: super(Eng, self).e_UnaryOperator(n, st))
        return super().e_UnaryOperator(n, st)

    def e_CompoundAssignOperator(self, n, st):
        r = F.strip_casts(n.c[1])
        if n.op == '+=' and r.k == 'IntegerLiteral' and str(r.v) == '1':
            return self.incremented(n, st, lambda: super(Eng, self).e_CompoundAssignOperator(n, st))
        return super().e_CompoundAssignOperator(n, st)

    def join(self, a, b, tag):
        s = super().join(a, b, tag)
        s.ts = (a.ts & b.ts) | ((a.ts | b.ts) & {'worked'}) | frozenset(t for t in a.ts | b.ts if not t.startswith(MUST))
        if self.c.bounds:
            for k, v in s.env.items():
                va, vb = a.env.get(k), b.env.get(k)
                if v[0] == 't' and va is not None and vb is not None and va != vb and va[0] in 'ite' and vb[0] in 'ite':
                    for m in self.c.bounds:
                        self.bound_fact(s, v, m, self.signs(va, m, a) | self.signs(vb, m, b))
        return s

    def assume_eq(self, a, b, st):
        if a in self.c.bounds or b in self.c.bounds:
            return st
        for m in self.c.bounds:
            if not self.signs(a, m, st) & self.signs(b, m, st):
                return None
        return super().assume_eq(a, b, st)

    def unrollable(self, cond):
        return not any(a.k == 'MemberExpr' for a in cond.walk())

    def load(self, loc, st, node=None):
        v = super().load(loc, st, node)
        if v[0] == 'p' and v[1].endswith('->max_iter') and v not in self.c.bounds:
            self.c.bounds.append(v)
        return v

    # ---- precise effects of calls --------------------------------------------------------
    def do_call(self, name, slot, args, n, st):
        self._slot = slot
        return super().do_call(name, slot, args, n, st)

    def havoc_args(self, args, n, st, name):
        mod = self.eff.of_call(name, None if name else self._slot, self.cur().path)
        if mod is None:
            return super().havoc_args(args, n, st, name)
        ts0 = st.ts
        for a in args:
            if a[0] == '&':
                super().havoc_args([a], n, st, name)
            elif a[0] in ('p', 't'):
                pre = absint.vtext(a)
                def hit(k):
                    return self.eff.hits(k, mod) or (k.startswith(pre + '[') and ('*', '*') in mod)
                for k in [k for k in st.env if (k.startswith(pre + '->') or k.startswith(pre + '[')) and hit(k)]:
                    st.env[k] = ('t', '%s@c%d' % (k, n.l))
                for k in [k for k in st.facts if (pre + '->' in k or pre + '[' in k) and (self.eff.hits(k, mod) or (('*', '*') in mod and pre + '[' in k))]:
                    del st.facts[k]


class Client(absint.Client):
    inline_depth = 5
    max_states = 200

    def __init__(self, inl, qp_slots, gl_slots, res_fns, work_fns):
        self.inl = inl; self.qp = qp_slots; self.gl = gl_slots; self.res = res_fns; self.work = work_fns
        self.bounds = []
        self.status = set(); self.feedback = None
        self.counters = None  # lvalues counting iterations in the solve loop
        self.limits = {}      # QP solve site -> counter provably below its limit
        self.events = {}      # key -> (path, function, line, text): violations noticed on the way
        self.counts = {}
        self.returns = []     # (value, stored status or None, tags, path, line) of every return of the interpreted function

    def inline(self, path, name, e):
        return (path, name) in self.inl

    def key(self, st):
        # facts that only ever hold on all paths are intersected in join, not kept apart
        return (frozenset(t for t in st.ts if not t.startswith(MUST)), tuple(sorted((k, v) for k, v in st.env.items() if k.endswith('->status') and 'qpscaling' not in k and v[0] == 'i')))

    def snapshot(self):
        return dict(self.events), dict(self.counts), list(self.bounds), dict(self.limits)

    def restore(self, x):
        self.events, self.counts, self.bounds, self.limits = dict(x[0]), dict(x[1]), list(x[2]), dict(x[3])

    def tag(self, st, drop, *add):
        st.ts = frozenset(t for t in st.ts if not t.startswith(drop)) | frozenset(add)

    def on_call(self, e, name, slot, args, node, st):
        here = (e.cur().path, e.cur().name, node.l)
        if name in ('acados_tic', 'acados_toc') and args and args[0][0] == '&':
            t = args[0][1]
            if name == 'acados_tic':
                st.env.pop(t, None)
            elif st.env.get(t, ('', ''))[0] == 'p':
                t = st.env[t][1]        # a timer passed by value
            if name == 'acados_tic':
                self.tag(st, ('early:' + t,), 'tic:' + t)
                if 'worked' not in st.ts:
                    self.tag(st, (), 'early:' + t)
                return [(('i', 0), st)]
            if 'tic:' + t not in st.ts:
                self.events[('toc', here)] = here + ('reads the timer %s, which was not started in this solve' % t,)
            return [(('t', 'toc:%s;%d' % (t, node.l)), st)]
        if slot in self.qp or slot in self.gl:
            fork = []
            g = slot in self.gl
            if g and {'qp:fail1', 'qp:fail9'} & st.ts:
                self.events[('step', here)] = here + ('takes a step although the QP solver failed',)
            self.counts[slot[1]] = self.counts.get(slot[1], 0) + 1
            if not g and len(e.frames) > 0 and self.counters is not None:
                self.limit_check(e, st, here)
            pre = 'gl:' if g else 'qp:'
            outs = ((SUCCESS, 'ok'), (MINSTEP, 'fail3'), (NAN, 'fail1')) if g else ((SUCCESS, 'ok'), (MAXITER, 'ok2'), (NAN, 'fail1'), (INFEAS, 'fail9'))
            for a in args:
                if a[0] == '&':
                    e.havoc_args([a], node, st, name)
            e._slot = slot
            e.havoc_args(args, node, st, name)
            for v, t in outs:
                s = st.copy()
                self.tag(s, (pre, 'timed', 'lt:', 'late') + (('fresh',) if g else ()), pre + t, 'worked')
                if not g:
                    s.ts = frozenset(x for x in s.ts if not x.startswith('gl:'))
                fork.append((('i', v), s))
            return fork
        if name and e.P.lookup(name, e.cur().path):
            k = (e.P.lookup(name, e.cur().path)[0], name)
            if k in self.res:
                self.tag(st, ('lt:',), 'fresh')
                if k in self.inl:
                    return None
            if k in self.work and k not in self.inl:
                self.tag(st, ('timed',), 'worked')
        elif slot is not None and not name:
            ts = e.cg.slots.get(slot, ())
            if any(t in self.work or t[0] == '<ext>' for t in ts):
                self.tag(st, ('timed',), 'worked')
        return None

    def limit_check(self, e, st, here):
        """a QP is solved only while the iteration counter of the solve loop is below its limit"""
        fr = e.frames
        e.frames = fr[:1]
        try:
            for c in self.counters:
                for loc, s in e.lv(c, st.copy()):
                    v = e.load(loc, s, c)
                    sg = set.intersection(*[e.signs(v, m, st) for m in self.bounds]) if self.bounds else {-1, 0, 1}
                    if here is None:
                        return sg <= {0, 1}
                    self.limits[here] = self.limits.get(here, True) and sg == {-1}
        finally:
            e.frames = fr
        return None

    def on_return(self, e, val, node, st):
        if len(e.frames) == 1:
            locs = sorted(self.status) or [k for k in st.env if k.endswith('->status') and 'qpscaling' not in k]
            sv = e.load(locs[0], st) if len(locs) == 1 else None
            if val == ('i', MAXITER) and self.counters and self.limit_check(e, st, None):
                st.ts = st.ts | {'lim'}
            r = (val, sv, st.ts, e.cur().path, node.l)
            if r not in self.returns:
                self.returns.append(r)

    def on_assume(self, e, v, val, st):
        if v[0] == 'e' and len(v) == 4 and v[1] in ('<', '<=', '>', '>='):
            a, b, op = v[2], v[3], v[1]
            if op in ('>', '>='):
                a, b, op = b, a, {'>': '<', '>=': '<='}[op]
            # a < b holds, or not (a < b), i.e. b <= a
            if not val:
                a, b = b, a
            fa = FIELD.findall(absint.vtext(a)); fb = FIELD.findall(absint.vtext(b))
            if fa and fb and fa[-1] == 'timeout_max_time':
                st.ts = st.ts | {'late'}
            if fa and fb and ('res' in fa[-1] or 'cost' in fa[-1]) and fb[-1].startswith('tol'):
                st.ts = st.ts | {'lt:%s|%s' % (fa[-1], fb[-1])}
        return st

    def on_write(self, e, loc, val, node, st):
        l = F.strip_casts(node.c[0]) if node is not None and node.c else None
        if l is not None and l.k == 'MemberExpr' and l.n == 'status' and e.cg.member_key(l)[0].split()[-1] == 'ocp_nlp_memory':
            self.status.add(loc)
            self.counts['status stores'] = self.counts.get('status stores', 0) + 1
        m = re.search(r'->(time_\w+)$', loc)
        if m:
            f = m.group(1)
            if f == 'time_tot':
                self.tag(st, ('timed',))
                if any('early:' + t in st.ts for t in re.findall(r'toc:([^;]*);', absint.vtext(val))):
                    self.tag(st, (), 'timed')
            if node.k == 'CompoundAssignOperator':
                if 'z:' + f not in st.ts and not any(k.endswith('rti_phase') and v == self.feedback for k, v in st.env.items()):
                    here = (e.cur().path, e.cur().name, node.l)
                    self.events[('acc', here)] = here + ('adds to %s although it was not reset in this solve' % f,)
            else:
                self.tag(st, (), 'z:' + f)


def counters(fn):
    out = []
    for a in fn.walk():
        if a.k not in ('ForStmt', 'WhileStmt', 'DoStmt'):
            continue
        cond = [x for x in (a.c[:-1] if a.k != 'DoStmt' else a.c[1:]) if x is not None]
        for cc in cond:
            for b in cc.walk():
                if b.k == 'BinaryOperator' and b.op in ('<', '<=', '>', '>=', '!=') and any(m.k == 'MemberExpr' and m.n == 'max_iter' for x in b.c for m in x.walk()):
                    for x in b.c:
                        x = F.strip_casts(x)
                        if x.k in ('DeclRefExpr', 'MemberExpr') and not any(m.k == 'MemberExpr' and m.n == 'max_iter' for m in x.walk()):
                            out.append(x)
    return out


def setup(P, G):
    eff = Effects(P, G)
    def sl(rec, *fields):
        return {k for k in G.slots if k[0].split()[-1] == rec and k[1] in fields}
    entries = sorted(t for k in sl('ocp_nlp_config', 'evaluate') for t in G.slots[k] if t[0] != '<ext>')
    glob = sl('ocp_nlp_globalization_config', 'find_acceptable_iterate')
    qp = sl('ocp_qp_xcond_solver_config', 'evaluate', 'condense_rhs_and_solve')
    # functions whose bodies carry events
    seeds, res = set(), set()
    for name, lst in P.functions.items():
        for path, fn in lst:
            if 'ocp_nlp/' not in path:
                continue
            own = {f for _, f in eff.own[(path, name)]}
            hit = any(f.startswith('time_') for f in own) or 'status' in own
            for a in fn.walk():
                if a.k == 'MemberExpr' and a.n in ('evaluate', 'condense_rhs_and_solve', 'find_acceptable_iterate') and G.member_key(a) in qp | glob:
                    hit = True
                if a.k == 'BinaryOperator' and a.op in ('<', '<=', '>', '>='):
                    ms = [F.strip_casts(c) for c in a.c]
                    if all(m.k == 'MemberExpr' for m in ms) and any(m.n.startswith('tol') for m in ms):
                        hit = True
            if hit:
                seeds.add((path, name))
            if 'inf_norm_res_stat' in own or 'inf_norm_res_eq' in own:
                res.add((path, name))
    # only reachability by direct calls matters for inlining
    need = set(seeds)
    while True:
        more = {k for k, ed in G.calls.items() if k not in need and any(x[0] == 'direct' and x[1] in need for x in ed)}
        if not more:
            break
        need |= more
    # functions doing module work: (transitively) call through a slot
    work = {k for k, ed in G.calls.items() if any(x[0] == 'slot' for x in ed)}
    while True:
        more = {k for k, ed in G.calls.items() if k not in work and any(x[0] == 'direct' and x[1] in work for x in ed)}
        if not more:
            break
        work |= more
    # residual functions: anything that directly (transitively) reaches a writer of the residual norms counts as computing them
    return eff, entries, qp, glob, need, res, work


def interpret(P, G, which='solve'):
    """yields (path, name, outcomes or exception, client, engine)"""
    eff, entries, qp, gl, need, res, work = setup(P, G)
    if which == 'globalization':
        entries = sorted(t for k in gl for t in G.slots[k] if t[0] != '<ext>')
    fb = P.enums.get('FEEDBACK') if hasattr(P, 'enums') else None
    for path, name in entries:
        c = Client(need, qp, gl, res, work)
        c.feedback = ('i', fb) if fb is not None else None
        c.counters = counters(dict(P.functions[name])[path])
        e = Eng(P, c, G, eff)
        st = absint.St()
        st.ts = frozenset()
        try:
            yield path, name, e.run(path, name, st=st), c, e
        except absint.Unsupported as x:
            yield path, name, x, c, e
