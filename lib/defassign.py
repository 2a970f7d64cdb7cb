"""Path-sensitive definite assignment of one local variable (candidates come from the compiler's flow analysis).

Branches on the same unchanged condition are correlated, boolean copies of conditions are expanded; paths that skip a loop
body entirely are kept apart (whether a loop runs at least once is not decided here)."""
import cfront as F

NORET = {'exit', 'abort', '_exit', '__assert_fail', 'mexErrMsgTxt', 'mexErrMsgIdAndTxt'}


class Unsupported(Exception):
    pass


class An:
    def __init__(self, fn, var):
        self.fn, self.var = fn, var
        self.bad = {}             # line -> True if every such path skips a loop
        self.inits = {}
        self.nassign = {}
        for a in fn.walk():
            if a.k == 'VarDecl' and a.n:
                self.nassign[a.n] = self.nassign.get(a.n, 0) + (1 if (a.x or {}).get('init') else 0)
                if (a.x or {}).get('init') and a.c:
                    self.inits[a.n] = a.c[-1]
            elif (a.k in ('BinaryOperator', 'CompoundAssignOperator') and (a.op or '').endswith('=') and a.op not in ('==', '!=', '<=', '>=')) or \
                    (a.k == 'UnaryOperator' and a.op in ('++', '--', '&')):
                b = F.strip_casts(a.c[0])
                if b.k == 'DeclRefExpr' and b.r:
                    self.nassign[b.r[1]] = self.nassign.get(b.r[1], 0) + 1
                    if a.op == '=' and b.r[1] not in self.inits:
                        self.inits[b.r[1]] = a.c[1]

    # ---- canonical text of a condition ---------------------------------------------------------
    def text(self, n, depth=0):
        n = F.strip_casts(n)
        if n.k == 'DeclRefExpr':
            v = n.r[1]
            if depth < 4 and self.nassign.get(v) == 1 and v in self.inits and self.inits[v].k != 'CallExpr' and v != self.var:
                return self.text(self.inits[v], depth + 1)
            return v
        if n.k in ('IntegerLiteral', 'FloatingLiteral', 'CharacterLiteral', 'StringLiteral'):
            return str(n.v)
        if n.k == 'MemberExpr':
            return self.text(n.c[0], depth) + '.' + str(n.n) if n.c else str(n.n)
        return '%s%s(%s)' % (n.k[:5], n.op or '', ','.join(self.text(c, depth) for c in n.c))

    def names(self, n, depth=0):
        r = set()
        for a in n.walk():
            if a.k == 'DeclRefExpr' and a.r:
                v = a.r[1]
                r.add(v)
                if depth < 4 and self.nassign.get(v) == 1 and v in self.inits:
                    r |= self.names(self.inits[v], depth + 1)
        return r

    # ---- states: frozenset of (assigned, zero_trip, lits) -----------------------------------------
    def use(self, st, line):
        if not st[0]:
            self.bad[line] = self.bad.get(line, True) and st[1]

    def ev(self, n, S):
        """states after evaluating expression n"""
        if n is None or n.k == 'Null':
            return S
        if n.k == 'DeclRefExpr':
            if n.r and n.r[1] == self.var:
                for s in S:
                    self.use(s, n.l)
            return S
        if n.k == 'UnaryOperator' and n.op == '&':
            b = F.strip_casts(n.c[0])
            if b.k == 'DeclRefExpr' and b.r and b.r[1] == self.var:
                return {(True,) + s[1:] for s in S}
        if n.k == 'UnaryExprOrTypeTraitExpr':
            return S
        if n.k == 'BinaryOperator' and n.op == '=':
            l = F.strip_casts(n.c[0])
            S = self.ev(n.c[1], S)
            if l.k == 'DeclRefExpr' and l.r:
                S = self.kill(l.r[1], S)
                return {(True,) + s[1:] for s in S} if l.r[1] == self.var else S
            return self.ev(l, S)
        if n.k == 'BinaryOperator' and n.op in ('&&', '||'):
            t, f = self.branch(n.c[0], S)
            go, stay = (t, f) if n.op == '&&' else (f, t)
            return self.ev(n.c[1], go) | stay
        if n.k == 'ConditionalOperator':
            t, f = self.branch(n.c[0], S)
            return self.ev(n.c[1], t) | self.ev(n.c[2], f)
        for c in n.c:
            S = self.ev(c, S)
        if (n.k == 'CompoundAssignOperator' or n.k == 'UnaryOperator' and n.op in ('++', '--')):
            l = F.strip_casts(n.c[0])
            if l.k == 'DeclRefExpr' and l.r:
                S = self.kill(l.r[1], S)
        if n.k == 'CallExpr' and F.callee(n) in NORET:
            return set()
        return S

    def kill(self, v, S):
        return {(a, z, frozenset(x for x in L if v not in x[2])) for a, z, L in S}

    def branch(self, c, S):
        c = F.strip_casts(c)
        if c.k == 'UnaryOperator' and c.op == '!':
            t, f = self.branch(c.c[0], S)
            return f, t
        if c.k == 'BinaryOperator' and c.op == '&&':
            t, f = self.branch(c.c[0], S)
            t2, f2 = self.branch(c.c[1], t)
            return t2, f | f2
        if c.k == 'BinaryOperator' and c.op == '||':
            t, f = self.branch(c.c[0], S)
            t2, f2 = self.branch(c.c[1], f)
            return t | t2, f2
        S = self.ev(c, S)
        if c.k == 'IntegerLiteral':
            return (S, set()) if int(c.v) else (set(), S)
        x, neg = self.text(c), False
        if c.k == 'BinaryOperator' and c.op in ('!=', '==', '<', '>=', '>', '<='):
            a, b = self.text(c.c[0]), self.text(c.c[1])
            x, neg = {'==': (a + '==' + b, False), '!=': (a + '==' + b, True), '<': (a + '<' + b, False), '>=': (a + '<' + b, True),
                      '>': (b + '<' + a, False), '<=': (b + '<' + a, True)}[c.op]
        nm = frozenset(self.names(c))
        T, E = set(), set()
        for a, z, L in S:
            known = [v for t, v, q in L if t == x]
            for val, dst in ((True, T), (False, E)):
                v = val != neg
                if known and known[0] != v:
                    continue
                dst.add((a, z, L if known or len(L) > 10 else L | {(x, v, nm)}))
        return T, E

    def run(self):
        S = {(False, False, frozenset())}
        self.stmt(F.body(self.fn), S)
        return self.bad

    def stmt(self, n, S):
        """(states falling through, break states, continue states)"""
        e = set()
        if not S:
            return e, e, e
        if len(S) > 400:
            S = {(a, z, frozenset()) for a, z, L in S}
        k = n.k
        if k in ('Null', 'NullStmt'):
            return S, e, e
        if k == 'CompoundStmt':
            B, C = set(), set()
            for c in n.c:
                S, b, q = self.stmt(c, S)
                B |= b
                C |= q
            return S, B, C
        if k == 'DeclStmt':
            for v in n.c:
                if v.k == 'VarDecl' and (v.x or {}).get('init') and v.c:
                    S = self.ev(v.c[-1], S)
                    if v.n == self.var:
                        S = {(True,) + s[1:] for s in S}
                elif v.k == 'VarDecl' and v.n == self.var:
                    S = {(False, False) + s[2:] for s in S}
            return S, e, e
        if k == 'IfStmt':
            c = [x for x in n.c]
            T, E = self.branch(c[0], S)
            a, b1, c1 = self.stmt(c[1], T)
            if len(c) > 2:
                d, b2, c2 = self.stmt(c[2], E)
            else:
                d, b2, c2 = E, e, e
            return a | d, b1 | b2, c1 | c2
        if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
            if k == 'ForStmt':
                init, cond, inc, body = n.c[0], n.c[2], n.c[3], n.c[4]
                S = self.stmt(init, S)[0] if init.k == 'DeclStmt' else self.ev(init, S)
            elif k == 'WhileStmt':
                cond, body, inc = n.c[0], n.c[1], None
            else:
                body, cond, inc = n.c[0], n.c[1], None
            out = set()
            if k == 'DoStmt':
                cur = S
            else:
                T = self.ev(cond, S) if cond.k != 'Null' else S
                forever = cond.k == 'Null' or (cond.k == 'IntegerLiteral' and int(cond.v))
                if not forever:
                    out |= {(a, True if not a else z, L) for a, z, L in T}
                cur = T
            seen = set()
            for _ in range(3):
                cur = cur - seen
                if not cur:
                    break
                seen |= cur
                f, b, q = self.stmt(body, cur)
                f = f | q
                out |= b
                if inc is not None:
                    f = self.ev(inc, f)
                if cond.k != 'Null':
                    f = self.ev(cond, f)
                if not (cond.k == 'Null' or (cond.k == 'IntegerLiteral' and int(cond.v))):
                    out |= f
                cur = f
            return out, e, e
        if k == 'SwitchStmt':
            S = self.ev(n.c[0], S)
            ent, out, cur = S, set(), set()
            dflt = False
            C = set()

            def lab(x):
                nonlocal cur, dflt
                if x.k in ('CaseStmt', 'DefaultStmt'):
                    cur = cur | ent
                    dflt = dflt or x.k == 'DefaultStmt'
                    return lab(x.c[-1])
                return x
            for x in n.c[-1].c:
                x = lab(x)
                cur, b, q = self.stmt(x, cur)
                out |= b
                C |= q
            return out | cur | (set() if dflt else ent), e, C
        if k == 'ReturnStmt':
            for c in n.c:
                self.ev(c, S)
            return e, e, e
        if k == 'BreakStmt':
            return e, S, e
        if k == 'ContinueStmt':
            return e, e, S
        if k in ('GotoStmt', 'LabelStmt', 'IndirectGotoStmt', 'GCCAsmStmt'):
            raise Unsupported(k)
        if k.startswith('OMP'):
            for c in n.c:
                S = self.stmt(c, S)[0]
            return S, e, e
        if k in ('CapturedStmt', 'CapturedDecl'):
            return self.stmt(n.c[0], S) if n.c else (S, e, e)
        if k.endswith('Decl'):
            return S, e, e
        return self.ev(n, S), e, e


def judge(fn, var):
    """{line: only_when_a_loop_runs_zero_times}"""
    return An(fn, var).run()
