"""Accesses of one iteration of a parallel loop, as (root, index) with the loop counter symbolic."""
import re, os
import cfront as F
from moves import pc, pa, padd, pmul, ptext
from wsum import isptr

I = '@i'


class Give(Exception):
    pass


def dep(p):
    return any(I in a for m in p for a in m)


class Acc:
    def __init__(self, mode, root, off, single, line, path, fn, text):
        self.mode, self.root, self.off, self.single, self.line, self.path, self.fn, self.text = mode, root, off, single, line, path, fn, text


class Env:
    def __init__(self, parent=None):
        self.v = {}          # decl id -> poly or list of locations
        self.local = set()   # decl ids private to one iteration


class Loop:
    """one parallel loop: collects accesses"""

    def __init__(self, P, S, path, name, region_locals, loop, private):
        self.P, self.S, self.path, self.name = P, S, path, name
        self.acc = []
        self.calls = []          # (call node, unit) executed inside an iteration
        self.stored = []         # (root, off, {(rec, field)}, line)
        self.notes = []
        self.depth = 0
        self.exempt = set()
        for x in loop.walk():
            if x.k in ('OMPCriticalDirective', 'OMPAtomicDirective'):
                self.exempt |= {id(y) for y in x.walk()}
        init = loop.c[0]
        iv = None
        if init is not None:
            for x in init.walk():
                if x.k == 'VarDecl':
                    iv = x.id
                elif x.k == 'BinaryOperator' and x.op == '=' and iv is None and x.c[0].k == 'DeclRefExpr':
                    iv = x.c[0].r[3]
        if iv is None:
            raise Give('loop counter not found')
        self.iv = iv
        self.locals = set(region_locals) | {iv}
        self.names = {}
        for x in loop.walk():
            if x.k == 'VarDecl' and (x.x or {}).get('storageClass') != 'static':
                self.locals.add(x.id)
            if x.k == 'DeclRefExpr' and x.r and x.r[1] in private:
                self.locals.add(x.r[3])
        self.fn = None
        self.bound = None        # poly e when the loop runs while i <= e
        self.start = None
        self.guard = []          # polys e with i == e known on the current path
        self.loop = loop

    # ---- expressions ---------------------------------------------------------------------------------------------------
    def prepare(self, fn):
        """single assignments of locals outside and inside the loop"""
        self.env = Env()
        self.env.v[self.iv] = pa(I)
        self.defs = self.collect(fn)
        c = self.loop.c[2] if len(self.loop.c) > 2 else None
        if c is not None and c.k == 'BinaryOperator' and c.op in ('<', '<='):
            b = self.int(c.c[1], self.env)
            self.bound = padd(b, pc(1), -1) if c.op == '<' else b
        i0 = self.loop.c[0]
        for x in i0.walk():
            if x.k == 'VarDecl' and x.c:
                self.start = self.int(x.c[-1], self.env)
            elif x.k == 'BinaryOperator' and x.op == '=':
                self.start = self.int(x.c[1], self.env)

    def collect(self, fn):
        d = {}
        for a in fn.walk():
            if a.k == 'VarDecl' and a.c:
                d.setdefault(a.id, []).append(a.c[-1])
            elif a.k == 'BinaryOperator' and a.op == '=' and F.strip_casts(a.c[0]).k == 'DeclRefExpr':
                d.setdefault(F.strip_casts(a.c[0]).r[3], []).append(a.c[1])
            elif a.k == 'CompoundAssignOperator' or (a.k == 'UnaryOperator' and a.op in ('++', '--')):
                l = F.strip_casts(a.c[0])
                if l.k == 'DeclRefExpr':
                    d.setdefault(l.r[3], []).append(None)
                    d[l.r[3]].append(a.c[-1] if a.k == 'CompoundAssignOperator' else None)
            elif a.k == 'UnaryOperator' and a.op == '&' and F.strip_casts(a.c[0]).k == 'DeclRefExpr':
                d.setdefault(F.strip_casts(a.c[0]).r[3], []).append(None)
        return d

    def int(self, n, env, busy=()):
        n = F.strip_casts(n)
        k = n.k
        if k == 'IntegerLiteral':
            return pc(int(n.v))
        if k == 'DeclRefExpr' and n.r:
            i = n.r[3]
            if i in env.v and isinstance(env.v[i], dict):
                return env.v[i]
            if n.r[0] == 'EnumConstantDecl':
                return pa(n.r[1])
            ds = self.defs.get(i, [])
            if i not in busy and len(ds) == 1 and ds[0] is not None:
                return self.int(ds[0], env, busy + (i,))
            if i not in busy and i in self.locals and any(x is not None and dep(self.int(x, env, busy + (i,))) for x in ds):
                return pa('%s<%s>' % (n.r[1], I))
            return pa(n.r[1] + ('' if i not in self.locals else '#' + str(i)[-5:]))
        if k == 'BinaryOperator' and n.op in ('+', '-', '*'):
            a, b = self.int(n.c[0], env, busy), self.int(n.c[1], env, busy)
            return padd(a, b) if n.op == '+' else padd(a, b, -1) if n.op == '-' else pmul(a, b)
        if k == 'UnaryOperator' and n.op == '-':
            return padd({}, self.int(n.c[0], env, busy), -1)
        if k in ('MemberExpr', 'ArraySubscriptExpr') or (k == 'UnaryOperator' and n.op == '*'):
            ls = self.loc(n, env, busy)
            if len(ls) == 1:
                return pa(self.ltext(ls[0]))
        t = '(' + ' '.join(sorted({ptext(self.int(c, env, busy)) for c in n.c if c.k not in ('StringLiteral',)} if n.c else {n.k})) + ')' + (n.op or n.k)
        return pa(t)

    def ltext(self, l):
        b, st = l
        out = b
        for s in st:
            out += '.' + s if isinstance(s, str) else '[%s]' % ptext(s) if s else ''
        return out

    def ptr(self, n, env, busy=()):
        """locations an expression of pointer type may point to"""
        n = F.strip_casts(n)
        k = n.k
        if k == 'DeclRefExpr' and n.r:
            i = n.r[3]
            if i in env.v and isinstance(env.v[i], list):
                return env.v[i]
            if n.t.rstrip().endswith(']') and i in self.locals:
                return [('~' + n.r[1], ({},))]
            ds = self.defs.get(i, [])
            if ds and i not in busy and isptr(n.t) and not n.t.rstrip().endswith(']'):
                out = []
                for x in ds:
                    if x is not None and isptr(x.t):
                        out += self.ptr(x, env, busy + (i,))
                if out and None in ds and i in self.locals:
                    # moved along by += or ++: position not tracked
                    u = pa('%s<%s>' % (n.r[1], I))
                    out = [(b, q[:-1] + (padd(q[-1], u),) if q and isinstance(q[-1], dict) else q + (u,)) for b, q in out]
                if out:
                    return out[:6]
                return [('~' + n.r[1], ({},))] if i in self.locals else [(n.r[1], ({},))]
            return [(('~' if i in self.locals else '') + n.r[1], ({},))]
        if k in ('MemberExpr', 'ArraySubscriptExpr') or (k == 'UnaryOperator' and n.op == '*'):
            return [(b, s + ({},)) for b, s in self.loc(n, env, busy)]
        if k == 'UnaryOperator' and n.op == '&':
            return self.loc(n.c[0], env, busy)
        if k == 'BinaryOperator' and n.op in ('+', '-'):
            a, b = n.c
            if not isptr(a.t):
                a, b = b, a
            e = self.int(b, env, busy)
            out = []
            for p, s in self.ptr(a, env, busy):
                if s and isinstance(s[-1], dict):
                    out.append((p, s[:-1] + (padd(s[-1], e, 1 if n.op == '+' else -1),)))
                else:
                    out.append((p, s + (e,)))
            return out
        if k == 'UnaryOperator' and n.op in ('++', '--'):
            return self.ptr(n.c[0], env, busy)
        if k == 'ConditionalOperator':
            return self.ptr(n.c[1], env, busy) + self.ptr(n.c[2], env, busy)
        if k == 'CallExpr':
            out = []
            for a in n.c[1:]:
                if isptr(a.t):
                    out += [l for l in self.ptr(a, env, busy) if 'config' not in self.ltext(l).split('[')[0] and 'dims' not in self.ltext(l).split('[')[0]]
            return out or [('~ret', ({},))]
        return [('~const', ({},))]

    def loc(self, n, env, busy=()):
        """storage locations an lvalue denotes"""
        n = F.strip_casts(n)
        k = n.k
        if k == 'DeclRefExpr' and n.r:
            return [(('~' if n.r[3] in self.locals else '') + n.r[1], ())]
        if k == 'MemberExpr':
            b = n.c[0]
            ls = self.ptr(b, env, busy) if isptr(b.t) else self.loc(b, env, busy)
            return [(p, s + (n.n,)) for p, s in ls]
        if k == 'ArraySubscriptExpr':
            e = self.int(n.c[1], env, busy)
            out = []
            for p, s in self.ptr(n.c[0], env, busy):
                if s and isinstance(s[-1], dict):
                    out.append((p, s[:-1] + (padd(s[-1], e),)))
                else:
                    out.append((p, s + (e,)))
            return out
        if k == 'UnaryOperator' and n.op == '*':
            return self.ptr(n.c[0], env, busy)
        if k == 'ConditionalOperator':
            return self.loc(n.c[1], env, busy) + self.loc(n.c[2], env, busy)
        if isptr(n.t):
            return self.ptr(n, env, busy)
        return [('~tmp', ())]

    # ---- accesses ------------------------------------------------------------------------------------------------------
    def split(self, l):
        b, st = l
        for j, s in enumerate(st):
            if isinstance(s, dict) and dep(s):
                return self.ltext((b, st[:j])), s
        if self.guard:
            e = self.guard[-1]
            for j, s in enumerate(st):
                if isinstance(s, dict):
                    q = padd(s, e, -1)
                    if all(m == () for m in q) and (e or s):
                        return self.ltext((b, st[:j])), padd(pa(I), q)
        return self.ltext(l), None

    def add(self, mode, l, n):
        if l[0].startswith('~') or l[0] in ('?',):
            return
        r, off = self.split(l)
        self.acc.append(Acc(mode, r, off, ptext(self.guard[-1]) if self.guard else None, n.l, n.f or self.path, self.name, self.ltext(l)))

    def walk(self, n, env):
        if n is None or id(n) in self.exempt:
            return
        k = n.k
        if k == 'IfStmt' or k == 'ConditionalOperator':
            self.walk(n.c[0], env)
            t, f = self.cond(n.c[0], env)
            for br, g in zip(n.c[1:3], (t, f)):
                if g is not None:
                    self.guard.append(g)
                self.walk(br, env)
                if g is not None:
                    self.guard.pop()
            return
        if k == 'CompoundStmt':
            g0 = len(self.guard)
            for c in n.c:
                self.walk(c, env)
                if c.k == 'IfStmt' and len(c.c) == 2 and self.leaves(c.c[1]):
                    t, f = self.cond(c.c[0], env)
                    if f is not None:
                        self.guard.append(f)
            del self.guard[g0:]
            return
        if (k == 'BinaryOperator' and n.op == '=') or k == 'CompoundAssignOperator' or (k == 'UnaryOperator' and n.op in ('++', '--')):
            l = F.strip_casts(n.c[0])
            plain = l.k == 'DeclRefExpr'
            if not (plain and (l.r[3] in self.locals)):
                for q in self.loc(l, env):
                    self.add('w', q, n)
            if not plain:
                for c in l.c:
                    self.walk(c, env)
            for c in n.c[1:]:
                self.walk(c, env)
            return
        if k == 'CallExpr':
            self.call(n, env)
            return
        if k in ('MemberExpr', 'ArraySubscriptExpr') or (k == 'UnaryOperator' and n.op == '*'):
            p = n.p
            if not (p is not None and p.k == 'UnaryOperator' and p.op == '&'):
                for q in self.loc(n, env):
                    self.add('r', q, n)
        if k == 'DeclRefExpr' and n.r and n.r[0] in ('VarDecl', 'ParmVarDecl') and n.r[3] not in self.locals and not isptr(n.t):
            self.add('r', (n.r[1], ()), n)
        for c in n.c:
            self.walk(c, env)

    def leaves(self, s):
        x = s.c[-1] if s.k == 'CompoundStmt' and s.c else s
        return x.k in ('ContinueStmt', 'ReturnStmt')

    def cond(self, c, env):
        """(e if i == e is known when true, same when false)"""
        c = F.strip_casts(c)
        if c.k == 'UnaryOperator' and c.op == '!':
            t, f = self.cond(c.c[0], env)
            return f, t
        if c.k == 'BinaryOperator' and c.op == '&&':
            r = None
            for x in c.c:
                r = r or self.cond(x, env)[0]
            return r, None
        if c.k != 'BinaryOperator' or c.op not in ('==', '!=', '<', '<=', '>', '>='):
            return None, None
        a, b = self.int(c.c[0], env), self.int(c.c[1], env)
        op = c.op
        if b == pa(I):
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if a != pa(I) or dep(b):
            return None, None
        if op == '==':
            return b, None
        if op == '!=':
            return None, b
        if op in ('<', '>=') and self.bound is not None:
            r = b if b == self.bound else None
            return (None, r) if op == '<' else (r, None)
        if op in ('>', '<=') and self.start is not None:
            r = b if b == self.start else None
            return (None, r) if op == '>' else (r, None)
        return None, None

    def call(self, n, env):
        args = n.c[1:]
        name = F.callee(n)
        self.calls.append((n, self.path))
        w = self.S.written_args(n, self.path)
        st = self.S.stored_args(n, self.path)
        shared = False
        for j, a in enumerate(args):
            if isptr(a.t) and j in w:
                for l in self.ptr(a, env):
                    if not l[0].startswith('~') and self.split(l)[1] is None:
                        shared = True
        r = self.P.lookup(name, self.path) if name else None
        if r and (shared or any(isptr(a.t) is False and dep(self.int(a, env)) for a in args)) and self.depth < 4:
            self.inline(r, n, env)
            for a in args:
                if a.k == 'CallExpr':
                    self.walk(a, env)
            return
        if name is None:
            for c in n.c[0].walk():
                if c.k == 'CallExpr':
                    self.walk(c, env)
        for j, a in enumerate(args):
            if isptr(a.t):
                for l in self.ptr(a, env):
                    self.add('w' if j in w else 'a', l, n)
                    if j in st and not l[0].startswith('~'):
                        self.stored.append((self.split(l), st[j], n.l, n.f or self.path, self.ltext(l)))
                for c in a.walk():
                    if c.k == 'CallExpr':
                        self.walk(c, env)
            else:
                self.walk(a, env)

    def inline(self, r, n, env):
        path, fn = r
        old = (self.path, self.name, self.defs)
        e = Env()
        ps = F.params(fn)
        for p, a in zip(ps, n.c[1:]):
            if isptr(p.t):
                e.v[p.id] = [l if not l[0].startswith('~') else l for l in self.ptr(a, env)]
            else:
                e.v[p.id] = self.int(a, env)
        self.path, self.name = path, fn.n or self.name
        defs = self.collect(fn)
        for p in ps:
            if len(defs.get(p.id, ())) and not isptr(p.t):
                e.v.pop(p.id, None)
        self.defs = {**old[2], **defs}
        loc = {x.id for x in fn.walk() if x.k == 'VarDecl' and (x.x or {}).get('storageClass') != 'static'} | {p.id for p in ps}
        self.locals |= loc
        self.depth += 1
        self.walk(F.body(fn), e)
        self.depth -= 1
        self.path, self.name, self.defs = old


def pragma(fn_file, line):
    try:
        L = open(fn_file if os.path.isabs(fn_file) else os.path.join(F.REPO, fn_file), errors='replace').read().split('\n')
    except OSError:
        return ''
    s, j = '', line - 1
    while j < len(L):
        s += L[j].rstrip('\\') + ' '
        if not L[j].rstrip().endswith('\\'):
            break
        j += 1
    return s


def private_vars(text):
    out = set()
    for m in re.finditer(r'\b(private|firstprivate|lastprivate|linear)\s*\(([^)]*)\)', text):
        out |= {x.strip().split(':')[0] for x in m.group(2).split(',')}
    for m in re.finditer(r'\breduction\s*\([^:)]*:([^)]*)\)', text):
        out |= {x.strip().split('[')[0] for x in m.group(1).split(',')}
    return out


def conflict(a, b):
    """may two different iterations touch the same element through a (a write) and b?  True / False / None (undecided)"""
    if a.root == b.root:
        if a.off is None and b.off is None:
            return not (a.single and a.single == b.single)
        if a.off is None or b.off is None:
            x = a if a.off is None else b
            return None if b.mode == 'a' and b.off is None else (True if x.mode == 'w' else None)
        if a.off == b.off:
            m = [x for x in a.off if any(I in y for y in x)]
            if all(I in x and x.count(I) == 1 for x in m):
                return False
            return None
        d = padd(a.off, b.off, -1)
        lin = all(all(y == I or I not in y for y in x) for x in list(a.off) + list(b.off))
        if lin and d and all(x == () for x in d) and (I,) in a.off:
            return True if d[()] % a.off[(I,)] == 0 else False
        return None
    return False
