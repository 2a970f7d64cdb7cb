"""Which parameters a function may write through, which parameter pointers it stores in memory, and through which pointer fields it writes."""
import cfront as F

NONE = {'blasfeo_ddot', 'blasfeo_dgeex1', 'blasfeo_dvecex1', 'blasfeo_memsize_dmat', 'blasfeo_memsize_dvec'}
TWO = {'blasfeo_dgemv_nt', 'blasfeo_drowsw', 'blasfeo_dcolsw', 'blasfeo_dvecsw', 'blasfeo_dgetrf_rp', 'blasfeo_dgetrf_np'}
FIRST = {'memcpy', 'memset', 'memmove', 'strcpy', 'strncpy', 'strcat', 'snprintf', 'sprintf', 'fprintf', 'fclose', 'free', 'fwrite'}
READS = {'printf', 'strcmp', 'strncmp', 'strlen', 'exit', 'atoi', 'fabs', 'sqrt', 'strstr', 'strchr', 'puts', 'assert', '__assert_fail'}


def isptr(t):
    return bool(t) and (t.rstrip().endswith(('*', ']', '*const', '*restrict')) or '*restrict' in t)


def ext_writes(name, args):
    """indices of the arguments an external routine writes through"""
    ps = [j for j, a in enumerate(args) if isptr(a.t)]
    if name in READS or name in NONE or name.startswith('blasfeo_print'):
        return []
    if name in FIRST:
        return ps[:1]
    if name.startswith('blasfeo_'):
        return ps[-2:] if name in TWO else ps[-1:]
    return [j for j in ps if not (args[j].t or '').startswith('const ')]


class WSum:
    def __init__(self, P, G):
        self.P, self.G = P, G
        self.W, self.S, self.T = {}, {}, {}      # key -> param indices written through / {param: {(rec, field)}} / {(rec, field)} written through
        self.data = {}
        for name, l in P.functions.items():
            for path, fn in l:
                k = (path, name)
                self.W[k], self.S[k], self.T[k] = set(), {}, set()
                self.data[k] = self.prep(path, fn)
        ch = True
        while ch:
            ch = False
            for k, d in self.data.items():
                ch |= self.step(k, d)

    def prep(self, path, fn):
        ps = {p.id: j for j, p in enumerate(F.params(fn))}
        defs, writes, calls, rets = [], [], [], []
        for a in fn.walk():
            if a.k == 'VarDecl' and a.c and isptr(a.t):
                defs.append((a.id, a.c[-1]))
            elif (a.k == 'BinaryOperator' and a.op == '=') or a.k == 'CompoundAssignOperator':
                l = F.strip_casts(a.c[0])
                if l.k == 'DeclRefExpr':
                    if isptr(l.t):
                        defs.append((l.r[3], a.c[1]))
                else:
                    writes.append((l, a.c[1]))
            elif a.k == 'UnaryOperator' and a.op in ('++', '--'):
                l = F.strip_casts(a.c[0])
                if l.k != 'DeclRefExpr':
                    writes.append((l, None))
            elif a.k == 'CallExpr':
                calls.append(a)
        return dict(path=path, ps=ps, defs=defs, writes=writes, calls=calls, env={})

    def labels(self, n, d, out=None):
        out = set() if out is None else out
        st = [n]
        while st:
            n = F.strip_casts(st.pop())
            k = n.k
            if k == 'DeclRefExpr':
                if n.r and n.r[3] in d['ps']:
                    out.add(d['ps'][n.r[3]])
                if n.r:
                    out |= d['env'].get(n.r[3], set())
            elif k == 'MemberExpr':
                if isptr(n.t):
                    out.add((self.P.rec_of(n.c[0].t), n.n))
                st.append(n.c[0])
            elif k in ('ArraySubscriptExpr',):
                st.append(n.c[0])
            elif k == 'UnaryOperator' and n.op in ('*', '&', '++', '--'):
                st.append(n.c[0])
            elif k == 'BinaryOperator' and n.op in ('+', '-'):
                for c in n.c:
                    if isptr(c.t):
                        st.append(c)
            elif k == 'ConditionalOperator':
                st += n.c[1:]
            elif k == 'CallExpr' and isptr(n.t):
                st += [a for a in n.c[1:] if isptr(a.t)]
        return out

    def base(self, l):
        """the pointer expression a store goes through, with the stored-to field itself dropped"""
        l = F.strip_casts(l)
        while l.k == 'MemberExpr':
            l = F.strip_casts(l.c[0])
        return l

    def targets(self, a, path):
        """(function keys, external name) of a call"""
        t = F.callee(a)
        if t:
            r = self.P.lookup(t, path)
            return ([(r[0], t)], None) if r else ([], t)
        f = F.strip_casts(a.c[0])
        while f.k == 'UnaryOperator' and f.op == '*':
            f = F.strip_casts(f.c[0])
        if f.k == 'ArraySubscriptExpr':
            f = F.strip_casts(f.c[0])
        if f.k == 'MemberExpr':
            ts = [x for x in self.G.slots.get(self.G.member_key(f), ()) if x[0] != '<ext>']
            if ts:
                return ts, None
        return [], '<unknown>'

    def written_args(self, a, path):
        ts, e = self.targets(a, path)
        w = set()
        for t in ts:
            w |= self.W.get(t, set())
        if e:
            w |= set(ext_writes(e, a.c[1:]))
        return w

    def stored_args(self, a, path):
        ts, e = self.targets(a, path)
        s = {}
        for t in ts:
            for j, fs in self.S.get(t, {}).items():
                s.setdefault(j, set()).update(fs)
        return s

    def step(self, k, d):
        W, S, T = self.W[k], self.S[k], self.T[k]
        n0 = (len(W), sum(map(len, S.values())), len(T))
        for _ in range(3):
            for i, e in d['defs']:
                d['env'].setdefault(i, set()).update(self.labels(e, d))
        add = set()
        for l, r in d['writes']:
            b = self.base(l)
            if b.k == 'DeclRefExpr' and not isptr(b.t):
                continue
            add |= self.labels(b, d)
            if r is not None and isptr(r.t):
                fld = F.strip_casts(l)
                while fld.k in ('ArraySubscriptExpr',) or (fld.k == 'UnaryOperator' and fld.op == '*'):
                    fld = F.strip_casts(fld.c[0])
                if fld.k == 'MemberExpr':
                    key = (self.P.rec_of(fld.c[0].t), fld.n)
                    for x in self.labels(r, d):
                        if isinstance(x, int):
                            S.setdefault(x, set()).add(key)
        for a in d['calls']:
            args = a.c[1:]
            for j in self.written_args(a, d['path']):
                if j < len(args) and (isptr(args[j].t)):
                    add |= self.labels(args[j], d)
            for j, fs in self.stored_args(a, d['path']).items():
                if j < len(args):
                    for x in self.labels(args[j], d):
                        if isinstance(x, int):
                            S.setdefault(x, set()).update(fs)
        for x in add:
            (W if isinstance(x, int) else T).add(x)
        return n0 != (len(W), sum(map(len, S.values())), len(T))
