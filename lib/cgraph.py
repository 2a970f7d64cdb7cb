"""Call graph of the library with function-pointer slots resolved by (record, field)."""
import cfront as F


class CG:
    def __init__(self, P):
        self.P = P
        self.slots = {}      # (record, field) -> set of (path, fname)
        self.slot_sites = {} # (record, field) -> list of (path, fn, line, target)
        self.calls = {}      # (path, fname) -> list of (kind, target, line)   kind: 'direct' | 'ext' | 'slot' | 'unknown'
        self.indexed = {}
        for name, lst in P.functions.items():
            for path, fn in lst:
                self.calls[(path, name)] = self._collect(path, name, fn)
        for path, tu in P.tus.items():
            for g in tu.globals:
                self._slots_in(path, None, g)

    def resolve(self, name, path):
        d = self.P.lookup(name, path)
        return (d[0], name) if d else None

    def fn_ref(self, n):
        n = F.strip_casts(n)
        while n.k == 'UnaryOperator' and n.op == '&' and n.c:
            n = F.strip_casts(n.c[0])
        if n.k == 'DeclRefExpr' and n.r and n.r[0] == 'FunctionDecl':
            return n.r[1]
        return None

    def member_key(self, m):
        """(record, field) of a MemberExpr"""
        base = m.c[0] if m.c else None
        rec = self.P.rec_of(base.t) if base is not None else '?'
        return (rec, m.n)

    def _slots_in(self, path, name, root):
        for a in root.walk():
            if a.k == 'BinaryOperator' and a.op == '=' and len(a.c) == 2:
                l = a.c[0]
                if l.k == 'MemberExpr':
                    t = self.fn_ref(a.c[1])
                    if t:
                        k = self.member_key(l)
                        r = self.resolve(t, path) or ('<ext>', t)
                        self.slots.setdefault(k, set()).add(r)
                        self.slot_sites.setdefault(k, []).append((path, name, a.l, r))

    def _collect(self, path, name, fn):
        self._slots_in(path, name, fn)
        out = []
        for a in fn.walk():
            if a.k != 'CallExpr' or not a.c:
                continue
            t = F.callee(a)
            if t:
                r = self.resolve(t, path)
                out.append(('direct', r, a.l) if r else ('ext', t, a.l))
                continue
            f = F.strip_casts(a.c[0])
            while f.k == 'UnaryOperator' and f.op == '*' and f.c:
                f = F.strip_casts(f.c[0])
            if f.k == 'MemberExpr':
                out.append(('slot', self.member_key(f), a.l))
            elif f.k == 'ArraySubscriptExpr' and f.c and F.strip_casts(f.c[0]).k == 'MemberExpr':
                out.append(('slot', self.member_key(F.strip_casts(f.c[0])), a.l))
            else:
                out.append(('unknown', repr(f), a.l))
        # function addresses taken as arguments / locals
        for a in fn.walk():
            if a.k == 'DeclRefExpr' and a.r and a.r[0] == 'FunctionDecl' and not (a.p is not None and a.p.k == 'CallExpr' and a.p.c and a.p.c[0] is a):
                p = a.p
                while p is not None and p.k in ('UnaryOperator', 'CStyleCastExpr'):
                    p = p.p
                if p is not None and p.k == 'BinaryOperator' and p.op == '=' and p.c[0].k == 'MemberExpr':
                    continue   # slot installation, not a call
                r = self.resolve(a.r[1], path)
                out.append(('direct', r, a.l) if r else ('ext', a.r[1], a.l))
        return out

    def targets(self, edge):
        k, t, l = edge
        if k == 'direct':
            return [t]
        if k == 'slot':
            return sorted(x for x in self.slots.get(t, ()) if x[0] != '<ext>')
        return []
