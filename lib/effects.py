"""Field-based side effects: names of record members (and '*' for stores through plain pointers) a function may write, transitively."""
import re
import cfront as F


class Effects:
    def __init__(self, P, G):
        self.P = P; self.G = G
        self.own = {}
        self.ftypes = {}
        for r, fl in P.records.items():
            for x in fl:
                self.ftypes.setdefault(x[0], set()).add(P.rec_of(x[1]))
        for name, lst in P.functions.items():
            for path, fn in lst:
                self.own[(path, name)] = self._own(fn)
        self.mod = {k: set(v) for k, v in self.own.items()}
        callees = {k: {t for e in ed for t in G.targets(e)} for k, ed in G.calls.items()}
        self.callees = callees
        rev = {}
        for k, ts in callees.items():
            for t in ts:
                rev.setdefault(t, set()).add(k)
        work = list(self.mod)
        while work:
            t = work.pop()
            for k in rev.get(t, ()):
                if not self.mod.get(t, set()) <= self.mod[k]:
                    self.mod[k] |= self.mod[t]
                    work.append(k)

    def types_of(self, f):
        """records a member named f can point to or hold"""
        return self.ftypes.get(f, set())

    def _field(self, l):
        """member name of the object stored to by assigning to l, or None for a local scalar"""
        while True:
            l = F.strip_casts(l)
            if l.k == 'MemberExpr':
                return (self.P.rec_of(l.c[0].t), l.n)
            if l.k == 'ArraySubscriptExpr':
                l = l.c[0]
                continue
            if l.k == 'UnaryOperator' and l.op == '*':
                b = F.strip_casts(l.c[0])
                return ('*', '*') if b.k != 'MemberExpr' else (self.P.rec_of(b.c[0].t), b.n)
            if l.k == 'ConditionalOperator':
                l = l.c[1]
                continue
            return None

    def _own(self, fn):
        out = set()
        for a in fn.walk():
            if (a.k == 'BinaryOperator' and a.op == '=') or a.k == 'CompoundAssignOperator' or (a.k == 'UnaryOperator' and a.op in ('++', '--')):
                f = self._field(a.c[0])
                if f:
                    out.add(f)
            elif a.k == 'CallExpr':
                for c in a.c[1:]:
                    c = F.strip_casts(c)
                    if c.k == 'UnaryOperator' and c.op == '&':
                        f = self._field(c.c[0])
                        if f:
                            out.add(f)
        return out

    def reach(self, seeds):
        """functions from which a seed function can be reached by direct or slot calls (seeds included)"""
        need = set(seeds)
        while True:
            more = {k for k, ts in self.callees.items() if k not in need and ts & need}
            if not more:
                return need
            need |= more

    def of_call(self, name, slot, path):
        """set of member names possibly written by a call; None when unknown targets"""
        if name:
            d = self.P.lookup(name, path)
            return self.mod.get((d[0], name), set()) if d else set()
        if slot is None:
            return None
        ts = self.G.slots.get(slot)
        if not ts:
            return None
        out = set()
        for t in ts:
            out |= self.mod.get(t, set())
        return out

    def hits(self, text, mod):
        """may an access path in text denote a member in mod?"""
        names = {f for _, f in mod}
        for seg in PATH.findall(text):
            comp = re.split(r'->|\.', re.sub(r'\[[^\]]*\]', '', seg))
            for i in range(1, len(comp)):
                if comp[i] not in names:
                    continue
                rs = self.types_of(comp[i - 1]) if i > 1 else set()
                if not rs or 'void' in rs or any((r, comp[i]) in mod for r in rs):
                    return True
        return False


PATH = re.compile(r'[A-Za-z_][\w]*(?:(?:->|\.)[A-Za-z_]\w*|\[[^\]]*\])+')
