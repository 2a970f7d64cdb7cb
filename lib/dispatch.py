"""Name-dispatched functions: which functions select behaviour by a string parameter, and for which names."""
import cfront as F


def char_param(t):
    t = (t or '').replace('const', '').replace(' ', '')
    return t in ('char*', 'char[]')


def dispatchers(P, G):
    """{(path,name): index of the dispatching string parameter}"""
    out = {}
    cand = {}
    for name, lst in P.functions.items():
        for path, fn in lst:
            ps = F.params(fn)
            for i, p in enumerate(ps):
                if char_param(p.t):
                    cand[(path, name)] = cand.get((path, name), []) + [(i, p)]
    uses = {}
    for (path, name), pl in cand.items():
        fn = dict(P.functions[name])[path]
        for i, p in pl:
            for a in fn.walk():
                if a.k != 'CallExpr':
                    continue
                t = F.callee(a)
                for j, arg in enumerate(a.c[1:]):
                    x = F.strip_casts(arg)
                    while x.k == 'BinaryOperator' and x.op == '+':
                        x = F.strip_casts(x.c[0])
                    if x.k == 'DeclRefExpr' and x.r and x.r[3] == p.id:
                        if t in ('strcmp', 'strncmp') and any(F.string_lit(q) is not None for q in a.c[1:]):
                            out[(path, name)] = i
                        else:
                            uses.setdefault((path, name, i), []).append((a, t, j))
    ch = True
    while ch:
        ch = False
        for (path, name, i), us in uses.items():
            if (path, name) in out:
                continue
            for a, t, j in us:
                for k in call_targets(P, G, a, t, path):
                    if out.get(k) == j:
                        out[(path, name)] = i
                        ch = True
    return out


def call_targets(P, G, a, t, path):
    if t:
        d = P.lookup(t, path)
        return [(d[0], t)] if d else []
    f = F.strip_casts(a.c[0])
    while f.k == 'UnaryOperator' and f.op == '*':
        f = F.strip_casts(f.c[0])
    if f.k == 'MemberExpr':
        return [x for x in G.slots.get(G.member_key(f), ()) if x[0] != '<ext>']
    return []


def literals(P, path, name, idx):
    """string literals the parameter is compared with, in this function"""
    fn = dict(P.functions[name])[path]
    s = set()
    for a in fn.walk():
        if a.k == 'CallExpr' and F.callee(a) in ('strcmp', 'strncmp'):
            for q in a.c[1:]:
                v = F.string_lit(q)
                if v is not None:
                    s.add(v)
    return s


_lit = {}


def all_literals(P, G, D, key, depth=0, seen=None):
    """literals a dispatcher or any dispatcher it passes a name to compares with (prefixes not composed)"""
    if depth == 0 and key in _lit:
        return _lit[key]
    seen = seen if seen is not None else set()
    if key in seen:
        return set()
    seen.add(key)
    path, name = key
    fn = dict(P.functions[name])[path]
    r = literals(P, path, name, D[key])
    for a in fn.walk():
        if a.k == 'CallExpr':
            t = F.callee(a)
            if t in ('strcmp', 'strncmp'):
                continue
            for k in call_targets(P, G, a, t, path):
                if k in D and k not in seen:
                    r |= all_literals(P, G, D, k, depth + 1, seen)
    if depth == 0:
        _lit[key] = r
    return r
