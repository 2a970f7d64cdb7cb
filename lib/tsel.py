"""Three-valued evaluation of the conditions that govern generated code, under a partial assignment of the problem description."""
import tera


def norm(e):
    """variable path without indices: cost[jj].cost_type_0 -> cost.cost_type_0"""
    if e[0] == 'var':
        return e[1]
    if e[0] == 'attr':
        b = norm(e[1])
        return None if b is None else b + '.' + e[2]
    if e[0] == 'idx':
        return norm(e[1])
    return None


def val(e, env):
    """value of an expression or None when unknown"""
    if e[0] in ('str', 'num', 'bool'):
        return e[1]
    n = norm(e)
    if n is not None:
        if n not in env and e[0] == 'var':
            d = env.get('$sets', {}).get(n, ())
            if len(d) == 1 and not d[0][1]:
                x = d[0][0]
                return truth(x, env) if x[0] in ('bin', 'not', 'test') and x[1] not in ('+', '-', '*', '/', '%', '~') else val(x, env)
        return env.get(n)
    return None


def truth(e, env):
    k = e[0]
    if k == 'bool':
        return e[1]
    if k == 'not':
        t = truth(e[1], env)
        return None if t is None else not t
    if k == 'bin' and e[1] == 'and':
        a, b = truth(e[2], env), truth(e[3], env)
        if a is False or b is False:
            return False
        return True if a and b else None
    if k == 'bin' and e[1] == 'or':
        a, b = truth(e[2], env), truth(e[3], env)
        if a or b:
            return True
        return False if a is False and b is False else None
    if k == 'bin' and e[1] in ('==', '!=', '<', '>', '<=', '>='):
        a, b = val(e[2], env), val(e[3], env)
        if a is None or b is None:
            return None
        if e[1] == '==':
            return a == b
        if e[1] == '!=':
            return a != b
        if isinstance(a, str) or isinstance(b, str):
            return None
        return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[e[1]]
    if k == 'bin' and e[1] == 'in':
        a = val(e[2], env)
        if a is None or e[3][0] != 'array':
            return None
        vs = [val(x, env) for x in e[3][1]]
        if a in vs:
            return True
        return None if None in vs else False
    if k == 'test':
        a = val(e[1], env)
        if a is None or not isinstance(a, str):
            return None
        b = val(e[4][0][1], env) if e[4] else None
        r = None
        if e[2] == 'starting_with' and b is not None:
            r = a.startswith(b)
        elif e[2] == 'containing' and b is not None:
            r = b in a
        elif e[2] == 'ending_with' and b is not None:
            r = a.endswith(b)
        if r is None:
            return None
        return not r if e[3] else r
    v = val(e, env)
    if v is None:
        return None
    return bool(v)


def governed(sk, c, env):
    """may code with governing tags c be generated under env?  True / None (unknown) / False"""
    res = True
    env = dict(env)
    env['$sets'] = sk.sets
    for t in c:
        if t[0] != 'if':
            continue
        nd = sk.ctx[t[1]]
        for b, (cond, body) in enumerate(nd[1]):
            if b < t[2]:
                x = truth(cond, env) if cond is not None else None
                if x is True:
                    return False
                if x is None:
                    res = None
            elif b == t[2]:
                if cond is not None:
                    x = truth(cond, env)
                    if x is False:
                        return False
                    if x is None:
                        res = None
    return res


def variables(sk, c):
    out = set()
    for t in c:
        if t[0] == 'if':
            for cond, body in sk.ctx[t[1]][1][:t[2] + 1]:
                if cond is not None:
                    for s in tera.subexprs(cond):
                        n = norm(s)
                        if n:
                            out.add(n)
    return out
