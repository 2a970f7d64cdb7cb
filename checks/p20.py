"""P20: option attributes accept exactly their documented values."""
import ast, json, math, os, re
import cfront as F, pysetter as P
import p21
from report import AnalysisBroken

RULE = ('The setter of every option with a documented value set (table options.json, transcribed from the docstrings and error messages) is evaluated abstractly over a finite partition of the Python values: '
        'types, numeric regions cut at the constants occurring in the setter and at the documented bounds, every string constant occurring and any other string. Helpers are inlined and undecided conditions fork. '
        'A class inside the documented set must be accepted on every path, a class outside must raise on every path, and no attribute may be written on a path that raises. The literal defaults in the initialiser must be inside the set.')
D = p21.D
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'options.json')


def expect(spec, c):
    """True: must be accepted, False: must be rejected, None: not specified"""
    free = spec.endswith('(bound unspecified)')
    alts = spec.replace(' (bound unspecified)', '').split(' or ')
    if 'None' in alts:
        if c == ('none',):
            return True
        alts = [a for a in alts if a != 'None']
    s = alts[0]
    k = c[0]
    if k in ('arr', 'sx', 'obj'):
        return None
    if s == 'any string':
        return (True if k == 'str' and c[1] else None) if k == 'str' else False
    if s.startswith('one of '):
        v = s[7:].split()
        return c[1] in v if k == 'str' else False
    if s == 'bool':
        return True if k == 'bool' else False if k not in ('int', 'float') or c[1] != c[2] or c[1] not in (0, 1) else None if k == 'float' else False
    w = s.split()
    if k not in ('bool', 'int', 'float'):
        return False
    if k == 'bool':
        return False if w[0] == 'float' else None
    if w[0] == 'integers':
        v = [int(x) for x in w[1:]]
        if k == 'int':
            return c[1] in v if c[1] == c[2] else (False if not any(c[1] < x < c[2] for x in v) else None)
        return None if c[1] == c[2] and c[1] in v else False
    if w[0] == 'integer' and k == 'float':
        return False if c[1] == c[2] and c[1] != int(c[1]) or c[1] != c[2] else None
    if w[0] == 'float' and k == 'int':
        return False
    b = list(zip(w[1::2], [float(x) for x in w[2::2]]))
    if not b:
        return True if c[1] >= 1 else None
    r = []
    for op, x in b:
        if c[1] == c[2] == x and free:
            return None
        lo, hi = c[1], c[2]
        if lo == hi:
            r.append({'<': lo < x, '<=': lo <= x, '>': lo > x, '>=': lo >= x}[op])
        elif op[0] == '>':
            r.append(True if lo >= x else False if hi <= x else None)
        else:
            r.append(True if hi <= x else False if lo >= x else None)
    return False if False in r else None if None in r else True


def bounds(spec):
    return [float(x) for x in re.findall(r'-?\d+(?:\.\d+)?', spec)] if not spec.startswith(('one of', 'any')) else []


def classify(v):
    if v is None:
        return ('none',)
    if isinstance(v, bool):
        return ('bool', v)
    if isinstance(v, (int, float)):
        return (type(v).__name__, v, v)
    return ('str', v) if isinstance(v, str) else ('list', None) if v == [] else ('dict',) if isinstance(v, dict) else ('obj',)


def near(s):
    """the documented strings and strings that resemble them"""
    if not s.startswith('one of '):
        return ()
    w = s[7:].split()
    out = set(w)
    for x in w:
        out |= {x.lower(), x.upper(), x.title(), x[:-1], x[1:], x + 'X', x + '_', ' ' + x, x + ' ', x.replace('_', ' '), x.replace('_', '-')} | {'_'.join(x.split('_')[:i]) for i in range(1, x.count('_') + 1)} | {'_'.join(x.split('_')[i:]) for i in range(1, x.count('_') + 1)}
    out |= {'', 'NONE', 'None', 'AUTO', w[0] + w[-1]}
    return sorted(out)


def run(ctx):
    spec = json.load(open(SPEC))
    for fn, cn in p21.CLASSES:
        if cn not in spec:
            continue
        e, c, props, helpers = p21.machine(fn, cn)
        f = '%s/%s' % (D, fn)
        inits = {}
        for m in c.body:
            if isinstance(m, ast.FunctionDef) and m.name == '__init__':
                for x in ast.walk(m):
                    if isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None:
                        t = x.targets[0] if isinstance(x, ast.Assign) else x.target
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            try:
                                inits[t.attr.lstrip('_')] = (ast.literal_eval(x.value), x.lineno)
                            except ValueError:
                                pass
        for p, s in sorted(spec[cn].items()):
            if p not in props or props[p][1] is None:
                ctx.skip('%s.%s: no setter found' % (cn, p))
                continue
            ctx.count('options')
            setter = props[p][1]
            key = '%s.%s' % (cn, p)
            where = '%s:%d' % (f, setter.lineno)
            done = True
            for cl in p21.partition(e, setter, helpers, bounds(s), near(s)):
                want = expect(s, cl)
                try:
                    res = e.explore(lambda: e.call(setter, [('self', 'self'), ('p', cl, 'same')], []))
                except (P.Stop, RecursionError) as ex:
                    if want is not None:
                        ctx.skip('%s given %s: %s' % (key, P.label(cl), ex))
                        done = False
                    continue
                ctx.count('argument classes evaluated')
                for kind, r, stores, conds, heap, equal in res:
                    if kind == 'raise' and stores:
                        ctx.violation('dirty:' + key, '%s:%d' % (f, stores[0][2]), '%s rejects %s only after %s has been overwritten' % (key, P.label(cl), stores[0][0].replace('self._%s__' % cn, 'self.')))
                if want is None:
                    continue
                ctx.count('classes with a documented verdict')
                kinds = {r[0] for r in res if not any('iterations' in t for t, _ in r[3])}
                cond = [', '.join('%s is %s' % (t.split('|')[0], b) for t, b in r[3][:3]) for r in res if (r[0] == 'raise') == want]
                if kinds == ({'raise'} if want else {'ok'}) or want and 'raise' in kinds and stateful(res) or not want and 'ok' in kinds and stateful(res):
                    ctx.violation('accepts:' + key, where, '%s (documented: %s) %s %s%s' % (key, s, 'rejects' if want else 'accepts', P.label(cl), ' when ' + cond[0] if cond and cond[0] else ''))
                elif len(kinds) != 1:
                    ctx.skip('%s given %s: not decided' % (key, P.label(cl)))
                    done = False
            if done:
                ctx.count('options decided')
            if p in inits and inits[p][0] is not None:
                cl = classify(inits[p][0])
                ctx.count('defaults checked')
                if expect(s, cl) is False and not (cl[0] == 'int' and s.startswith(('float', 'number'))) and inits[p][0] != []:
                    ctx.violation('default:' + key, '%s:%d' % (f, inits[p][1]), 'the default %r of %s is not one of its documented values (%s)' % (inits[p][0], key, s))
    ctx.floor('options', 150)
    ctx.floor('classes with a documented verdict', 3000)


def stateful(res):
    """the verdict depends on the state of the object, not on an undecided property of the argument"""
    t = {x for r in res for x, _ in r[3]}
    return bool(t) and all("('p'" not in x and 'self.' in x for x in t)
