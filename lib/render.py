"""Expansion of the C templates under a synthetic problem description (values are chosen, nothing of acados is executed).

A description is a dict  path -> value  (paths without indices such as 'cost.cost_type', or with indices 'cost[1].cost_type');
paths that are not listed stand for themselves: arrays of non-zero numbers, true flags, identifiers for model functions."""
import re, os
import cfront as F, tera, templates

BASE = 'interfaces/acados_template/acados_template'


class RenderError(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class O:
    """array or object of the description that is only known by its path"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def norm(self):
        return re.sub(r'\[[^\]]*\]', '', self.p)


UNDEF = object()


class R:
    def __init__(self, desc, strict=True):
        self.d = desc
        self.out = []
        self.map = []
        self.branches = set()     # (if-node line, branch) taken
        self.unknown = set()      # string comparisons against paths without a value
        self.strict = strict

    # ---- values ----------------------------------------------------------------------------
    def look(self, p):
        d = self.d
        if p in d and not callable(d[p]):
            return d[p]
        n = re.sub(r'\[[^\]]*\]', '', p)
        if n in d:
            v = d[n]
            if callable(v):
                return v(p) if '[' in p else O(p)
            return v
        for pre, v in self.d['prefix']:
            if n.startswith(pre):
                return v
        if n.startswith(('dims.', 'phases_dims.')):
            k = n.split('.', 1)[1]
            if 'dims.' + k in d:
                return d['dims.' + k]
            raise RenderError('dimension %s has no value' % p)
        m = re.match(r'(cost|constraints|model|dims)_(0|e)\.', n)
        if m:
            return self.look(m.group(1) + n[m.end() - 1:])
        return O(p)

    def num(self, v):
        if isinstance(v, O):
            n = v.norm().split('.')[-1]
            idx = re.findall(r'\[(\d+)\]', v.p)
            if n.startswith(('idx', 'i_', 'jc', 'ir')) and idx:
                return int(idx[-1])
            if n.startswith(('n_', 'num_')) or n in ('nnz', 'N_horizon'):
                return 2
            return 1.5
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, list):
            raise RenderError('array used as number')
        try:
            return float(v)
        except (TypeError, ValueError):
            raise RenderError('not a number: %r' % (v,))

    def text(self, v):
        if isinstance(v, O):
            return repr(self.num(v))
        if v is UNDEF:
            raise RenderError('undefined variable printed')
        if isinstance(v, bool):
            return 'true' if v else 'false'
        return str(v)

    def length(self, v):
        if isinstance(v, (list, str)):
            return len(v)
        k = 'len:' + v.norm()
        if k in self.d:
            x = self.d[k]
            return x(v.p) if callable(x) else x
        return 2

    def items(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, dict):
            return list(v.values())
        return [self.look('%s[%d]' % (v.p, i)) for i in range(self.length(v))]

    def true(self, v):
        if v is UNDEF or v is None:
            return False
        if isinstance(v, O):
            return True
        return bool(v)

    def ev(self, e):
        k = e[0]
        if k in ('num', 'str', 'bool'):
            return e[1]
        if k == 'var':
            for s in reversed(self.scopes):
                if e[1] in s:
                    return s[e[1]]
            return self.look(e[1])
        if k == 'attr':
            b = self.ev(e[1])
            if isinstance(b, O):
                return self.look(b.p + '.' + e[2])
            if isinstance(b, dict):
                return b.get(e[2], UNDEF)
            raise RenderError('attribute %s of %r' % (e[2], b))
        if k == 'idx':
            b = self.ev(e[1]); i = self.ev(e[2])
            if isinstance(b, O):
                return self.look('%s[%s]' % (b.p, i if not isinstance(i, O) else self.num(i)))
            if isinstance(b, list):
                if not isinstance(i, int) or i >= len(b):
                    raise RenderError('index %r out of %d' % (i, len(b)))
                return b[i]
            raise RenderError('index into %r' % (b,))
        if k == 'array':
            return [self.ev(x) for x in e[1]]
        if k == 'not':
            return not self.true(self.ev(e[1]))
        if k == 'neg':
            return -self.num(self.ev(e[1]))
        if k == 'test':
            a = self.ev(e[1])
            r = None
            args = [self.ev(x[1]) if isinstance(x, tuple) and x and x[0] is None else self.ev(x) for x in e[4]]
            if e[2] == 'containing':
                r = (args[0] in a) if isinstance(a, (str, list)) else False
            elif e[2] == 'starting_with':
                r = isinstance(a, str) and a.startswith(args[0])
            elif e[2] == 'ending_with':
                r = isinstance(a, str) and a.endswith(args[0])
            elif e[2] == 'defined':
                r = a is not UNDEF
            elif e[2] == 'undefined':
                r = a is UNDEF
            else:
                raise RenderError('test ' + e[2])
            return (not r) if e[3] else r
        if k == 'filter':
            f = e[2]
            a = self.ev(e[1])
            args = {(n or str(i)): self.ev(v) for i, (n, v) in enumerate(e[3])}
            if f == 'upper':
                return self.text(a).upper()
            if f == 'lower':
                return self.text(a).lower()
            if f == 'length':
                return self.length(a)
            if f in ('first', 'last'):
                it = self.items(a)
                if not it:
                    raise RenderError(f + ' of an empty array')
                return it[0] if f == 'first' else it[-1]
            if f == 'sort':
                if isinstance(a, list):
                    return sorted(a, key=self.num)
                return a
            if f == 'concat':
                w = args.get('with')
                return list(self.items(a)) + (w if isinstance(w, list) else [w])
            if f == 'replace':
                return self.text(a).replace(args['from'], args['to'])
            if f == 'default':
                return args.get('value') if a is UNDEF else a
            if f == 'slice':
                it = self.items(a)
                return it[args.get('start', 0):args.get('end', len(it))]
            if f in ('int', 'float'):
                return {'int': int, 'float': float}[f](self.num(a))
            if f in ('round', 'abs'):
                return {'round': round, 'abs': abs}[f](self.num(a))
            raise RenderError('filter ' + f)
        if k == 'call':
            if e[1] == 'range':
                a = {n: self.num(self.ev(v)) for n, v in e[2]}
                return list(range(int(a.get('start', 0)), int(a['end']), int(a.get('step_by', 1))))
            if e[1] == 'throw':
                raise RenderError('template throws: %s' % tera.etext(e[2][0][1])[:80])
            raise RenderError('function ' + e[1])
        if k == 'bin':
            op = e[1]
            if op == 'and':
                return self.true(self.ev(e[2])) and self.true(self.ev(e[3]))
            if op == 'or':
                return self.true(self.ev(e[2])) or self.true(self.ev(e[3]))
            a, b = self.ev(e[2]), self.ev(e[3])
            if op in ('==', '!='):
                if isinstance(a, str) or isinstance(b, str):
                    for x in (a, b):
                        if isinstance(x, O):
                            self.unknown.add(x.norm())
                    r = a == b
                elif isinstance(a, bool) or isinstance(b, bool):
                    r = self.true(a) == self.true(b)
                elif isinstance(a, list) or isinstance(b, list):
                    r = a == b
                else:
                    r = self.num(a) == self.num(b)
                return r if op == '==' else not r
            if op == '~':
                return self.text(a) + self.text(b)
            x, y = self.num(a), self.num(b)
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return x * y
            if op == '/':
                if y == 0:
                    raise RenderError('division by zero in %s' % tera.etext(e)[:60])
                q = x / y
                return int(q) if q == int(q) and isinstance(x, int) and isinstance(y, int) else q
            if op == '%':
                return x % y
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        if k == 'in':
            return self.ev(e[1]) in self.items(self.ev(e[2]))
        raise RenderError('expression ' + k)

    # ---- nodes -----------------------------------------------------------------------------
    def put(self, s, line):
        parts = s.split('\n')
        for i, q in enumerate(parts):
            if i:
                self.lines.append('')
                self.map.append(None)
            if q:
                self.lines[-1] += q
                if self.map[-1] is None or not self.lines[-1].strip():
                    self.map[-1] = line + i
            elif self.map[-1] is None:
                self.map[-1] = line + i

    def nodes(self, nds):
        for nd in nds:
            k = nd[0]
            if k == 'text':
                self.put(nd[1], nd[2])
            elif k == 'out':
                try:
                    v = self.ev(nd[1])
                    t = self.text(v)
                except RenderError as x:
                    raise RenderError('line %d: {{ %s }}: %s' % (nd[2], tera.etext(nd[1])[:60], x)) from None
                self.put(t, nd[2])
            elif k == 'if':
                for b, (cond, body) in enumerate(nd[1]):
                    try:
                        c = True if cond is None else self.true(self.ev(cond))
                    except RenderError as x:
                        raise RenderError('line %d: %s' % (nd[2], x)) from None
                    if c:
                        self.branches.add((id(nd), b))
                        self.scopes.append({})
                        try:
                            self.nodes(body)
                        finally:
                            self.scopes.pop()
                        break
                else:
                    self.branches.add((id(nd), -1))
            elif k == 'for':
                it = self.ev(nd[3])
                items = self.items(it)
                for i, x in enumerate(items):
                    self.branches.add((id(nd), 0))
                    sc = {nd[2]: x, 'loop': {'index0': i, 'index': i + 1, 'first': i == 0, 'last': i == len(items) - 1}}
                    if nd[1]:
                        sc[nd[1]] = list(it)[i] if isinstance(it, dict) else i
                    self.scopes.append(sc)
                    try:
                        self.nodes(nd[4])
                    except Brk:
                        break
                    except Cont:
                        continue
                    finally:
                        self.scopes.pop()
                if not items and nd[5]:
                    self.nodes(nd[5])
            elif k == 'set':
                v = self.ev(nd[2])
                if nd[3]:
                    self.scopes[0][nd[1]] = v
                    for s in self.scopes[1:]:
                        s.pop(nd[1], None)
                else:
                    # plain set: visible in the enclosing for/macro/template scope (if blocks do not open one)
                    self.scopes[self.scope_for_set()][nd[1]] = v
            elif k == 'break':
                raise Brk()
            elif k == 'continue':
                raise Cont()
            elif k in ('include', 'import', 'extends', 'macro'):
                raise RenderError(k + ' is not supported')
            elif k in ('block', 'filter'):
                self.nodes(nd[2])

    def scope_for_set(self):
        for i in range(len(self.scopes) - 1, -1, -1):
            if i == 0 or 'loop' in self.scopes[i]:
                return i

    def run(self, nds):
        self.lines = ['']
        self.map = [None]
        self.scopes = [{}]
        self.nodes(nds)
        return '\n'.join(self.lines) + '\n'


_nodes = {}


def render(rel, desc):
    """(text, line map, R)"""
    r = R(desc)
    if rel not in _nodes:
        _nodes[rel] = tera.load(os.path.join(F.REPO, rel))
    t = r.run(_nodes[rel])
    return t, r.map, r
