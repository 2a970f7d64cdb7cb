"""Field-effect summaries: what a name-dispatched function does with its value pointer for one concrete name.

The function is interpreted abstractly (lib/absint.py) with the name bound to a constant string and the value bound to a
symbolic pointer; calls that receive the value are followed through every function installed in the slot."""
import re
import cfront as F, absint as A, dispatch

VAL = 'VAL'
INTS = {'int', 'unsigned int', 'unsigned'}


def canon(P, t):
    """kind of a scalar type: int, bool, double, size, char, ptr, or the record / other name"""
    t = (t or '').replace('const', '').replace('volatile', '').replace('struct ', '').replace('restrict', '').strip()
    t = re.sub(r'\s+', ' ', t)
    if t.endswith('*') or '(*' in t:
        return 'ptr'
    seen = 0
    while seen < 6:
        if t in ('int', 'unsigned int', 'unsigned', 'int32_t') or t.startswith('enum ') or t in P.enum_types:
            return 'int'
        if t in ('bool', '_Bool'):
            return 'bool'
        if t in ('double', 'float', 'char', 'void'):
            return t
        if t in ('unsigned long', 'size_t', 'acados_size_t', 'long', 'unsigned long long'):
            return 'size'
        n = P.typedefs.get(t)
        if n is None or n == t:
            break
        t = n.replace('const', '').replace('struct ', '').strip()
        if 'enum' in n:
            return 'int'
        seen += 1
    return t


class Cli(A.Client):
    inline_depth = 7

    def __init__(self, P, G, vals=(VAL,)):
        self.P, self.G = P, G
        self.vals = set(vals)
        self.reads = {}       # (value name) -> {kind: where}
        self.stores = []      # (location, value) for writes that are not to locals
        self.outs = {}        # value name -> {kind: where}  (written through the pointer)
        self.passed = []      # external calls receiving the value
        self.calls = []
        self.opaque = False
        self.size = {}
        self.trace = []
        self.targets = set()
        self.allowed = None   # predicate on (path, function): is it installed under the selection considered

    def base(self, v):
        """name of the value pointer an abstract value is derived from"""
        while True:
            if v[0] == 'p' and v[1] in self.vals:
                return v[1]
            if v[0] == 'e' and v[1] in '+-' and len(v) == 4:
                v = v[2]
                continue
            if v[0] == '&':
                m = re.match(r'^(\w+)\[', v[1])
                if m and m.group(1) in self.vals:
                    return m.group(1)
            return None

    def locbase(self, loc):
        m = re.match(r'^(\w+)\[[^]]*\]$', loc)
        if m and m.group(1) in self.vals:
            return m.group(1)
        m = re.match(r'^(\w+)->', loc)
        if m and m.group(1) in self.vals:
            return m.group(1) + '->'
        return None

    def where(self, e, n):
        return '%s:%s' % (e.cur().path, n.l)

    def on_load(self, e, loc, n, st):
        b = self.locbase(loc)
        if b and not b.endswith('->'):
            p = n.p
            self.reads.setdefault(b, {}).setdefault(canon(self.P, n.t), self.where(e, n))

    def on_write(self, e, loc, val, n, st):
        b = self.locbase(loc)
        if b and not b.endswith('->'):
            t = n.c[0].t if n.c else n.t
            self.outs.setdefault(b, {}).setdefault(canon(self.P, t), self.where(e, n))
        elif '->' in loc or '.' in loc or '[' in loc:
            self.stores.append((loc, val, e.cur().path, n.l))

    def inline(self, path, name, e):
        k = (path, name)
        if k not in self.size:
            self.size[k] = sum(1 for _ in dict(self.P.functions[name])[path].walk())
        return self.size[k] < 9000

    def interesting(self, args):
        return any(self.base(a) for a in args)

    def on_call(self, e, name, slot, args, n, st):
        if name in ('strcmp', 'strncmp', 'strchr', 'strlen', 'strcpy', 'strncpy', 'strstr', 'printf', 'fprintf', 'exit', 'abort', 'snprintf'):
            if name in ('strcmp', 'strcpy', 'strlen', 'strncmp') and any(self.base(a) for a in args):
                b = [self.base(a) for a in args if self.base(a)][0]
                self.reads.setdefault(b, {}).setdefault('char', self.where(e, n))
            return None
        if not self.interesting(args):
            if any(a[0] == 's' for a in args) and name is None and slot:
                return self.follow(e, slot, args, n, st)
            return None
        self.calls.append((name or slot, tuple(args), e.cur().path, n.l))
        if name is None:
            return self.follow(e, slot, args, n, st) if slot else None
        d = self.P.lookup(name, e.cur().path)
        if d is None:
            # external: the parameter type tells how the value is used
            pr = self.P.protos.get(name)
            for i, a in enumerate(args):
                b = self.base(a)
                if b:
                    t = None
                    if pr and i < len(pr[2]):
                        t = pr[2][i]
                    self.passed.append((b, name, i, t, self.where(e, n)))
                    if t and t.strip().endswith('*'):
                        k = canon(self.P, t.strip()[:-1])
                        if k != 'void':
                            self.reads.setdefault(b, {}).setdefault(k, self.where(e, n))
                        else:
                            self.opaque = True
            return None
        # known function: typed pointer parameters are a use too
        return None

    def follow(self, e, slot, args, n, st):
        ts = sorted(x for x in self.G.slots.get(slot, ()) if x[0] != '<ext>')
        self.targets |= set(ts)
        if self.allowed is not None:
            ts = [x for x in ts if self.allowed(x)]
        if not ts or len(e.frames) > self.inline_depth:
            self.opaque = True
            return None
        out = []
        for path, name in ts:
            fn = dict(self.P.functions[name])[path]
            if any(fr.name == name for fr in e.frames):
                continue
            self.trace.append(name)
            s2 = st.copy()
            out += e.call_fn(path, name, fn, list(args), s2)
            self.trace.pop()
        return out


def run_field(P, G, path, name, idx, field, vals=None, client=None):
    """interpret `name` with its string parameter bound to `field`.  Returns (client, returns) or None when not analysable.
    Pointer parameters after the name are the values."""
    fn = dict(P.functions[name])[path]
    ps = F.params(fn)
    if vals is None:
        vals = [p.n for i, p in enumerate(ps) if i > idx and (p.t or '').strip().endswith('*')]
    c = client or Cli(P, G, vals)
    e = A.Engine(P, c, G)
    args = [('p', p.n or 'arg%d' % i) for i, p in enumerate(ps)]
    if field is not None:
        args[idx] = ('s', field, 0)
    try:
        outs = e.run(path, name, args)
    except A.Unsupported as ex:
        return None
    return c, outs
