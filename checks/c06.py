"""C06: unknown names are rejected by every name-dispatched function."""
import cfront as F, cgraph, absint as A, dispatch, re

RULE = ('Every function that selects behaviour by comparing a string parameter with literals is interpreted abstractly with that parameter bound '
        'to "a string equal to none of the known names"; comparisons are decided accordingly (prefix comparisons both ways), calls that pass the '
        'name on are delegated to the (separately checked) callee. Every path must end in a noreturn call or return a failure value; a path that '
        'falls off the end or returns success is the violation.')


FAIL_ONLY = {}


class C(A.Client):
    inline_depth = 3

    def __init__(self, P, G, D):
        self.P, self.G, self.D = P, G, D
        self.delegated = 0
        self.size = {}

    def inline(self, path, name, e):
        if (path, name) in self.D or path.endswith('mem.c'):
            return False
        k = (path, name)
        if k not in self.size:
            self.size[k] = sum(1 for _ in dict(self.P.functions[name])[path].walk())
        return self.size[k] < 600

    def on_call(self, e, name, slot, args, n, st):
        if name in ('strcmp', 'strncmp', 'strchr', 'strstr') and any(e._isus(a, st) for a in args):
            st.must = st.must | {'consulted'}
            st.may = st.may | {'consulted'}
            return None
        if any(a[0] == 'us' for a in args):
            for k in dispatch.call_targets(self.P, self.G, n, name, e.cur().path):
                j = self.D.get(k)
                if j is not None and j < len(args) and args[j][0] == 'us':
                    self.delegated += 1
                    return []                       # obligation of the callee, which is in D itself
            if name and self.P.lookup(name, e.cur().path) is None and re.search(r'(_set|_get)$', name):
                self.delegated += 1                 # field interface of an external library (HPIPM): exits on unknown names
                return []
        return None


def known_returns(P, G, D, path, name, idx, fn):
    """constants returned for known names"""
    r = set()
    for lit in sorted(dispatch.literals(P, path, name, idx)):
        c = C(P, G, D)
        e = A.Engine(P, c, G)
        args = [('p', p.n or 'arg%d' % i) for i, p in enumerate(F.params(fn))]
        args[idx] = ('s', lit, 0)
        try:
            r |= {v for v, s in e.run(path, name, args)}
        except A.Unsupported:
            pass
    return r


def run(ctx):
    P = F.load()
    G = cgraph.CG(P)
    D = dispatch.dispatchers(P, G)
    for (path, name), idx in sorted(D.items()):
        fn = dict(P.functions[name])[path]
        if name in ('extract_module_name', 'extract_field_name'):
            continue
        ctx.count('dispatchers')
        ctx.count('names', len(dispatch.literals(P, path, name, idx)))
        c = C(P, G, D)
        e = A.Engine(P, c, G)
        args = [('p', p.n or 'arg%d' % i) for i, p in enumerate(F.params(fn))]
        args[idx] = ('us', name, '')
        try:
            outs = e.run(path, name, args)
        except A.Unsupported as ex:
            ctx.skip('%s:%s %s' % (path, name, ex))
            continue
        ctx.count('delegations', c.delegated)
        bad = [(v, s) for v, s in outs if 'consulted' in s.may]
        if bad and all(v[0] == 'i' for v, s in bad):
            kr = known_returns(P, G, D, path, name, idx, fn)
            bad = [(v, s) for v, s in bad if v in kr]
            if not bad:
                ctx.count('failure_value')
        if bad:
            ctx.violation('%s:%s' % (path, name), '%s:%s' % (path, fn.l), '%s returns normally (%s) for a name it does not know'
                          % (name, ', '.join(sorted({A.vtext(v) for v, s in bad}))))
        else:
            ctx.sample('%s: unknown name cannot return normally' % name)
    ctx.floor('dispatchers', 150)
    ctx.floor('names', 900)
