"""C12: after a library call returns, the number of OpenMP threads of the calling thread is what it was before the call."""
import os
import cfront as F, cgraph, absint, gen
from report import AnalysisBroken

RULE = ('Typestate over every path of every externally callable function that (transitively) changes the OpenMP thread setting: '
        'state = {caller\'s setting, changed}; omp_get_max_threads() yields the caller\'s setting while it is in force, omp_get_num_threads() '
        'outside a parallel region yields the current team size (1), which is not the setting; omp_set_num_threads(v) restores iff v is the '
        'saved setting. Helpers that change the setting are followed with their arguments; branches on the same unchanged condition are correlated. '
        'Every return must be reached in the state "caller\'s setting".')
GET, SET = 'omp_get_max_threads', 'omp_set_num_threads'
SAVED = ('t', "caller's thread setting")


class Cl(absint.Client):
    inline_depth = 6
    max_states = 48

    def __init__(self, inl):
        self.inl = inl
        self.sites = {}

    def inline(self, path, name, e):
        return (path, name) in self.inl

    def on_call(self, e, name, slot, args, node, st):
        if name == GET:
            return [(SAVED if st.ts == () else ('t', 'changed thread setting'), st)]
        if name == 'omp_get_num_threads':
            return [(('i', 1), st)]
        if name == SET:
            v = args[0] if args else ('t', '?')
            st.ts = () if v == SAVED else ('changed', e.cur().path, e.cur().name, node.l, absint.vtext(v))
            return [(('t', 'void'), st)]
        return None


def users(P, G):
    """functions that may reach omp_set_num_threads by direct calls"""
    need = {k for k, ed in G.calls.items() if any(x[0] == 'ext' and x[1] == SET for x in ed)}
    direct = set(need)
    while True:
        more = {k for k, ed in G.calls.items() if k not in need and any(x[0] == 'direct' and x[1] in need for x in ed)}
        if not more:
            return direct, need
        need |= more


def check(ctx, P, G, only=None, where=lambda p, l: '%s:%s' % (p, l), rel=lambda p: p):
    direct, need = users(P, G)
    slot_targets = {t for ts in G.slots.values() for t in ts}
    for path, name in sorted(need):
        if only and not only(path):
            continue
        fn = dict(P.functions[name])[path]
        static = (fn.x or {}).get('storageClass') == 'static'
        called = any(x[0] == 'direct' and x[1] == (path, name) for ed in G.calls.values() for x in ed)
        if static and called and (path, name) not in slot_targets:
            continue            # a helper: judged inside its callers
        cl = Cl(need)
        e = absint.Engine(P, cl, G)
        ctx.count('functions')
        try:
            outs = e.run(path, name)
        except absint.Unsupported as x:
            ctx.skip('%s:%s %s' % (rel(path), name, x))
            continue
        ctx.count('returns', len(outs))
        bad = sorted({s.ts for v, s in outs if s.ts != ()})
        ctx.sample('%s:%s: %d outcome states, all restored=%s' % (rel(path), name, len(outs), not bad))
        for b in bad:
            _, p, f, l, val = b
            ctx.violation('%s:%s:%s' % (rel(path), name, f), where(p, l),
                          '%s can return while the OpenMP thread count is the one set in %s (value %s) instead of the caller\'s setting'
                          % (name, f, val[:60]))
    ctx.count('sites', sum(1 for k in direct for x in G.calls[k] if x[0] == 'ext' and x[1] == SET and (not only or only(k[0]))))


def run(ctx):
    P = F.load(omp=True)
    G = cgraph.CG(P)
    check(ctx, P, G)
    if ctx.counts.get('functions', 0) < 1 or ctx.counts.get('sites', 0) < 2:
        raise AnalysisBroken('C12: no user of omp_set_num_threads found')
    lib = dict(ctx.counts)
    n = 0
    for g in gen.load():
        for o, u in g['units'].items():
            if u.tu is None or SET not in u.tu.protos or u.rel.split('/')[-1].startswith('main'):
                continue
            Q = F.Program({os.path.join(g['root'], o): u.tu}, {})
            check(ctx, Q, cgraph.CG(Q), None, lambda p, l: gen.where(g, p, l), lambda p: u.rel)
            n += 1
    ctx.counts = {**{'library_' + k: v for k, v in lib.items()}, **{'generated_' + k: v - lib.get(k, 0) for k, v in ctx.counts.items()}, 'generated_units': n}
    if n < 20 or ctx.counts['generated_functions'] < 100:
        raise AnalysisBroken('C12: only %d generated units with thread settings' % n)
