"""C02: no heap allocation/release reachable from operational entry points."""
import cfront as F, cgraph, re, os, tempfile

RULE = ('Whole-library call graph (direct calls plus calls through function-pointer slots resolved by record and field to every function '
        'ever installed in that slot). No operational entry point - any function installed in a module slot or declared in a library header, '
        'other than the creation/destruction/release API and three named diagnostics - may reach a heap primitive (malloc family, acados_malloc/'
        'acados_calloc, allocating blasfeo helpers).')

HEAP = {'malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign', 'memalign', 'valloc', 'strdup', 'strndup', 'asprintf', 'vasprintf',
        'getline', 'reallocarray',
        'blasfeo_allocate_dmat', 'blasfeo_allocate_dvec', 'blasfeo_free_dmat', 'blasfeo_free_dvec', 'blasfeo_malloc', 'blasfeo_malloc_align',
        'blasfeo_free', 'blasfeo_free_align', 'd_zeros', 'd_zeros_align', 'd_ones', 'd_eye', 'd_free', 'd_free_align', 'd_rand', 'int_zeros', 'int_free',
        'v_zeros', 'v_zeros_align', 'v_free', 'v_free_align', 'char_zeros', 'char_free'}
LIFECYCLE = re.compile(r'(_create|_destroy|_free)(_|$)|^acados_(malloc|calloc|free)$|^ocp_nlp_plan_')
# diagnostics confirmed by reading; none is called by a solver operation
DIAGNOSTICS = {
    'expm': 'numerical utility, not called by any solver', 'padeapprox': 'helper of expm',
    'dense_qp_inf_norm_residuals': 'stand-alone diagnostic, allocates and frees its own residual object',
    'ocp_qp_inf_norm_residuals': 'stand-alone diagnostic, allocates and frees its own residual object',
    'ocp_nlp_dump_last_qp_to_json': 'file dump on explicit request', 'print_csc_matrix': 'debug print',
}


def heap_closure(P, G):
    direct = {}
    for k, es in G.calls.items():
        for e in es:
            if e[0] == 'ext' and e[1] in HEAP:
                direct.setdefault(k, (e[1], e[2]))
    rev = {}
    for k, es in G.calls.items():
        for e in es:
            for t in G.targets(e):
                rev.setdefault(t, []).append((k, e[2]))
    nxt = {k: None for k in direct}
    work = sorted(direct)
    while work:
        new = []
        for a in work:
            for b, l in rev.get(a, ()):
                if b not in nxt:
                    nxt[b] = (a, l)
                    new.append(b)
        work = new
    return direct, nxt


def roots(P, G):
    r = {}
    for slot, fs in G.slots.items():
        if re.search(r'(calculate_size|assign|initialize_default)$', slot[1]):
            continue
        for f in fs:
            if f[0] != '<ext>':
                r.setdefault(f, 'slot %s.%s' % slot)
    for name, lst in P.functions.items():
        for path, fn in lst:
            pr = P.protos.get(name)
            if (fn.x or {}).get('storageClass') != 'static' and pr and (pr[3] or '').endswith('.h'):
                r.setdefault((path, name), 'declared in ' + pr[3])
    return {k: v for k, v in r.items() if not LIFECYCLE.search(k[1]) and k[1] not in DIAGNOSTICS}


def path_str(nxt, direct, k):
    s = []
    while k is not None:
        n = nxt.get(k)
        s.append(k[1])
        if n is None:
            s.append('%s (line %s of %s)' % (direct[k][0], direct[k][1], k[0]))
            break
        k = n[0]
    return ' -> '.join(s)


def run(ctx):
    for omp in (True, False):
        P = F.load(omp=omp)
        G = cgraph.CG(P)
        direct, nxt = heap_closure(P, G)
        R = roots(P, G)
        ctx.count('entry_points', len(R))
        ctx.count('functions', len(G.calls))
        ctx.count('call_edges', sum(len(v) for v in G.calls.values()))
        ctx.count('heap_sites', len(direct))
        for k in sorted(R):
            if k in nxt:
                # report the innermost operational function on the path
                ctx.violation('%s:%s' % k, '%s' % k[0], '%s (%s) reaches the heap: %s' % (k[1], R[k], path_str(nxt, direct, k)))
        if not omp:
            continue
        for k in sorted(R)[:6]:
            ctx.sample('%s (%s): no path to a heap primitive' % (k[1], R[k]))
    ctx.floor('entry_points', 1000)
    ctx.floor('heap_sites', 60)     # the creation API itself must be seen allocating
