"""C11: iterations of the parallel stage loops do not write what another iteration uses."""
import os
import cfront as F, cgraph, gen, wsum, stagepar as SP
from moves import ptext
from report import AnalysisBroken

RULE = ('Every OpenMP work-sharing loop of the library (AST with OpenMP enabled). All stores of one iteration are collected - direct stores, arguments that a callee (direct, '
        'through a module slot, or a BLASFEO routine) may write through according to interprocedural summaries, helpers inlined - as (object, index) with the loop counter symbolic. '
        'No iteration may store to an object that is not private to it: an object of the enclosing function without a private or reduction clause, a member without the loop counter in '
        'its index, or an element another iteration also uses (same array at different counter offsets). Pointers that are stored into module memory in such a loop must follow the same '
        'rule if a function reachable from a parallel loop writes through that field, and the stage workspaces laid out for parallel use must advance per stage.')


def loops(P):
    for name, l in sorted(P.functions.items()):
        for path, fn in l:
            if path.endswith('.h'):
                continue
            yield from fn_loops(path, name, fn)


def fn_loops(path, name, fn):
    for d in fn.walk():
        if d.k.startswith('OMP') and 'For' in d.k and d.k.endswith('Directive'):
            lp = next((x for x in d.walk() if x.k == 'ForStmt'), None)
            reg = None
            p = d.p
            while p is not None:
                if p.k == 'OMPParallelDirective':
                    reg = p
                p = p.p
            if lp is not None:
                yield path, name, fn, d, lp, reg


def analyse(P, S, path, name, fn, d, lp, reg):
    priv = SP.private_vars(SP.pragma(d.f or path, d.l))
    rl = set()
    if reg is not None:
        priv |= SP.private_vars(SP.pragma(reg.f or path, reg.l))
        rl = {x.id for x in reg.walk() if x.k == 'VarDecl'}
    L = SP.Loop(P, S, path, name, rl, lp, priv)
    L.prepare(fn)
    L.walk(lp.c[-1], L.env)
    return L


def reachable(P, G, S, Ls):
    work = []
    for L in Ls:
        for c, path in L.calls:
            ts, _ = S.targets(c, path)
            work += ts
    seen = set()
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        for e in G.calls.get(k, ()):
            work += [t for t in G.targets(e) if t not in seen]
    return seen


def judge(ctx, L, name, path, line):
    ws = [a for a in L.acc if a.mode == 'w']
    for a in ws:
        ctx.count('stores')
        if a.off is None and not a.single:
            ctx.violation('%s:%s:%s' % (path, name, a.root), '%s:%s' % (a.path, a.line), 'every iteration of the parallel loop at line %s of %s stores to %s, which all threads share' % (line, name, a.text))
            continue
        for b in L.acc:
            if b is a:
                if a.off is not None and SP.conflict(a, a) is None:
                    ctx.skip('%s:%s store to %s at an index that is not linear in the loop counter' % (a.path, a.line, a.text))
                continue
            c = SP.conflict(a, b)
            if c:
                ctx.violation('%s:%s:%s' % (path, name, a.root), '%s:%s' % (a.path, a.line), 'the parallel loop at line %s of %s stores to %s[%s] while another iteration uses %s (line %s)'
                              % (line, name, a.root, ptext(a.off).replace(SP.I, 'i') if a.off is not None else '', b.text.replace(SP.I, 'i'), b.line))
            elif c is None and b.mode != 'a':
                ctx.skip('%s:%s %s against %s' % (a.path, a.line, a.text, b.text))


def region(ctx, path, name, reg, S):
    """statements all threads of a parallel region execute: only idempotent assignments"""
    rl = {x.id for x in reg.walk() if x.k == 'VarDecl'}
    skip = set()
    for x in reg.walk():
        if x.k.startswith('OMP') and x is not reg:
            skip |= {id(y) for y in x.walk()}
    for a in reg.walk():
        if id(a) in skip:
            continue
        if a.k == 'CompoundAssignOperator' or (a.k == 'UnaryOperator' and a.op in ('++', '--')):
            l = F.strip_casts(a.c[0])
            if not (l.k == 'DeclRefExpr' and l.r[3] in rl):
                ctx.violation('%s:%s:region:%s' % (path, name, a.l), '%s:%s' % (path, a.l), 'every thread of the parallel region in %s performs this update of shared data' % name)


def run(ctx):
    P = F.load(omp=True)
    G = cgraph.CG(P)
    S = wsum.WSum(P, G)
    Ls, regs = [], set()
    for path, name, fn, d, lp, reg in loops(P):
        ctx.count('parallel_loops')
        try:
            L = analyse(P, S, path, name, fn, d, lp, reg)
        except SP.Give as x:
            ctx.skip('%s:%s %s' % (path, d.l, x))
            continue
        Ls.append(L)
        judge(ctx, L, name, path, d.l)
        if reg is not None and id(reg) not in regs:
            regs.add(id(reg))
            region(ctx, path, name, reg, S)
    ctx.floor('parallel_loops', 20)
    generated(ctx, P, S)
    # pointers stored in module memory
    R = reachable(P, G, S, Ls)
    ctx.counts['functions_in_parallel_loops'] = len(R)
    through = set()
    for k in R:
        through |= S.T[k]
    al = {}
    for L in Ls:
        for (root, off), fs, line, path, text in L.stored:
            ctx.count('stored_pointers')
            al.setdefault(root, []).append((off, fs & through, line, path, text, L.name))
    for root, l in sorted(al.items()):
        wr = [x for x in l if x[1]]
        if not wr:
            continue
        ctx.count('written_aliases')
        for off, fs, line, path, text, name in wr:
            if off is None:
                ctx.violation('%s:%s:alias:%s' % (path, name, root), '%s:%s' % (path, line), 'all stages get a pointer to the same %s, and functions run in parallel over the stages write through it (%s)' % (text, ', '.join('%s.%s' % f for f in sorted(fs))))
                continue
            for o2, f2, l2, p2, t2, n2 in l:
                if o2 is not None and o2 != off:
                    ctx.violation('%s:%s:alias:%s' % (path, name, root), '%s:%s' % (path, line), 'stage modules write through a pointer to %s while the modules of another stage hold a pointer to the same element (%s, line %s)'
                                  % (text.replace(SP.I, 'i'), t2.replace(SP.I, 'i'), l2))
    workspace(ctx, P, S, Ls)
    ctx.floor('stage_pieces', 6)


def generated(ctx, P, S):
    """batch functions of generated solvers: every thread works on its own problem instances"""
    memo, lines = set(), {}
    for g in gen.load():
        own = lambda f: (f or '').startswith(g['root']) or f in g['maps']
        for o, u in g['units'].items():
            if u.tu is None:
                continue
            for name, fn in u.tu.functions.items():
                for path, _, _, d, lp, reg in fn_loops(fn.f or u.rel, name, fn):
                    ctx.count('generated_parallel_loops')
                    if not own(path):
                        continue
                    f = path if os.path.isabs(path) else os.path.join(g['root'], path)
                    if f not in lines:
                        lines[f] = open(f, errors='replace').read().split('\n')
                    k = (name, tuple(lines[f][fn.l - 1:max(x.l for x in lp.walk() if x.f in (None, path))]))
                    if k in memo:
                        continue
                    memo.add(k)
                    tw, tl = gen.where(g, path, d.l).rsplit(':', 1)
                    try:
                        L = analyse(P, S, path, name, fn, d, lp, reg)
                    except SP.Give as x:
                        ctx.skip('%s:%s %s' % (tw, tl, x))
                        continue
                    for a in L.acc:
                        if own(a.path):
                            a.path, a.line = gen.where(g, a.path, a.line).rsplit(':', 1)
                    judge(ctx, L, name.replace('ocp_x', '<name>').replace('sim_x', '<name>'), tw, tl)
    ctx.counts['distinct_generated_parallel_loops'] = len(memo)
    ctx.floor('generated_parallel_loops', 100)


def workspace(ctx, P, S, Ls):
    """module memory and workspaces of different stages lie at different addresses: where a loop hands them out, the block pointer advances in every iteration"""
    fields = set()
    for L in Ls:
        for c, path in L.calls:
            for a in c.c[1:]:
                a = F.strip_casts(a)
                if a.k == 'ArraySubscriptExpr' and F.strip_casts(a.c[0]).k == 'MemberExpr':
                    m = F.strip_casts(a.c[0])
                    fields.add((P.rec_of(m.c[0].t), m.n))
    for name, l in sorted(P.functions.items()):
        for path, fn in l:
            if path.endswith('.h'):
                continue
            for lp in fn.walk():
                if lp.k != 'ForStmt':
                    continue
                body = lp.c[-1]
                for a in body.walk():
                    ps = []
                    if a.k == 'BinaryOperator' and a.op == '=':
                        d = F.strip_casts(a.c[0])
                        if d.k != 'ArraySubscriptExpr' or F.strip_casts(d.c[0]).k != 'MemberExpr':
                            continue
                        m = F.strip_casts(d.c[0])
                        if (P.rec_of(m.c[0].t), m.n) not in fields:
                            continue
                        r = F.strip_casts(a.c[1])
                        ps = [r] if r.k == 'DeclRefExpr' else [F.strip_casts(x) for x in r.c[1:]] if r.k == 'CallExpr' else []
                        what = m.n
                    elif a.k == 'CallExpr' and F.strip_casts(a.c[0]).k == 'MemberExpr' and F.strip_casts(a.c[0]).n == 'set_external_fun_workspaces':
                        ps = [F.strip_casts(x) for x in a.c[1:]]
                        what = 'external function workspaces'
                    for p in ps:
                        if p.k != 'DeclRefExpr' or (p.t or '').replace(' ', '') not in ('char*', 'void*', 'unsignedchar*') or not p.r or p.r[0] != 'VarDecl':
                            continue
                        q, inner = a.p, lp
                        while q is not None and q is not lp:
                            if q.k in ('ForStmt', 'WhileStmt'):
                                inner = None
                            q = q.p
                        if inner is None:
                            continue
                        ctx.count('stage_pieces')
                        if not advances(body, p.r[3], a):
                            ctx.violation('%s:%s:piece:%s' % (path, name, what), '%s:%s' % (path, a.l), 'the %s of all stages handed out by this loop in %s share one address (%s does not advance in every iteration), but the stages are processed in parallel' % (what, name, p.r[1]))


def advances(body, vid, a):
    anc = set()
    q = a
    while q is not None:
        anc.add(id(q))
        q = q.p
    for x in body.walk():
        hit = False
        if x.k == 'CompoundAssignOperator' or (x.k == 'BinaryOperator' and x.op == '=') or (x.k == 'UnaryOperator' and x.op in ('++', '--')):
            l = F.strip_casts(x.c[0])
            hit = l.k == 'DeclRefExpr' and l.r and l.r[3] == vid
        elif x.k == 'UnaryOperator' and x.op == '&':
            l = F.strip_casts(x.c[0])
            hit = l.k == 'DeclRefExpr' and l.r and l.r[3] == vid and x.p is not None and x.p.k in ('CallExpr', 'CStyleCastExpr')
        elif x.k == 'VarDecl' and x.id == vid:
            hit = True
        if hit:
            q = x.p
            while q is not None and q.k not in ('CompoundStmt', 'IfStmt', 'ForStmt', 'WhileStmt'):
                q = q.p
            if q is body or id(q) in anc or q is None:
                if q is not None and q.k == 'IfStmt' and q is not body:
                    continue
                return True
    return False
