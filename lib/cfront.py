"""C front end: runs clang's type checker on the library sources of /repo and turns the
resulting (resolved, typed) AST into compact Python nodes.  Nothing is executed.

The unit of caching is one translation unit; the key is the content of the unit, of every
header in /repo, of the stub headers, the flags and this file, so a stale entry cannot be used.
"""
import os, sys, json, hashlib, pickle, subprocess, glob
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(VERIF, 'stubs')
CACHE = os.path.join(VERIF, '.cache')

# legacy wrappers that do not compile against acados' own headers on the pinned commit
# (wrong arity of their own helpers, missing ';' in their header): no program can contain them.
LEGACY = {'acados/dense_qp/dense_qp_ooqp.c', 'acados/dense_qp/dense_qp_qore.c',
          'acados/ocp_qp/ocp_qp_hpmpc.c', 'acados/ocp_qp/ocp_qp_ooqp.c'}

DEFS = ['-DACADOS_WITH_QPOASES', '-DACADOS_WITH_DAQP', '-DACADOS_WITH_OSQP',
        '-DACADOS_WITH_CLARABEL', '-DACADOS_WITH_QPDUNES', '-D_POSIX_C_SOURCE=200809L', '-D_DEFAULT_SOURCE']
INCS = ['-I.', '-Iinterfaces', '-I' + STUBS, '-I' + STUBS + '/blasfeo/include',
        '-I' + STUBS + '/hpipm/include', '-I' + STUBS + '/shim', '-I' + STUBS + '/daqp/include',
        '-I' + STUBS + '/osqp/include']
FLAGS = ['-std=c99', '-w', '-Wno-error=implicit-function-declaration', '-Wno-error=int-conversion',
         '-Wno-error=incompatible-function-pointer-types']
OMP = ['-DACADOS_WITH_OPENMP', '-fopenmp']
CLANG = None


def clang():
    global CLANG
    if CLANG is None:
        for c in ('clang-18', 'clang'):
            if subprocess.run(['which', c], capture_output=True).returncode == 0:
                CLANG = c
                break
        else:
            raise RuntimeError('clang not found')
    return CLANG


class N:
    """AST node. k kind, t type, n name, op opcode, v value, r referenced decl (kind,name,type,id),
    c children, l line, f file (relative to /repo or absolute), x extra dict or None, p parent"""
    __slots__ = ('k', 't', 'n', 'op', 'v', 'r', 'c', 'l', 'f', 'x', 'p', 'id')

    def __init__(self, k):
        self.k = k; self.t = None; self.n = None; self.op = None; self.v = None; self.r = None
        self.c = []; self.l = 0; self.f = None; self.x = None; self.p = None; self.id = None

    def __repr__(self):
        return '<%s %s %s:%s>' % (self.k, self.n or self.op or self.v or '', self.f, self.l)

    def walk(self):
        st = [self]
        while st:
            a = st.pop()
            yield a
            st.extend(reversed(a.c))

    def __getstate__(self):
        return (self.k, self.t, self.n, self.op, self.v, self.r, self.c, self.l, self.f, self.x, self.id)

    def __setstate__(self, s):
        self.k, self.t, self.n, self.op, self.v, self.r, self.c, self.l, self.f, self.x, self.id = s
        self.p = None
        for a in self.c:
            a.p = self


class TU:
    def __init__(self, path):
        self.path = path
        self.functions = {}    # name -> FunctionDecl node (definition in this unit)
        self.protos = {}       # name -> (type string, storage, param types list, file)
        self.records = {}      # record name ('struct x' or typedef-name for anonymous) -> [(field, type)]
        self.typedefs = {}     # name -> desugared type
        self.enums = {}        # enumerator -> int
        self.enum_types = {}   # enum name -> list of enumerators
        self.globals = []      # VarDecl nodes at file scope


def _norm_file(f):
    if f is None:
        return None
    f = os.path.normpath(f)
    if os.path.isabs(f):
        r = os.path.relpath(f, REPO)
        return f if r.startswith('..') else r
    return f


class _Conv:
    def __init__(self, main):
        self.file = None
        self.line = 0
        self.main = main

    def loc(self, d):
        """update running location; return (file,line) of the expansion location"""
        if not d:
            return None
        if 'spellingLoc' in d or 'expansionLoc' in d:
            r = None
            for k in ('spellingLoc', 'expansionLoc'):
                if k in d:
                    x = self.loc(d[k])
                    if k == 'expansionLoc':
                        r = x
            return r
        if 'file' in d:
            self.file = _norm_file(d['file'])
        if 'line' in d:
            self.line = d['line']
        if 'offset' not in d and 'col' not in d:
            return None
        return (self.file, self.line)

    DROP = {'ImplicitCastExpr', 'ParenExpr', 'ConstantExpr', 'FullExpr'}

    def conv(self, d):
        if not d or 'kind' not in d:
            return None
        k = d['kind']
        l = self.loc(d.get('loc')) if 'loc' in d else None
        b = None
        if 'range' in d:
            b = self.loc(d['range'].get('begin'))
            self.loc(d['range'].get('end'))
        if l is None:
            l = b
        if k in self.DROP:
            ch = None
            for c in d.get('inner', ()):
                x = self.conv(c)
                if x is not None:
                    ch = x
            return ch
        if k.endswith('Attr') or k.endswith('Comment'):
            for c in d.get('inner', ()):
                self.conv(c)
            return None
        n = N(k)
        if l:
            n.f, n.l = l
        t = d.get('type')
        if t:
            n.t = t.get('desugaredQualType') or t.get('qualType')
        n.n = d.get('name')
        n.op = d.get('opcode')
        v = d.get('value')
        if v is not None:
            n.v = v
        n.id = d.get('id') if k.endswith('Decl') or k == 'LabelStmt' else None
        rd = d.get('referencedDecl')
        if rd:
            rt = rd.get('type', {})
            n.r = (rd.get('kind'), rd.get('name'), rt.get('desugaredQualType') or rt.get('qualType'), rd.get('id'))
        x = {}
        for q in ('isArrow', 'isPostfix', 'storageClass', 'castKind', 'hasElse', 'computeLHSType',
                  'argType', 'tagUsed', 'init', 'labelId', 'targetLabelDeclId', 'hasInit', 'hasVar',
                  'completeDefinition', 'variadic', 'declId', 'name' if k == 'UnaryExprOrTypeTraitExpr' else '_'):
            if q in d:
                x[q] = d[q]
        if t and t.get('desugaredQualType'):
            x['sugar'] = t.get('qualType')
        if x:
            n.x = x
        for c in d.get('inner', ()):
            y = self.conv(c)
            if y is not None:
                n.c.append(y)
                y.p = n
            elif k in ('ForStmt',):
                y = N('Null'); y.p = n
                n.c.append(y)
        return n


def _parse_json(args, inc=None, root=None):
    path, omp = args

    def own(f):
        return f and (not os.path.isabs(f) or (root and f.startswith(root)))
    cmd = [clang(), '-fsyntax-only', '-ferror-limit=0'] + DEFS + (OMP if omp else []) + (inc or INCS) + FLAGS + ['-Xclang', '-ast-dump=json', path]
    p = subprocess.run(cmd, cwd=REPO, capture_output=True)
    err = p.stderr.decode(errors='replace')
    if p.returncode != 0:
        return path, None, err
    d = json.loads(p.stdout)
    tu = TU(path)
    cv = _Conv(path)
    last_record = None
    for c in d.get('inner', ()):
        k = c.get('kind')
        # only fully convert what we need, but the location state must be tracked
        n = cv.conv(c)
        if n is None:
            continue
        if k == 'FunctionDecl':
            ps = [a.t for a in n.c if a.k == 'ParmVarDecl']
            pn = [a.n for a in n.c if a.k == 'ParmVarDecl']
            has_body = any(a.k == 'CompoundStmt' for a in n.c)
            ty = c['type']['qualType']
            if not c.get('isImplicit'):
                old = tu.protos.get(n.n)
                inrepo = own(n.f)
                if old is None or (inrepo and os.path.isabs(old[3] or '/')) or (n.f or '').endswith('.h'):
                    tu.protos[n.n] = (ty, (n.x or {}).get('storageClass'), ps, n.f, pn)
            if has_body and own(n.f):
                tu.functions[n.n] = n
        elif k == 'RecordDecl':
            last_record = (c.get('id'), n)
            if c.get('completeDefinition'):
                fl = [(a.n, a.t, (a.x or {}).get('sugar') or a.t) for a in n.c if a.k == 'FieldDecl']
                if n.n:
                    tu.records[(c.get('tagUsed') or 'struct') + ' ' + n.n] = (fl, n.f)
                else:
                    tu._anon = (c.get('id'), fl, n.f)
        elif k == 'TypedefDecl':
            tu.typedefs[n.n] = n.t
            le = getattr(tu, '_last_enum', None)
            if le is not None and le[0] in json.dumps(c):
                tu.enum_types[n.n] = le[1]
            an = getattr(tu, '_anon', None)
            if an is not None:
                # anonymous struct typedef:  typedef struct {...} name;
                s = json.dumps(c)
                if an[0] and an[0] in s:
                    tu.records[n.n] = (an[1], an[2])
        elif k == 'EnumDecl':
            val = -1
            names = []
            for i, e in enumerate(c.get('inner', ())):
                if e.get('kind') != 'EnumConstantDecl':
                    continue
                ev = None
                for q in e.get('inner', ()):
                    if 'value' in q:
                        try:
                            ev = int(q['value'])
                        except ValueError:
                            pass
                val = ev if ev is not None else val + 1
                tu.enums[e['name']] = val
                names.append(e['name'])
            tu.enum_types[n.n or ''] = names
            if not n.n:
                tu._last_enum = (c.get('id'), names)
        elif k == 'VarDecl':
            an = getattr(tu, '_anon', None)
            if an is not None and 'unnamed' in (n.t or ''):
                tu.records[strip_type(n.t)] = (an[1], an[2])
            if own(n.f):
                tu.globals.append(n)
    for q in ('_anon', '_last_enum'):
        if hasattr(tu, q):
            delattr(tu, q)
    return path, tu, err


def _h(b):
    return hashlib.sha256(b).hexdigest()


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        m = hashlib.sha256()
        fs = sorted(glob.glob(REPO + '/acados/**/*.h', recursive=True) + glob.glob(REPO + '/interfaces/acados_c/*.h'))
        for f in fs:
            m.update(f.encode() + b'\0' + open(f, 'rb').read())
        for f in sorted(glob.glob(STUBS + '/**/*.h', recursive=True)):
            m.update(os.path.relpath(f, STUBS).encode() + b'\0' + open(f, 'rb').read())
        m.update(open(os.path.abspath(__file__), 'rb').read())
        m.update(' '.join(DEFS + FLAGS + OMP).encode())
        _hdr = m.hexdigest()
    return _hdr


def library_files():
    fs = []
    for base in ('acados', 'interfaces/acados_c'):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            for f in files:
                if f.endswith('.c'):
                    r = os.path.relpath(os.path.join(root, f), REPO)
                    if r not in LEGACY and '/test' not in r:
                        fs.append(r)
    return sorted(fs)


def _load_one(args):
    path, omp, key = args
    cf = os.path.join(CACHE, key + '.pkl')
    try:
        with open(cf, 'rb') as f:
            return path, pickle.load(f), None
    except Exception:
        pass
    path, tu, err = _parse_json((path, omp))
    if tu is not None:
        try:
            os.makedirs(CACHE, exist_ok=True)
            tmp = cf + '.%d' % os.getpid()
            with open(tmp, 'wb') as f:
                pickle.dump(tu, f, protocol=4)
            os.replace(tmp, cf)
        except OSError:
            pass
    return path, tu, err


sys.setrecursionlimit(20000)


class FrontEndError(Exception):
    pass


class Program:
    def __init__(self, tus, errors):
        self.tus = tus
        self.errors = errors      # path -> message
        self.functions = {}       # name -> list of (path, node)
        self.records = {}
        self.record_file = {}
        self.typedefs = {}
        self.enums = {}
        self.enum_types = {}
        self.protos = {}
        for p, tu in tus.items():
            for n, f in tu.functions.items():
                if f.f == p:
                    self.functions.setdefault(n, []).append((p, f))
                elif n not in self.functions:   # static inline in a header
                    self.functions.setdefault(n, []).append((f.f, f))
            for r, (fl, ff) in tu.records.items():
                self.records[r] = fl
                self.record_file[r] = ff
            self.typedefs.update(tu.typedefs)
            self.enums.update(tu.enums)
            self.enum_types.update(tu.enum_types)
            for k, v in tu.protos.items():
                o = self.protos.get(k)
                if o is None or (v[3] or '').endswith('.h'):
                    self.protos[k] = v

    def lookup(self, name, path=None):
        """definition of a function as seen from unit `path` (handles statics)"""
        cands = self.functions.get(name)
        if not cands:
            return None
        for p, f in cands:
            if p == path:
                return (p, f)
        ext = [(p, f) for p, f in cands if (f.x or {}).get('storageClass') != 'static' or p.endswith('.h')]
        if ext:
            return ext[0]
        return cands[0] if path is None else None

    def rec_of(self, t):
        """record name for a type string, stripping pointers/qualifiers"""
        t = strip_type(t)
        seen = 0
        while seen < 6:
            if t in self.records:
                return t
            if 'struct ' + t in self.records:
                return 'struct ' + t
            if t in self.typedefs and self.typedefs[t] != t:
                t = strip_type(self.typedefs[t])
                seen += 1
                continue
            break
        return t


def strip_type(t):
    t = (t or '').replace('const ', '').replace(' const', '').replace('volatile ', '').replace('restrict', '').replace('(unnamed struct at', '(unnamed at')
    while t.endswith('*') or t.endswith(']') or t.endswith(' '):
        if t.endswith(']'):
            t = t[:t.rindex('[')]
        else:
            t = t[:-1]
    return t.strip()


def load(files=None, omp=True, jobs=8):
    if files is None:
        files = library_files()
    hh = header_hash()
    work = []
    for f in files:
        try:
            src = open(os.path.join(REPO, f), 'rb').read()
        except OSError:
            continue
        work.append((f, omp, _h(hh.encode() + f.encode() + (b'1' if omp else b'0') + src)))
    missing = [w for w in work if not os.path.exists(os.path.join(CACHE, w[2] + '.pkl'))]
    tus, errors = {}, {}
    if len(missing) > 1:
        with ProcessPoolExecutor(max_workers=jobs) as ex:
            list(ex.map(_prime, missing))
    for w in work:
        path, tu, err = _load_one(w)
        if tu is None:
            errors[path] = err
        else:
            tus[path] = tu
    if errors:
        # a unit that does not type-check is not analysed: no verdict rather than a silent pass
        raise FrontEndError('; '.join('%s: %s' % (k, (v or '')[:300]) for k, v in sorted(errors.items())))
    return Program(tus, errors)


def _prime(w):
    _load_one(w)
    return None


# ---- expression helpers -------------------------------------------------------------------
def callee(n):
    """name of a directly called function, or None"""
    if n.k != 'CallExpr' or not n.c:
        return None
    f = n.c[0]
    while f.k in ('UnaryOperator', 'CStyleCastExpr') and f.c:
        f = f.c[0]
    if f.k == 'DeclRefExpr' and f.r and f.r[0] == 'FunctionDecl':
        return f.r[1]
    return None


def strip_casts(n):
    while n.k in ('CStyleCastExpr',) and n.c:
        n = n.c[-1]
    return n


def string_lit(n):
    n = strip_casts(n)
    while n.k == 'UnaryOperator' and n.c and n.c[0].k == 'StringLiteral':
        n = n.c[0]
    if n.k == 'StringLiteral':
        try:
            return json.loads(n.v)
        except Exception:
            return n.v.strip('"')
    return None


def body(fn):
    for c in fn.c:
        if c.k == 'CompoundStmt':
            return c
    return None


def params(fn):
    return [c for c in fn.c if c.k == 'ParmVarDecl']


if __name__ == '__main__':
    import time
    t = time.time()
    P = load()
    print(len(P.tus), 'units', sum(len(v) for v in P.functions.values()), 'functions', 'errors', {k: v[:300] for k, v in P.errors.items()}, round(time.time() - t, 1), 's')
