"""Calls and declarations in the C templates of the code generator."""
import os, glob, re
import cfront as F, tera, fields

BASE = 'interfaces/acados_template/acados_template'
_sk = {}


def files(ext='c'):
    r = []
    for d in ('c_templates_tera', 'c_templates_tera/matlab_templates', 'custom_update_templates'):
        r += glob.glob(os.path.join(F.REPO, BASE, d, '*.in.' + ext))
    return sorted(os.path.relpath(x, F.REPO) for x in r)


def skeleton(rel):
    if rel not in _sk:
        _sk[rel] = tera.Skeleton(tera.load(os.path.join(F.REPO, rel)))
    return _sk[rel]


class Call:
    __slots__ = ('name', 'args', 'line', 'i', 'fn', 'ctx')

    def __init__(self, name, args, line, i, fn, ctx):
        self.name, self.args, self.line, self.i, self.fn, self.ctx = name, args, line, i, fn, ctx


def split_args(t, i, end):
    """argument token lists of the call whose '(' is at i; returns (args, index of ')')"""
    args, cur, d = [], [], 0
    while i < end:
        s = t[i].s if t[i].k == 'op' else None
        if s in ('(', '[', '{'):
            d += 1
            if d > 1:
                cur.append(t[i])
        elif s in (')', ']', '}'):
            d -= 1
            if d == 0:
                if cur or args:
                    args.append(cur)
                return args, i
            cur.append(t[i])
        elif s == ',' and d == 1:
            args.append(cur); cur = []
        else:
            cur.append(t[i])
        i += 1
    return None, i


KEY = {'if', 'for', 'while', 'switch', 'return', 'sizeof', 'else', 'do'}


def calls(sk):
    t = sk.toks
    for fn in sk.functions():
        name, p0, a, b = fn
        i = a
        while i < b:
            if t[i].k == 'id' and i + 1 < b and t[i + 1].s == '(' and t[i].s not in KEY:
                args, e = split_args(t, i + 1, b)
                if args is not None:
                    yield Call(t[i].s, args, t[i].l, i, fn, t[i].c)
            i += 1


def literal(arg):
    if len(arg) == 1 and arg[0].k == 'str' and '\x00' not in arg[0].s:
        return arg[0].s[1:-1]
    return None


QUAL = {'const', 'static', 'unsigned', 'struct', 'volatile'}


def decls(sk, fn):
    """declarations in a function: list of (name, base type, pointer depth, is array, token index, scope end)"""
    key = ('decls', fn[2])
    if not hasattr(sk, '_d') if False else False:
        pass
    t = sk.toks
    name, p0, a, b = fn
    out = []
    # parameters
    args, e = split_args(t, p0, a)
    for ar in args or []:
        ids = [x.s for x in ar if x.k == 'id' and x.s not in QUAL]
        if len(ids) >= 2:
            out.append((ids[-1], ids[0], sum(1 for x in ar if x.s == '*'), any(x.s == '[' for x in ar), p0, b))
    # brace scopes
    stack = [b]
    close = {}
    st = []
    for i in range(a, b + 1):
        if t[i].k == 'op' and t[i].s == '{':
            st.append(i)
        elif t[i].k == 'op' and t[i].s == '}' and st:
            close[st.pop()] = i
    scope = []
    i = a
    start = True
    while i < b:
        x = t[i]
        if x.k == 'op' and x.s == '{':
            scope.append(close.get(i, b)); start = True; i += 1; continue
        if x.k == 'op' and x.s == '}':
            if scope:
                scope.pop()
            start = True; i += 1; continue
        if x.k == 'op' and x.s in (';', '(') or x.k == 'pp' or x.k == 'op' and x.s == ')':
            start = True; i += 1; continue
        ctxchange = i > a and t[i - 1].c != x.c
        if (start or ctxchange) and x.k == 'id' and x.s not in KEY:
            j = i
            while j < b and t[j].k == 'id' and t[j].s in QUAL:
                j += 1
            if j < b and t[j].k == 'id' and t[j].s not in KEY or (j > i and t[j].k == 'op'):
                base = t[j].s if t[j].k == 'id' else 'int'
                j += 1 if t[j].k == 'id' else 0
                first = True
                while j < b:
                    d = 0
                    while j < b and (t[j].s == '*' or t[j].s in QUAL):
                        d += t[j].s == '*'
                        j += 1
                    if j + 1 < b and t[j].k == 'id' and t[j].s not in KEY and t[j + 1].s in ('=', ';', ',', '['):
                        arr = t[j + 1].s == '['
                        if first and j == i:
                            break
                        out.append((t[j].s, base, d, arr, j, scope[-1] if scope else b))
                        # skip to , or ;
                        dd = 0
                        j += 1
                        while j < b and not (dd == 0 and t[j].s in (',', ';')):
                            if t[j].s in '([{':
                                dd += 1
                            elif t[j].s in ')]}':
                                dd -= 1
                            j += 1
                        first = False
                        if j < b and t[j].s == ',':
                            j += 1
                            continue
                    break
        start = False
        i += 1
    return out


def declared(sk, fn, name, at):
    cache = sk.__dict__.setdefault('_decls', {})
    if fn[2] not in cache:
        cache[fn[2]] = decls(sk, fn)
    best = None
    for d in cache[fn[2]]:
        if d[0] == name and d[4] < at <= d[5]:
            best = d
    return best


def strip(arg):
    """drop enclosing parentheses and leading casts"""
    while True:
        if len(arg) > 2 and arg[0].s == '(' and arg[-1].s == ')':
            d = 0
            for i, x in enumerate(arg):
                d += x.s == '('
                d -= x.s == ')'
                if d == 0 and i < len(arg) - 1:
                    break
            else:
                arg = arg[1:-1]
                continue
        if len(arg) > 3 and arg[0].s == '(':
            j = 1
            while j < len(arg) and (arg[j].k == 'id' or arg[j].s == '*'):
                j += 1
            if j < len(arg) - 1 and arg[j].s == ')' and arg[j - 1].s == '*':
                arg = arg[j + 1:]
                continue
        return arg


def ptr_kind(P, sk, call, arg):
    """kind of the object the argument points to, or None"""
    arg = strip(arg)
    if not arg:
        return None
    amp = False
    if arg[0].s == '&':
        amp = True
        arg = strip(arg[1:])
    if not arg:
        return None
    if arg[0].k == 'str':
        return 'char'
    if arg[0].k != 'id' or arg[0].s == 'NULL':
        return None
    d = declared(sk, call.fn, arg[0].s, call.i)
    if d is None:
        return None
    rest = arg[1:]
    depth = d[2] + (1 if d[3] else 0)
    if rest and rest[0].s in ('->', '.', '('):
        return None
    if rest and rest[0].s == '[':
        depth -= 1
    if amp:
        depth += 1
    if depth <= 0:
        return None
    base = d[1]
    if base == 'void':
        return None
    return fields.canon(P, base + ' ' + '*' * (depth - 1))
