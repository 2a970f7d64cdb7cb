"""Parser for the Tera templates of the code generator (no rendering: the syntax tree is analysed).

Nodes:  ('text', s, line) ('out', expr, line) ('if', [(cond|None, body)], line) ('for', key, var, iter, body, else, line)
        ('set', name, expr, global, line) ('macro', name, params, body, line) ('include', name, line) ('import',...)
Expr:   ('num',v) ('str',s) ('bool',b) ('var',name) ('attr',e,name) ('idx',e,e) ('call',name,[(k,e)]) ('filter',e,name,[(k,e)])
        ('test',e,name,neg,[args]) ('bin',op,a,b) ('not',e) ('neg',e) ('array',[..])
"""
import re, os

TAG = re.compile(r'\{\{-?|\{%-?|\{#')


class TeraError(Exception):
    pass


def lex(src):
    pos, line = 0, 1
    out = []
    trim = False
    raw = False
    while pos < len(src):
        m = TAG.search(src, pos) if not raw else re.compile(r'\{%-?\s*endraw\s*-?%\}').search(src, pos)
        end = m.start() if m else len(src)
        t = src[pos:end]
        if m and m.group(0).endswith('-') and not raw:
            t2 = t.rstrip()
        else:
            t2 = t
        l0 = line
        if trim:
            k = len(t2) - len(t2.lstrip())
            l0 += t2[:k].count('\n')
            t2 = t2.lstrip()
        if t2:
            out.append(('text', t2, l0))
        line += t.count('\n')
        if not m:
            break
        pos = end
        if raw:
            raw = False
            line += m.group(0).count('\n'); pos = m.end(); trim = False
            continue
        o = m.group(0)
        close = {'{{': '}}', '{%': '%}', '{#': '#}'}[o[:2]]
        # find the close outside strings
        i = m.end()
        q = None
        while i < len(src):
            c = src[i]
            if q:
                if c == q:
                    q = None
            elif o[:2] != '{#' and c in '"\'`':
                q = c
            elif src.startswith(close, i):
                break
            i += 1
        if i >= len(src):
            raise TeraError('unterminated tag at line %d' % line)
        body = src[m.end():i]
        trim = body.endswith('-') and o[:2] != '{#'
        if trim:
            body = body[:-1]
        if o[:2] == '{{':
            out.append(('out', body.strip(), line))
        elif o[:2] == '{%':
            if body.strip() == 'raw':
                raw = True
            else:
                out.append(('tag', body.strip(), line))
        line += src[end:i + 2].count('\n')
        pos = i + 2
    return out


TOK = re.compile(r'\s+|(?P<num>\d+\.\d+|\d+)|(?P<str>"[^"]*"|\'[^\']*\'|`[^`]*`)|(?P<id>[A-Za-z_]\w*(?:::\w+)?)|(?P<op>==|!=|>=|<=|[-+*/%<>~|.,()\[\]=:])')


def toks(s):
    i = 0
    out = []
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise TeraError('bad expression %r' % s)
        i = m.end()
        for k in ('num', 'str', 'id', 'op'):
            if m.group(k) is not None:
                out.append((k, m.group(k)))
    return out


class EP:
    def __init__(self, s):
        self.t = toks(s); self.i = 0; self.s = s

    def pk(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def eat(self, v=None):
        x = self.pk()
        if v is not None and x[1] != v:
            raise TeraError('expected %r in %r' % (v, self.s))
        self.i += 1
        return x

    def at(self, v):
        return self.pk()[1] == v and self.pk()[0] != 'str'

    def p_or(self):
        a = self.p_and()
        while self.at('or'):
            self.eat(); a = ('bin', 'or', a, self.p_and())
        return a

    def p_and(self):
        a = self.p_not()
        while self.at('and'):
            self.eat(); a = ('bin', 'and', a, self.p_not())
        return a

    def p_not(self):
        if self.at('not'):
            self.eat()
            return ('not', self.p_not())
        return self.p_cmp()

    def p_cmp(self):
        a = self.p_add()
        while True:
            if self.pk()[0] == 'op' and self.pk()[1] in ('==', '!=', '>=', '<=', '<', '>'):
                o = self.eat()[1]
                a = ('bin', o, a, self.p_add())
            elif self.at('in'):
                self.eat()
                a = ('bin', 'in', a, self.p_add())
            elif self.at('not') and self.pk(1)[1] == 'in':
                self.eat(); self.eat()
                a = ('not', ('bin', 'in', a, self.p_add()))
            elif self.at('is'):
                self.eat()
                neg = False
                if self.at('not'):
                    self.eat(); neg = True
                n = self.eat()[1]
                args = []
                if self.at('('):
                    args = self.args()
                a = ('test', a, n, neg, args)
            else:
                return a

    def p_add(self):
        a = self.p_mul()
        while self.pk()[0] == 'op' and self.pk()[1] in '+-~':
            o = self.eat()[1]
            a = ('bin', o, a, self.p_mul())
        return a

    def p_mul(self):
        a = self.p_un()
        while self.pk()[0] == 'op' and self.pk()[1] in ('*', '/', '%'):
            o = self.eat()[1]
            a = ('bin', o, a, self.p_un())
        return a

    def p_un(self):
        if self.at('-'):
            self.eat()
            return ('neg', self.p_un())
        return self.p_filter(self.p_post())

    def p_filter(self, a):
        while self.at('|'):
            self.eat()
            n = self.eat()[1]
            args = self.args() if self.at('(') else []
            a = ('filter', a, n, args)
        return a

    def args(self):
        self.eat('(')
        r = []
        while not self.at(')'):
            if self.pk()[0] == 'id' and self.pk(1)[1] == '=':
                k = self.eat()[1]; self.eat('=')
                r.append((k, self.p_or()))
            else:
                r.append((None, self.p_or()))
            if self.at(','):
                self.eat()
        self.eat(')')
        return r

    def p_post(self):
        k, v = self.eat()
        if k == 'num':
            a = ('num', float(v) if '.' in v else int(v))
        elif k == 'str':
            a = ('str', v[1:-1])
        elif k == 'id' and v in ('true', 'false', 'True', 'False'):
            a = ('bool', v.lower() == 'true')
        elif k == 'id':
            a = ('call', v, self.args()) if self.at('(') else ('var', v)
        elif v == '(':
            a = self.p_or(); self.eat(')')
        elif v == '[':
            r = []
            while not self.at(']'):
                r.append(self.p_or())
                if self.at(','):
                    self.eat()
            self.eat(']')
            a = ('array', r)
        else:
            raise TeraError('bad expression %r' % self.s)
        while True:
            if self.at('.'):
                self.eat()
                n = self.eat()
                a = ('attr', a, n[1])
            elif self.at('['):
                self.eat()
                i = self.p_or()
                self.eat(']')
                a = ('attr', a, i[1]) if i[0] == 'str' else ('idx', a, i)
            else:
                return a


def expr(s):
    p = EP(s)
    e = p.p_or()
    if p.i != len(p.t):
        raise TeraError('trailing tokens in %r' % s)
    return e


class Parser:
    def __init__(self, src):
        self.t = lex(src); self.i = 0

    def block(self, ends):
        out = []
        while self.i < len(self.t):
            k, v, l = self.t[self.i]
            if k == 'text':
                out.append(('text', v, l)); self.i += 1; continue
            if k == 'out':
                out.append(('out', expr(v), l)); self.i += 1; continue
            w = v.split(None, 1)
            h, rest = w[0], (w[1] if len(w) > 1 else '')
            if h in ends:
                return out, h, rest
            self.i += 1
            if h == 'if':
                br = []
                cond = expr(rest)
                while True:
                    b, e, r = self.block(('elif', 'else', 'endif'))
                    self.i += 1
                    br.append((cond, b))
                    if e == 'elif':
                        cond = expr(r)
                    elif e == 'else':
                        b, e, r = self.block(('endif',))
                        self.i += 1
                        br.append((None, b))
                        break
                    else:
                        break
                out.append(('if', br, l))
            elif h == 'for':
                m = re.match(r'(\w+)(?:\s*,\s*(\w+))?\s+in\s+(.*)$', rest, re.S)
                key, var = (m.group(1), m.group(2)) if m.group(2) else (None, m.group(1))
                b, e, r = self.block(('endfor', 'else'))
                self.i += 1
                eb = []
                if e == 'else':
                    eb, e, r = self.block(('endfor',))
                    self.i += 1
                out.append(('for', key, var, expr(m.group(3)), b, eb, l))
            elif h in ('set', 'set_global'):
                m = re.match(r'(\w+)\s*=\s*(.*)$', rest, re.S)
                out.append(('set', m.group(1), expr(m.group(2)), h == 'set_global', l))
            elif h == 'macro':
                m = re.match(r'(\w+)\s*\((.*)\)\s*$', rest, re.S)
                b, e, r = self.block(('endmacro',))
                self.i += 1
                out.append(('macro', m.group(1), [x.split('=')[0].split(':')[0].strip() for x in m.group(2).split(',') if x.strip()], b, l))
            elif h in ('include', 'import', 'extends'):
                out.append((h, rest, l))
            elif h in ('break', 'continue'):
                out.append((h, l))
            elif h in ('block', 'filter'):
                b, e, r = self.block(('end' + h,))
                self.i += 1
                out.append((h, rest, b, l))
            else:
                raise TeraError('unknown tag %r at line %d' % (v, l))
        if ends:
            raise TeraError('missing %s' % (ends,))
        return out, None, ''


def parse(src):
    return Parser(src).block(())[0]


def load(path):
    return parse(open(path, encoding='utf-8').read())


def etext(e):
    k = e[0]
    if k in ('num', 'bool'):
        return str(e[1])
    if k == 'str':
        return '"%s"' % e[1]
    if k == 'var':
        return e[1]
    if k == 'attr':
        return etext(e[1]) + '.' + e[2]
    if k == 'idx':
        return '%s[%s]' % (etext(e[1]), etext(e[2]))
    if k == 'call':
        return '%s(%s)' % (e[1], ','.join((a + '=' if a else '') + etext(v) for a, v in e[2]))
    if k == 'filter':
        return '%s|%s%s' % (etext(e[1]), e[2], '(%s)' % ','.join((a + '=' if a else '') + etext(v) for a, v in e[3]) if e[3] else '')
    if k == 'test':
        return '(%s is %s%s)' % (etext(e[1]), 'not ' if e[3] else '', e[2])
    if k == 'bin':
        return '(%s %s %s)' % (etext(e[2]), e[1], etext(e[3]))
    if k == 'not':
        return '!(%s)' % etext(e[1])
    if k == 'neg':
        return '-' + etext(e[1])
    if k == 'array':
        return '[%s]' % ','.join(map(etext, e[1]))
    return repr(e)


def subexprs(e):
    yield e
    k = e[0]
    if k == 'attr':
        yield from subexprs(e[1])
    elif k == 'idx':
        yield from subexprs(e[1]); yield from subexprs(e[2])
    elif k == 'call':
        for _, v in e[2]:
            yield from subexprs(v)
    elif k == 'filter':
        yield from subexprs(e[1])
        for _, v in e[3]:
            yield from subexprs(v)
    elif k == 'test':
        yield from subexprs(e[1])
        for _, v in e[4]:
            yield from subexprs(v)
    elif k == 'bin':
        yield from subexprs(e[2]); yield from subexprs(e[3])
    elif k in ('not', 'neg'):
        yield from subexprs(e[1])
    elif k == 'array':
        for x in e[1]:
            yield from subexprs(x)


# ---- C skeleton of a template: text with placeholders, and the Tera conditions governing every token --------------------
CTOK = re.compile(r'(?P<ws>\s+)|(?P<com>//[^\n]*|/\*.*?\*/)|(?P<pp>(?<![^\n])[ \t]*\#(?:[^\n\\]|\\.|\\\n)*)|(?P<str>"(?:[^"\\\n]|\\.)*")|(?P<chr>\'(?:[^\'\\\n]|\\.)*\')'
                  r'|(?P<num>\d[\w.]*(?:(?<=[eE])[-+]\d+)?)|(?P<id>[A-Za-z_\x00][\w\x00]*)|(?P<op>->|\+\+|--|<<|>>|&&|\|\||[-+*/%&|^=!<>]=|[^\s\w])', re.S)


class Tok:
    __slots__ = ('k', 's', 'l', 'c', 'raw')

    def __init__(self, k, s, l, c, raw=None):
        self.k, self.s, self.l, self.c, self.raw = k, s, l, c, raw

    def __repr__(self):
        return '%s@%d' % (self.s, self.l)


class Skeleton:
    """tokens of a template; token.c is the tuple of governing tags: ('if', node id, branch no) / ('for', node id)"""

    def __init__(self, nodes):
        self.text = []
        self.spans = []       # (start offset, line, ctx)
        self.exprs = {}       # placeholder -> expr
        self.ctx = {}         # node id -> node
        self.sets = {}        # variable -> [(expr, governing tags)]
        self.off = 0
        self.n = 0
        self.emit(nodes, ())
        self.src = ''.join(self.text)
        self.toks = self.lex()

    def emit(self, nodes, c):
        for nd in nodes:
            k = nd[0]
            if k == 'text':
                self.add(nd[1], nd[2], c)
            elif k == 'out':
                ph = '\x00%d\x00' % len(self.exprs)
                self.exprs[ph] = nd[1]
                self.add(ph, nd[2], c)
            elif k == 'if':
                self.n += 1
                i = self.n
                self.ctx[i] = nd
                for b, (cond, body) in enumerate(nd[1]):
                    self.add(' ', nd[2], c)
                    self.emit(body, c + (('if', i, b),))
            elif k == 'for':
                self.n += 1
                i = self.n
                self.ctx[i] = nd
                self.add(' ', nd[6], c)
                self.emit(nd[4], c + (('for', i),))
            elif k == 'set':
                self.sets.setdefault(nd[1], []).append((nd[2], c))
            elif k == 'macro':
                self.emit(nd[3], c + (('macro', nd[1]),))
            elif k in ('block', 'filter'):
                self.emit(nd[2], c)

    def add(self, s, line, c):
        self.spans.append((self.off, line, c))
        self.text.append(s)
        self.off += len(s)

    def lex(self):
        import bisect
        starts = [x[0] for x in self.spans]
        out = []
        i = 0
        src = self.src
        while i < len(src):
            m = CTOK.match(src, i)
            if not m:
                i += 1
                continue
            k = m.lastgroup
            if k not in ('ws', 'com'):
                j = bisect.bisect_right(starts, i) - 1
                o, l, c = self.spans[j]
                out.append(Tok(k, m.group(0), l + src.count('\n', o, i), c))
            i = m.end()
        return out

    def functions(self):
        """(name, first token index of the parameter list, index of '{', index of closing '}') of every function body"""
        t = self.toks
        i = 0
        d = 0
        res = []
        while i < len(t):
            s = t[i].s
            if s == '{' and t[i].k == 'op':
                if d == 0 and i and t[i - 1].s == ')':
                    j = i - 1
                    p = 0
                    while j >= 0:
                        if t[j].s == ')':
                            p += 1
                        elif t[j].s == '(':
                            p -= 1
                            if p == 0:
                                break
                        j -= 1
                    res.append([t[j - 1].s, j, i, None])
                d += 1
            elif s == '}' and t[i].k == 'op':
                d -= 1
                if d == 0 and res and res[-1][3] is None:
                    res[-1][3] = i
                if d < 0:
                    d = 0
            i += 1
        return [tuple(r) for r in res if r[3] is not None]
