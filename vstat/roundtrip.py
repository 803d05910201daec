"""Tree -> text -> tree, by abstract evaluation: the tree of a sentential form (leaves are uninterpreted words)
is printed by the interpreted code generator, the text is split by the lexical grammar, parsed by the rebuilt
automaton, and the composed tree is compared with the one printed."""
import re

from .deriv import compose
from .engine import Budget, K, Sym, T, isK, kv, mk, show
from .printer import Printer
from .sentence import CONTEXTS, FREE, KEYTEXT, KEYWORDS, REPS, Sentences, _punct
from .spec_lex import KEYWORDS as LEXKEYS, TOKENS
from .termspec import imprecise

OPTEXT = {'LOR': '||', 'LAND': '&&', 'NOR': '~|', 'NAND': '~&', 'XNOR': '~^', 'OR': '|', 'AND': '&', 'XOR': '^', 'LNOT': '!',
          'NOT': '~', 'LSHIFTA': '<<<', 'RSHIFTA': '>>>', 'LSHIFT': '<<', 'RSHIFT': '>>', 'EQL': '===', 'NEL': '!==',
          'EQ': '==', 'NE': '!=', 'LE': '<=', 'GE': '>=', 'LT': '<', 'GT': '>', 'POWER': '**', 'PLUS': '+', 'MINUS': '-',
          'TIMES': '*', 'DIVIDE': '/', 'MOD': '%'}
TOKTEXT = dict(_punct)
TOKTEXT.update(OPTEXT)
for _k in KEYWORDS:
    TOKTEXT[_k] = KEYTEXT.get(_k, _k.lower())

_lex = [(n, re.compile(r, re.S)) for n, r in TOKENS]


def tokenize(text):
    """[(token, text)] by longest match of the lexical grammar; None and the rest on an illegal character."""
    out = []
    i = 0
    n = len(text)
    while i < n:
        if text[i] in ' \t':
            i += 1
            continue
        best = None
        for name, rx in _lex:
            m = rx.match(text, i)
            if m and (best is None or m.end() > best[1]) and m.end() > i:
                best = (name, m.end())
        if best is None:
            return None, text[i:i + 10]
        name, j = best
        if not name.startswith('#'):
            s = text[i:j]
            out.append((LEXKEYS.get(s, name) if name == 'ID' else name, s))
        i = j
    return out, None


def word(kind, i, escaped):
    if kind == 'ID':
        return '\\n+%dQ' % i if escaped else 'nA%dq' % i
    if kind == 'INTNUMBER_DEC':
        return '%d' % (100 + i)
    if kind == 'FLOATNUMBER':
        return '%d.5' % (100 + i)
    if kind == 'STRING_LITERAL':
        return '"sT%dr"' % i
    base = kind.rpartition('_')[2][0].lower()
    if base == 'd':
        return "8'sd%d" % (100 + i)
    body = {'b': bin(8 + i)[2:], 'o': oct(8 + i)[2:], 'h': hex(160 + i)[2:].upper()}[base]
    return "16'%s%s%s" % ('s' if 'SIGNED' in kind else '', base, body)


SHAPES = ['ID PLUS ID', 'ID COND ID COLON ID', 'MINUS ID', 'ID LT ID', 'INTNUMBER_HEX', 'ID LBRACKET ID COLON ID RBRACKET',
          'LPAREN ID LOR ID RPAREN LAND LPAREN ID OR ID RPAREN', 'ID LPAREN ID COMMA ID RPAREN', 'LBRACE ID COMMA ID RBRACE',
          'LNOT ID', 'LPAREN ID COND ID COLON ID RPAREN EQ ID', 'DOLLER ID LPAREN ID RPAREN', 'ID DOT ID DOT ID']


def strip(t):
    """The term without line numbers; sequences as tuples; declarations spread over their list."""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x.k == 'Inst':
            r = ('inst', x.a[0].rpartition('.')[2], tuple((n, go(v)) for n, v in x.a[1]
                                                         if n not in ('lineno', 'end_lineno')))
        elif x.k in ('Tup', 'List'):
            out = []
            for y in x.a[0]:
                g = go(y)
                if isinstance(g, tuple) and g[0] == 'inst' and g[1] == 'Decl':
                    lst = dict(g[2]).get('list')
                    if lst and lst[0] == 'seq':
                        out.extend(lst[1])
                        continue
                out.append(g)
            r = ('seq', tuple(out))
        elif x.k == 'K':
            r = ('k', kv(x))
        else:
            r = ('?', show(x, 3))
        memo[x] = r
        return r
    return go(t)


def first_diff(a, b, path=''):
    """(path, class, a, b) of the first difference of two stripped trees."""
    if a == b:
        return None
    if a[0] == 'inst' and b[0] == 'inst' and a[1] == b[1]:
        da, db = dict(a[2]), dict(b[2])
        for n in da:
            if da[n] != db.get(n):
                r = first_diff(da[n], db.get(n, ('missing', '')), path + '.' + n)
                if r:
                    return (r[0], r[1] or a[1], r[2], r[3])
        return (path, a[1], a, b)
    if a[0] == 'seq' and b[0] == 'seq' and len(a[1]) == len(b[1]):
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                return first_diff(x, y, path + '[%d]' % i)
    return (path, a[1] if a[0] == 'inst' else None, a, b)


def brief(x, d=3):
    if not isinstance(x, tuple) or d == 0:
        return '...'
    if x[0] == 'inst':
        return '%s(%s)' % (x[1], ', '.join('%s=%s' % (n, brief(v, d - 1)) for n, v in x[2] if v not in (('k', None), ('k', False))))
    if x[0] == 'seq':
        return '[%s]' % ', '.join(brief(y, d - 1) for y in x[1])
    return repr(x[1])


class Result(object):
    __slots__ = ('status', 'what', 'cls', 'text', 'funcs')


class RoundTrip(object):
    def __init__(self, repo):
        self.repo = repo
        self.S = Sentences(repo)
        self.L = self.S.lalr
        self.P = Printer(repo)
        self.reps = dict((k, v.split()) for k, v in REPS.items())

    def expand(self, start, form, shapes=0):
        """Terminal string of a whole source text holding the form.  -> [tokens]"""
        short = self.L.shortest()
        toks = []
        k = shapes
        for s in form:
            if s in self.S.G.nts:
                if shapes and s in ('expression', 'rvalue'):
                    toks += SHAPES[(k - 1) % len(SHAPES)].split()
                    k += 1
                else:
                    toks += self.reps.get(s) or short[s]
            else:
                toks.append(s)
        if start == 'source_text':
            return toks
        ctxs = CONTEXTS.get(start)
        if ctxs:
            pre, suf = ctxs[0][0].split(), ctxs[0][1].split()
        else:
            c = self.L.context(start)
            if c is None:
                return None
            pre, suf = c
        return list(pre) + toks + list(suf)

    def tree(self, toks, values, lines=None):
        t = self.L.parse(toks)
        if t is None:
            return None, self.L.errpos
        return compose(self.repo, self.S.G.cls, t, [K(v) for v in values],
                       lines or [K(1)] * len(toks), budget=3000000), None

    def run(self, toks, escaped=False, words=None):
        r = Result()
        r.cls = None
        r.text = ''
        r.funcs = set()
        values = words or [word(s, i, escaped) if s in FREE else TOKTEXT.get(s, s.lower()) for i, s in enumerate(toks)]
        src = ' '.join(values)
        try:
            c, err = self.tree(toks, values)
        except Budget:
            c, err = None, 0
        if c is None:
            r.status, r.what = 'skip', 'the form is not accepted'
            return r
        if c.raises is not None or c.value.k != 'Inst':
            r.status, r.what = 'skip', 'no tree'
            return r
        st, v = self.P.text(c.E, c.st, c.ref)
        r.funcs = set(c.E.called)
        if st == 'unknown':
            r.status, r.what = 'unknown', v[:300]
            return r
        if st == 'raise':
            if isinstance(v, T) and imprecise(v):
                r.status, r.what = 'unknown', show(v)
                return r
            r.status = 'bad'
            r.what = 'generating code for "%s" fails: %s' % (src, v if isinstance(v, str) else show(v))
            return r
        r.text = v
        want = strip(c.value)
        tk, rest = tokenize(v)
        flat = ' '.join(v.split())
        if tk is None:
            r.status, r.what = 'bad', '"%s" is written as "%s": illegal text at %r' % (src, flat, rest)
            return r
        types = [a for a, _ in tk]
        try:
            c2, err = self.tree(types, [b for _, b in tk])
        except Budget:
            r.status, r.what = 'unknown', 'budget'
            return r
        if c2 is None:
            near = ' '.join(b for _, b in tk[max(0, err - 4):err + 3])
            r.status, r.what = 'bad', '"%s" is written as "%s": not accepted again near "%s"' % (src, flat, near)
            return r
        if c2.raises is not None:
            r.status, r.what = 'bad', '"%s" is written as "%s": the parser raises on it' % (src, flat)
            return r
        got = strip(c2.value)
        d = first_diff(want, got)
        if d is None:
            r.status, r.what = 'ok', flat
            return r
        r.cls = d[1]
        if imprecise(c.value) or imprecise(c2.value):
            r.status, r.what = 'unknown', d[0]
            return r
        r.status = 'bad'
        r.what = '"%s" is written as "%s": at %s it reads back as %s, was %s' % (src, flat, d[0] or 'the root', brief(d[3]), brief(d[2]))
        return r
