"""Reference readers (the oracle) of the texts the dataflow tools emit: Verilog expressions, statements and flat modules, and the
notation of tostr().  Independent of the repository's own lexer and grammar."""
import re

from .spec_ops import BINARY, UNARY

TOK = re.compile(r'''(?P<ws>\s+|`default_nettype[ \t]+\w+|//[^\n]*)|(?P<str>"(?:\\.|[^"\\\n])*")|(?P<esc>\\[^\s]+(?=\s))|(?P<id>[A-Za-z_][\w$]*)|(?P<sys>\$[A-Za-z_$][\w$]*)
|(?P<based>(?:\d[\d_]*[ ]*)?'[sS]?[bodhBODH][ ]*[0-9a-fA-FxXzZ?][0-9a-fA-FxXzZ?_]*)|(?P<float>\d[\d_]*\.\d[\d_]*(?:[eE][+-]?\d+)?|\d[\d_]*[eE][+-]?\d+)|(?P<int>\d[\d_]*)
|(?P<op><<<|>>>|===|!==|\*\*|&&|\|\||<<|>>|<=|>=|==|!=|~&|~\||~\^|\^~|\+:|-:|[-+*/%!~&|^<>=?:;,.()\[\]{}@#])''', re.X)
PREC = dict((t, (p, c)) for _, t, c, p in BINARY)
PREC['^~'] = PREC['~^']
UN = dict((t, c) for _, t, c in UNARY)
KEYWORDS = set('module endmodule input output inout wire reg integer genvar tri supply0 supply1 real parameter localparam assign always begin end if else posedge negedge or '
               'signed initial case endcase default for while function endfunction'.split())


class Illegal(Exception):
    """The text is not legal Verilog."""


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Illegal('no token at %r' % text[i:i + 20])
        i = m.end()
        if m.lastgroup == 'ws':
            continue
        k, s = m.lastgroup, m.group()
        if k == 'id' and s in KEYWORDS:
            k = 'kw'
        out.append((k, s))
    return out


def literal(s):
    """(value or digits, width, signed) of an integer literal text."""
    s = s.replace('_', '').replace(' ', '').lower()
    if "'" not in s:
        return int(s), 32, True
    w, r = s.split("'")
    sg = r.startswith('s')
    r = r[1:] if sg else r
    w = int(w) if w else 32
    if set(r[1:]) & set('xz?'):
        return r.replace('?', 'z'), w, sg
    try:
        return int(r[1:], {'b': 2, 'o': 8, 'd': 10, 'h': 16}[r[0]]), w, sg
    except ValueError:
        raise Illegal('bad digits in %s' % s)


class Reader(object):
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else ('end', '')

    def at(self, s):
        k, x = self.peek()
        return x == s and k in ('op', 'kw')

    def take(self, s=None, kind=None):
        k, x = self.peek()
        if s is not None and not (x == s and k in ('op', 'kw')) or kind is not None and k not in kind:
            raise Illegal('%s where %s is expected' % (x or 'end of text', s or '/'.join(kind)))
        self.i += 1
        return x

    def skip(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def name(self):
        x = self.take(kind=('id', 'esc'))
        return x[1:] if x.startswith('\\') and re.match(r'\\[A-Za-z_][\w$]*$', x) else x

    def expr(self):
        c = self.binary(1)
        if self.skip('?'):
            a = self.expr()
            self.take(':')
            return ('?', c, a, self.expr())
        return c

    def binary(self, level):
        l = self.unary()
        while True:
            k, x = self.peek()
            if k != 'op' or x not in PREC or PREC[x][0] < level:
                return l
            p, c = PREC[x]
            self.i += 1
            l = ('op', c, l, self.binary(p + 1))

    def unary(self):
        k, x = self.peek()
        if k == 'op' and x in UN:
            self.i += 1
            return ('op', UN[x], self.primary())
        return self.primary()

    def primary(self):
        k, x = self.peek()
        if k in ('int', 'based'):
            self.i += 1
            literal(x)
            r = ('K', x)
        elif k == 'float':
            self.i += 1
            r = ('F', x)
        elif k == 'str':
            self.i += 1
            r = ('S', x[1:-1])
        elif k == 'sys':
            self.i += 1
            a = ()
            if self.skip('('):
                a = self.list(')')
            r = ('sys', x[1:]) + a
        elif k in ('id', 'esc'):
            r = ('T', self.name())
            while self.at('['):
                r = self.select(r)
            return r
        elif x == '(':
            self.i += 1
            r = self.expr()
            self.take(')')
        elif x == '{':
            self.i += 1
            a = self.expr()
            if self.skip('{'):
                r = ('cat',) + self.list('}')
                self.take('}')
                r = ('rep', a, r)
            elif self.skip(','):
                r = ('cat', a) + self.list('}')
            else:
                self.take('}')
                r = ('cat', a)
        else:
            raise Illegal('%s where an operand is expected' % (x or 'end of text'))
        if self.at('['):
            raise Illegal('a select of an expression')
        return r

    def list(self, end):
        out = [self.expr()]
        while self.skip(','):
            out.append(self.expr())
        self.take(end)
        return tuple(out)

    def select(self, r):
        self.take('[')
        a = self.expr()
        if self.skip(':'):
            b = self.expr()
            self.take(']')
            return ('[:]', r, a, b)
        self.take(']')
        return ('[]', r, a)

    def lhs(self):
        r = ('T', self.name())
        while self.at('['):
            r = self.select(r)
        return r

    def stmt(self):
        if self.skip('begin'):
            out = []
            while not self.skip('end'):
                out.append(self.stmt())
            return ('blk',) + tuple(out)
        if self.skip('if'):
            self.take('(')
            c = self.expr()
            self.take(')')
            a = self.stmt()
            b = self.stmt() if self.skip('else') else None
            return ('if', c, a, b)
        d = self.lhs()
        op = self.take()
        if op not in ('=', '<='):
            raise Illegal('%s where an assignment is expected' % op)
        e = self.expr()
        self.take(';')
        return ('b' if op == '=' else 'nb', d, e)

    def sens(self):
        self.take('@')
        if self.skip('*'):
            return '*'
        self.take('(')
        out = []
        while True:
            e = self.take() if self.at('posedge') or self.at('negedge') else 'level'
            n = ('T', self.name())
            if self.at('['):
                n = self.select(n)
            out.append((e, n))
            if not (self.skip('or') or self.skip(',')):
                break
        self.take(')')
        return tuple(out)

    def item(self):
        """('decl', kinds, range, name, dims) ('parameter'|'localparam', lhs, expr) ('assign', lhs, expr) ('always', sens, stmt)"""
        k, x = self.peek()
        if x in ('parameter', 'localparam', 'assign') and k == 'kw':
            self.i += 1
            d = self.lhs()
            self.take('=')
            e = self.expr()
            self.take(';')
            return (x, d, e)
        if self.skip('always'):
            s = self.sens()
            return ('always', s, self.stmt())
        kinds = []
        while self.peek()[0] == 'kw' and self.peek()[1] in ('input', 'output', 'inout', 'wire', 'reg', 'integer', 'genvar', 'tri', 'supply0', 'supply1', 'signed', 'real'):
            kinds.append(self.take())
        if not kinds:
            raise Illegal('%s where an item is expected' % (x or 'end of text'))
        io = [k for k in kinds if k in ('input', 'output', 'inout')]
        data = [k for k in kinds if k not in ('input', 'output', 'inout', 'signed')]
        if len(io) > 1 or len(data) > 1 or io and kinds[0] not in io:
            raise Illegal('declaration kinds %s' % ' '.join(kinds))
        rng = None
        if self.skip('['):
            a = self.expr()
            self.take(':')
            rng = (a, self.expr())
            self.take(']')
            if data and data[0] in ('integer', 'genvar', 'real'):
                raise Illegal('a range on %s' % data[0])
        n = self.name()
        dims = []
        while self.skip('['):
            a = self.expr()
            self.take(':')
            dims.append((a, self.expr()))
            self.take(']')
        self.take(';')
        return ('decl', tuple(kinds), rng, n, tuple(dims))

    def module(self):
        """(name, ports, items)"""
        self.take('module')
        n = self.name()
        self.take('(')
        ports = []
        if not self.skip(')'):
            ports.append(self.name())
            while self.skip(','):
                ports.append(self.name())
            self.take(')')
        self.take(';')
        items = []
        while not self.skip('endmodule'):
            items.append(self.item())
        self.end()
        return n, ports, items

    def end(self):
        if self.i != len(self.t):
            raise Illegal('%s after the end' % self.peek()[1])


def expression(text):
    r = Reader(text)
    e = r.expr()
    r.end()
    return e


def item(text):
    r = Reader(text)
    e = r.item()
    r.end()
    return e


def module(text):
    return Reader(text).module()


def same(t, r, flat=lambda n: n, dest=None):
    """Is r (read) the dataflow tree t?  flat: name of a terminal.  dest: what a missing side of a branch holds (read form)."""
    if t is None:
        return r == dest
    k = t[0]
    s = lambda x, y: same(x, y, flat, dest)
    if k == 'T':
        return r == ('T', flat(t[1]))
    if k == 'K':
        return r[0] == 'K' and literal(t[1]) == literal(r[1])
    if k == 'V':
        if isinstance(t[1], float):
            if t[1] < 0:
                return r[:2] == ('op', 'Uminus') and len(r) == 3 and same(('V', -t[1], t[2]), r[2])
            return r[0] == 'F' and float(r[1]) == t[1]
        if t[1] < 0:
            return r[:2] == ('op', 'Uminus') and len(r) == 3 and same(('V', -t[1], t[2]), r[2])
        return r[0] == 'K' and literal(r[1])[:2] == (t[1], t[2])
    if k in 'UH':
        return r[0] == 'K' and literal(r[1])[1] == t[1] and set(str(literal(r[1])[0])[1:]) == {'x' if k == 'U' else 'z'}
    if k == 'F':
        return r[0] == 'F' and float(r[1]) == float(t[1])
    if k == 'S':
        return r == t
    if k == '[:]':
        if r[0] == '[]' and t[2] == t[3]:
            return s(t[1], r[1]) and s(t[2], r[2])
        return r[0] == '[:]' and all(s(x, y) for x, y in zip(t[1:], r[1:]))
    if k in ('op', 'sys'):
        return r[:2] == t[:2] and len(r) == len(t) and all(s(x, y) for x, y in zip(t[2:], r[2:]))
    if k in ('cat', '[]', '?'):
        return r[0] == k and len(r) == len(t) and all(s(x, y) for x, y in zip(t[1:], r[1:]))
    return False


def effect(s, dest, op):
    """Decision tree of a statement assigning only dest: ('?', cond, a, b) | expression | None (holds)."""
    if s is None:
        return None
    if s[0] == 'blk':
        v = None
        for i, x in enumerate(s[1:]):
            if i:
                raise Illegal('several statements')
            v = effect(x, dest, op)
        return v
    if s[0] == 'if':
        return ('?', s[1], effect(s[2], dest, op), effect(s[3], dest, op))
    if s[0] != op:
        raise Illegal('a %s assignment' % ('blocking' if s[0] == 'b' else 'nonblocking'))
    if s[1] != dest:
        raise Illegal('an assignment to %s' % show(s[1]))
    return s[2]


def same_stmt(t, r, flat, dest):
    """The decision tree r (of effect) against the dataflow tree t: branches down to values; a missing side holds."""
    if t is not None and t[0] == '?':
        if r is None or r[0] != '?' or len(r) != 4:
            return False
        return same(t[1], r[1], flat, dest) and same_stmt(t[2], r[2], flat, dest) and same_stmt(t[3], r[3], flat, dest)
    if t is None or r is None:
        return t is None and r in (None, dest)
    return same(t, r, flat, dest)


def show(r):
    if r is None:
        return '-'
    k = r[0]
    if k in ('T', 'K', 'F', 'S'):
        return str(r[1])
    if k == '?':
        return '(%s ? %s : %s)' % tuple(show(x) for x in r[1:])
    if k in ('op', 'sys'):
        return '%s(%s)' % (r[1], ', '.join(show(x) for x in r[2:]))
    if k == '[:]':
        return '%s[%s:%s]' % tuple(show(x) for x in r[1:])
    if k == '[]':
        return '%s[%s]' % tuple(show(x) for x in r[1:])
    return '%s(%s)' % (k, ', '.join(show(x) for x in r[1:]))


class Note(object):
    """Reader of the tostr() notation."""

    def __init__(self, s):
        self.s, self.i = s, 0

    def lit(self, x):
        if not self.s.startswith(x, self.i):
            raise Illegal('%r where %r is expected' % (self.s[self.i:self.i + 12], x))
        self.i += len(x)

    def has(self, x):
        if self.s.startswith(x, self.i):
            self.i += len(x)
            return True
        return False

    def word(self, pat=r'[^\s(),]+'):
        m = re.compile(pat).match(self.s, self.i)
        if not m:
            raise Illegal('%r where a word is expected' % self.s[self.i:self.i + 12])
        self.i = m.end()
        return m.group()

    def value(self):
        m = re.compile(r'\d+\.\d+(e[+-]?\d+)?|\d+e[+-]?\d+').match(self.s, self.i)
        if m:
            self.i = m.end()
            return ('Vf', float(m.group()))
        m = re.compile(r"(\d*)'d(\d+|x|z)").match(self.s, self.i)
        if not m:
            raise Illegal('%r where a node is expected' % self.s[self.i:self.i + 12])
        self.i = m.end()
        w = int(m.group(1) or 32)
        return ({'x': 'U', 'z': 'H'}[m.group(2)], w) if m.group(2) in 'xz' else ('V', int(m.group(2)), w)

    def seq(self):
        out = [self.node()]
        while self.has(','):
            out.append(self.node())
        return tuple(out)

    def node(self):
        if not self.s.startswith('(', self.i):
            return self.value()
        self.lit('(')
        if self.has('-'):
            v = self.value()
            self.lit(')')
            return (v[0], -v[1]) + v[2:]
        k = self.word(r'[A-Za-z]+')
        if k == 'Terminal':
            self.lit(' ')
            r = ('T', self.word())
        elif k in ('IntConst', 'FloatConst', 'StringConst'):
            self.lit(' ')
            r = (k[0].replace('I', 'K'), self.word(r'[^()]*'))
        elif k in ('Operator', 'Syscall'):
            self.lit(' ')
            o = self.word()
            self.lit(' Next:')
            r = ('op' if k == 'Operator' else 'sys', o) + (self.seq() if not self.s.startswith(')', self.i) else ())
        elif k == 'Concat':
            self.lit(' Next:')
            r = ('cat',) + self.seq()
        elif k == 'Partselect':
            r = ['[:]']
            for x in ('Var', 'MSB', 'LSB'):
                self.lit(' %s:' % x)
                r.append(self.node())
            r = tuple(r)
        elif k == 'Pointer':
            r = ['[]']
            for x in ('Var', 'PTR'):
                self.lit(' %s:' % x)
                r.append(self.node())
            r = tuple(r)
        elif k == 'Branch':
            r = ('?',) + tuple(self.node() if self.has(' %s:' % x) else None for x in ('Cond', 'True', 'False'))
        elif k == 'Delay':
            self.lit(' ')
            r = ('delay', self.node())
        else:
            raise Illegal('a node called %s' % k)
        self.lit(')')
        return r

    def bind(self):
        """(dest, msb, lsb, ptr, tree)"""
        self.lit('(Bind dest:')
        out = [self.word()]
        for x in ('msb', 'lsb', 'ptr', 'tree'):
            out.append(self.node() if self.has(' %s:' % x) else None)
        self.lit(')')
        self.end()
        return tuple(out)

    def term(self):
        """(name, kinds, msb, lsb, dims)"""
        self.lit('(Term name:')
        n = self.word()
        self.lit(' type:[')
        ks = tuple(re.findall(r"'(\w*)'", self.word(r'[^\]]*')))
        self.lit(']')
        m = self.node() if self.has(' msb:') else None
        l = self.node() if self.has(' lsb:') else None
        dims = None
        if self.has(' dims:'):
            dims = []
            while self.has('['):
                a = self.node()
                self.lit(':')
                dims.append((a, self.node()))
                self.lit(']')
            dims = tuple(dims)
        self.lit(')')
        self.end()
        return n, ks, m, l, dims

    def end(self):
        if self.i != len(self.s):
            raise Illegal('%r after the end' % self.s[self.i:self.i + 12])


def note(s):
    n = Note(s)
    r = n.node()
    n.end()
    return r
