"""Operators.  Every operator in unary or binary position, every ordered pair of operators with and without
parentheses, unary operators under and over binary ones, and the conditional operator are parsed by the automaton
rebuilt from the grammar and composed into their tree, which must be the tree of the Verilog precedence table; each tree is
printed by the interpreted code generator in several places of a module and read back: the grouping must survive.
The operator tables are evaluated from source."""
from ..engine import Budget, Engine, K, RaiseSig, St, T, isK, kv, show
from ..repo import AnalysisBroken
from ..roundtrip import RoundTrip, first_diff, brief, strip
from ..spec_ops import BINARY, MARK, UNARY
from .c06 import parallel

ASSUMPTIONS = ['operands are uninterpreted words', 'one operator pair decides the table: LALR precedence is pairwise']

PRE, SUF = 'MODULE ID SEMICOLON ASSIGN ID EQUALS'.split(), 'SEMICOLON ENDMODULE'.split()
PLACES = {
    'assign': ('MODULE ID SEMICOLON ASSIGN ID EQUALS', 'SEMICOLON ENDMODULE'),
    'width': ('MODULE ID SEMICOLON WIRE LBRACKET', 'COLON ID RBRACKET ID SEMICOLON ENDMODULE'),
    'select': ('MODULE ID SEMICOLON ASSIGN ID EQUALS ID LBRACKET', 'COLON ID RBRACKET SEMICOLON ENDMODULE'),
    'lsb': ('MODULE ID SEMICOLON ASSIGN ID EQUALS ID LBRACKET ID COLON', 'RBRACKET SEMICOLON ENDMODULE'),
    'port': ('MODULE ID SEMICOLON ID ID LPAREN DOT ID LPAREN', 'RPAREN RPAREN SEMICOLON ENDMODULE'),
    'param': ('MODULE ID SEMICOLON ID DELAY LPAREN DOT ID LPAREN', 'RPAREN RPAREN ID LPAREN RPAREN SEMICOLON ENDMODULE'),
    'concat': ('MODULE ID SEMICOLON ASSIGN ID EQUALS LBRACE ID COMMA', 'RBRACE SEMICOLON ENDMODULE'),
    'times': ('MODULE ID SEMICOLON ASSIGN ID EQUALS LBRACE', 'LBRACE ID RBRACE RBRACE SEMICOLON ENDMODULE'),
    'if': ('MODULE ID SEMICOLON INITIAL IF LPAREN', 'RPAREN ID EQUALS ID SEMICOLON ENDMODULE'),
    'case': ('MODULE ID SEMICOLON INITIAL CASE LPAREN', 'RPAREN DEFAULT COLON ID EQUALS ID SEMICOLON ENDCASE ENDMODULE'),
    'item': ('MODULE ID SEMICOLON INITIAL CASE LPAREN ID RPAREN', 'COLON ID EQUALS ID SEMICOLON ENDCASE ENDMODULE'),
    'while': ('MODULE ID SEMICOLON INITIAL WHILE LPAREN', 'RPAREN ID EQUALS ID SEMICOLON ENDMODULE'),
    'forcond': ('MODULE ID SEMICOLON INITIAL FOR LPAREN ID EQUALS ID SEMICOLON',
                'SEMICOLON ID EQUALS ID RPAREN ID EQUALS ID SEMICOLON ENDMODULE'),
    'forstep': ('MODULE ID SEMICOLON INITIAL FOR LPAREN ID EQUALS ID SEMICOLON ID SEMICOLON ID EQUALS',
                'RPAREN ID EQUALS ID SEMICOLON ENDMODULE'),
    'wait': ('MODULE ID SEMICOLON INITIAL WAIT LPAREN', 'RPAREN ID EQUALS ID SEMICOLON ENDMODULE'),
    'pointer': ('MODULE ID SEMICOLON ASSIGN ID LBRACKET', 'RBRACKET EQUALS ID SEMICOLON ENDMODULE'),
    'delay': ('MODULE ID SEMICOLON INITIAL ID EQUALS DELAY LPAREN', 'RPAREN ID SEMICOLON ENDMODULE'),
    'arg': ('MODULE ID SEMICOLON ASSIGN ID EQUALS ID LPAREN', 'COMMA ID RPAREN SEMICOLON ENDMODULE'),
    'sysarg': ('MODULE ID SEMICOLON ASSIGN ID EQUALS DOLLER ID LPAREN', 'RPAREN SEMICOLON ENDMODULE'),
    'value': ('MODULE ID SEMICOLON LOCALPARAM ID EQUALS', 'SEMICOLON ENDMODULE'),
    'blocking': ('MODULE ID SEMICOLON INITIAL ID EQUALS', 'SEMICOLON ENDMODULE'),
    'nonblocking': ('MODULE ID SEMICOLON INITIAL ID LE', 'SEMICOLON ENDMODULE'),
}


def cases():
    """(name, tokens, expected tree); a leaf is its position, a tree (class, operands...)."""
    out = []
    B = 11
    for t1, x1, c1, p1 in BINARY:
        out.append(('a%sb' % x1, ['ID', t1, 'ID'], (c1, 0, 1), 1))
        for t2, x2, c2, p2 in BINARY:
            want = (c2, (c1, 0, 1), 2) if p1 >= p2 else (c1, 0, (c2, 1, 2))
            out.append(('a%sb%sc' % (x1, x2), ['ID', t1, 'ID', t2, 'ID'], want, 1))
            out.append(('a%s(b%sc)' % (x1, x2), ['ID', t1, 'LPAREN', 'ID', t2, 'ID', 'RPAREN'], (c1, 0, (c2, 1, 2)), 1))
            out.append(('(a%sb)%sc' % (x1, x2), ['LPAREN', 'ID', t1, 'ID', 'RPAREN', t2, 'ID'], (c2, (c1, 0, 1), 2), 1))
            if p1 == p2 or (p1 + p2) % 4 == 0:
                out.append(('(a%sb)%s(c%sd)' % (x1, x2, x1),
                            ['LPAREN', 'ID', t1, 'ID', 'RPAREN', t2, 'LPAREN', 'ID', t1, 'ID', 'RPAREN'],
                            (c2, (c1, 0, 1), (c1, 2, 3)), 0))
        for u, ux, uc in UNARY:
            out.append(('%sa%sb' % (ux, x1), [u, 'ID', t1, 'ID'], (c1, (uc, 0), 1), 1))
            out.append(('a%s %sb' % (x1, ux), ['ID', t1, u, 'ID'], (c1, 0, (uc, 1)), 1))
            out.append(('%s(a%sb)' % (ux, x1), [u, 'LPAREN', 'ID', t1, 'ID', 'RPAREN'], (uc, (c1, 0, 1)), 1))
            out.append(('a%s(%sb)' % (x1, ux), ['ID', t1, 'LPAREN', u, 'ID', 'RPAREN'], (c1, 0, (uc, 1)), 0))
        out.append(('a%sb?c:d' % x1, ['ID', t1, 'ID', 'COND', 'ID', 'COLON', 'ID'], ('Cond', (c1, 0, 1), 2, 3), 1))
        out.append(('a?b%sc:d' % x1, ['ID', 'COND', 'ID', t1, 'ID', 'COLON', 'ID'], ('Cond', 0, (c1, 1, 2), 3), 1))
        out.append(('a?b:c%sd' % x1, ['ID', 'COND', 'ID', 'COLON', 'ID', t1, 'ID'], ('Cond', 0, 1, (c1, 2, 3)), 1))
        out.append(('(a?b:c)%sd' % x1, ['LPAREN', 'ID', 'COND', 'ID', 'COLON', 'ID', 'RPAREN', t1, 'ID'],
                    (c1, ('Cond', 0, 1, 2), 3), 1))
        out.append(('a%s(b?c:d)' % x1, ['ID', t1, 'LPAREN', 'ID', 'COND', 'ID', 'COLON', 'ID', 'RPAREN'],
                    (c1, 0, ('Cond', 1, 2, 3)), 1))
    for u, ux, uc in UNARY:
        out.append(('%sa' % ux, [u, 'ID'], (uc, 0), 1))
        out.append(('%sa?b:c' % ux, [u, 'ID', 'COND', 'ID', 'COLON', 'ID'], ('Cond', (uc, 0), 1, 2), 1))
        out.append(('%s(a?b:c)' % ux, [u, 'LPAREN', 'ID', 'COND', 'ID', 'COLON', 'ID', 'RPAREN'], (uc, ('Cond', 0, 1, 2)), 1))
        for v, vx, vc in UNARY:
            out.append(('%s %sa' % (ux, vx), [u, v, 'ID'], (uc, (vc, 0)), 1))
            out.append(('%s(%sa)' % (ux, vx), [u, 'LPAREN', v, 'ID', 'RPAREN'], (uc, (vc, 0)), 0))
    q = ['COND', 'ID', 'COLON', 'ID']
    out.append(('a?b:c?d:e', ['ID'] + q + q, ('Cond', 0, 1, ('Cond', 2, 3, 4)), 1))
    out.append(('a?b?c:d:e', ['ID', 'COND', 'ID'] + q + ['COLON', 'ID'], ('Cond', 0, ('Cond', 1, 2, 3), 4), 1))
    out.append(('(a?b:c)?d:e', ['LPAREN', 'ID'] + q + ['RPAREN'] + q, ('Cond', ('Cond', 0, 1, 2), 3, 4), 1))
    return out


def sexp(x, names):
    if isinstance(x, tuple) and x and x[0] == 'inst':
        d = dict(x[2])
        if x[1] == 'Identifier' and d.get('scope') == ('k', None):
            return names.get(d['name'][1], d['name'][1])
        if x[1] == 'Uplus':             # the identity: a tree may hold it or not
            return sexp(d.get('right'), names)
        if x[1] == 'Cond':
            return ('Cond',) + tuple(sexp(d.get(n), names) for n in ('cond', 'true_value', 'false_value'))
        if 'left' in d:
            return (x[1], sexp(d['left'], names), sexp(d.get('right'), names))
        if set(d) == {'right'}:
            return (x[1], sexp(d['right'], names))
        return (x[1], brief(x))
    return x


def plain(w):
    """The expected tree without unary plus."""
    if not isinstance(w, tuple):
        return w
    return plain(w[1]) if w[0] == 'Uplus' else w[:1] + tuple(plain(x) for x in w[1:])


def spell(t):
    if isinstance(t, tuple):
        return '%s(%s)' % (t[0], ', '.join(spell(x) for x in t[1:]))
    return 'abcdefgh'[t] if isinstance(t, int) else str(t)


_rt = [None]


def worker(job):
    kind, key, toks, want = job
    R = _rt[0]
    if kind == 'parse':
        full = PRE + toks + SUF
        vals = []
        names = {}
        for i, s in enumerate(full):
            if s == 'ID' and len(PRE) <= i < len(PRE) + len(toks):
                vals.append('nA%dq' % i)
                names['nA%dq' % i] = len(names)
            else:
                from ..roundtrip import TOKTEXT, word
                vals.append(word(s, i, False) if s == 'ID' else TOKTEXT.get(s, s.lower()))
        try:
            c, err = R.tree(full, vals)
        except Budget:
            return job, 'unknown', 'budget', None
        if c is None:
            return job, 'bad', 'is not accepted', None
        if c.raises is not None:
            return job, 'bad', 'the parser raises', None
        t = strip(c.value)
        try:
            d = dict(dict(t[2])['description'][2])['definitions'][1][0]
            a = dict(d[2])['items'][1][0]
            e = dict(dict(a[2])['right'][2])['var']
        except (KeyError, IndexError, TypeError):
            return job, 'unknown', 'unexpected tree', None
        got = sexp(e, names)
        want = plain(want)
        if got == want:
            return job, 'ok', spell(want), None
        from ..termspec import imprecise
        if imprecise(c.value):
            return job, 'unknown', 'imprecise', None
        return job, 'bad', 'groups as %s; the standard says %s' % (spell(got), spell(want)), None
    r = R.run(toks)
    return job, r.status, r.what, r.cls


def tables(ctx):
    R = ctx.repo
    f = R.mod('utils.op2mark').funcs.get('op2mark')
    if f is None:
        raise AnalysisBroken('utils.op2mark.op2mark vanished')
    for c in sorted(MARK):
        E = Engine(R)
        st = St()
        try:
            v = E.simp(E.call(E.fn(f), [K(c)], {}, st), st)
        except RaiseSig as x:
            ctx.bad('table', c, 'op2mark(%r) raises %s' % (c, show(x.exc)), f.where())
            continue
        except Budget:
            ctx.unknown('table', c, 'budget')
            continue
        if v == K(MARK[c]):
            ctx.ok('table', '%s -> %s' % (c, MARK[c]))
        elif v.k == 'K':
            ctx.bad('table', c, 'op2mark(%r) is %r, the operator is %r' % (c, kv(v), MARK[c]), f.where())
        else:
            ctx.unknown('table', c, show(v, 3))


def check(ctx):
    R = RoundTrip(ctx.repo)
    _rt[0] = R
    thorough = ctx.tier == 'thorough'
    todo = []
    names = sorted(PLACES)
    for n, (key, toks, want, both) in enumerate(cases()):
        todo.append(('parse', key, toks, want))
        places = names if thorough else ['assign'] + ([names[n % len(names)]] if n % 3 == 0 else [])
        for p in sorted(set(places)):
            pre, suf = PLACES[p]
            todo.append(('print', '%s:%s' % (p, key), pre.split() + toks + suf.split(), None))
    P = ctx.repo.cls('vparser.parser.VerilogParser')
    for (kind, key, toks, want), status, what, cls in parallel(worker, todo):
        if status == 'ok':
            ctx.ok(kind, '%s: %s' % (key, what))
        elif status in ('skip', 'unknown'):
            ctx.unknown(kind, key, what)
        else:
            w = R.P.cls.methods.get('visit_Operator') if kind == 'print' else None
            ctx.bad(kind, key, '"%s" %s' % (key, what) if kind == 'parse' else what,
                    w.where() if w is not None else 'pyverilog/vparser/parser.py')
    tables(ctx)
    ctx.floor('parse', 1500)
    ctx.floor('print', 1500)
