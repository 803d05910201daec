"""Every kind of expression, alone and as operand of every other, is written at every place an expression may stand;
the parser's actions and both dataflow visitors are interpreted from source on the program, and the stored dataflow tree must
be the tree of the expression, for each outcome of the conditions in it."""
from .. import dfshape as S
from ..dfrun import Failed
from ..flow import Malformed, Need, T, I, tree_outcome, value
from ..shapes import Shape, locate, pipeline, run_all, short

ASSUMPTIONS = ['Signals are uninterpreted words; equal condition expressions have equal truth.',
               'An index that is itself a conditional expression is rejected by the analyzer and outside the property.']

BIN = {'**': 'Power', '*': 'Times', '/': 'Divide', '%': 'Mod', '+': 'Plus', '-': 'Minus', '<<': 'Sll', '>>': 'Srl',
       '<<<': 'Sla', '>>>': 'Sra', '<': 'LessThan', '>': 'GreaterThan', '<=': 'LessEq', '>=': 'GreaterEq', '==': 'Eq',
       '!=': 'NotEq', '===': 'Eql', '!==': 'NotEql', '&': 'And', '^': 'Xor', '~^': 'Xnor', '|': 'Or', '&&': 'Land',
       '||': 'Lor'}
UN = {'+': 'Uplus', '-': 'Uminus', '!': 'Ulnot', '~': 'Unot', '&': 'Uand', '~&': 'Unand', '|': 'Uor', '~|': 'Unor',
      '^': 'Uxor', '~^': 'Uxnor'}
BV = 'dataflow.bindvisitor.BindVisitor.'


def leaf(n):
    return (n, T(n))


def const(t, kind='Int'):
    return (t if kind != 'String' else '"%s"' % t, ('K', kind, t))


def un(o, x):
    return ('(%s %s)' % (o, x[0]), x[1] if o == '+' else ('op', UN[o], x[1]))


def bi(o, x, y):
    return ('(%s %s %s)' % (x[0], o, y[0]), ('op', BIN[o], x[1], y[1]))


def cond(c, x, y):
    return ('(%s ? %s : %s)' % (c[0], x[0], y[0]), ('?', c[1], x[1], y[1]))


def cat(*xs):
    return ('{%s}' % ', '.join(x[0] for x in xs), ('cat',) + tuple(x[1] for x in xs))


def rep(n, x):
    return ('{%d{%s}}' % (n, x[0]), ('cat',) + (x[1],) * n)


def part(v, m, l):
    return ('%s[%s:%s]' % (v[0], m[0], l[0]), ('[:]', v[1], m[1], l[1]))


def bit(v, i):
    return ('%s[%s]' % (v[0], i[0]), ('[:]', v[1], i[1], i[1]))


def mem(v, i):
    return ('%s[%s]' % (v[0], i[0]), ('[]', v[1], i[1]))


def sys(n, x):
    return ('$%s(%s)' % (n, x[0]), x[1] if n in ('signed', 'unsigned') else I(0))


a, b, c, d, e, v, m = [leaf(x) for x in 'abcdevm']
k0, k1, k2, k3 = [const(str(i)) for i in range(4)]


def exprs(tier):
    out = []
    for o in BIN:
        out.append(bi(o, a, b))
    for o in UN:
        out.append(un(o, a))
    consts = [k3, const("4'b10x1"), const("8'hfF"), const("'d12"), const("3'so7"), const('1.5', 'Float'), const('ab c', 'String')]
    out += consts
    out += [cond(c, a, b), cat(a, b), cat(a), cat(a, b, d), rep(1, a), rep(3, a), rep(2, cat(a, b)), part(v, k3, k1), part(v, k2, k2),
            bit(v, k2), bit(v, a), mem(m, k1), mem(m, a), bit(mem(m, a), k2), part(mem(m, k1), k2, k0), part(mem(m, b), k3, k1),
            bit(v, bi('+', a, k1)), mem(m, bi('-', a, k1)), mem(m, mem(m, a)), bit(v, bit(a, k1)),
            sys('signed', a), sys('unsigned', b), sys('signed', bi('+', a, b)), sys('time', a), sys('unsigned', cond(c, a, b)),
            leaf('P'), bi('+', leaf('P'), a), part(leaf('P'), k1, k0),
            mem(m, cond(c, a, b))]
    # each construct with each other as operand
    outer = [lambda x: bi('+', x, b), lambda x: bi('-', a, x), lambda x: un('~', x), lambda x: un('|', x), lambda x: cond(x, a, b),
             lambda x: cond(d, x, b), lambda x: cond(d, a, x), lambda x: cat(x, a), lambda x: cat(a, x, b), lambda x: rep(2, x),
             lambda x: bi('<', x, b), lambda x: bi('&&', c, x), lambda x: bi('>>', x, k1), lambda x: sys('signed', x)]
    inner = [bi('*', a, e), un('!', c), un('-', a), cond(c, a, b), cond(c, k1, e), cat(a, b), rep(2, a), part(v, k3, k1), bit(v, k2), mem(m, a),
             bi('==', a, k1), bi('||', c, e), k2, cond(cond(c, d, e), a, b), cond(c, cond(e, a, b), k3)]
    for f in outer:
        for x in inner:
            out.append(f(x))
    for o in BIN:           # a conditional on either side, and on both
        out += [bi(o, cond(c, a, b), d), bi(o, d, cond(c, a, b))]
        if tier == 'thorough':
            out += [bi(o, cond(c, a, b), cond(e, d, a)), bi(o, bi('+', a, b), bi(o, a, d)), bi(o, un('~', a), cat(a, b))]
    for o in UN:
        out.append(un(o, cond(c, a, b)))
    out += [bi('-', cond(c, a, b), cond(e, d, a)), cat(cond(c, a, b), cond(e, d, a)), bi('-', bi('-', a, b), d),
            bi('-', a, bi('-', b, d)), cond(c, cond(d, a, b), cond(e, b, a)), cat(a, cond(c, a, b), b, cond(c, b, a)),
            cat(cond(c, a, b), a, d), bi('+', cat(cond(c, a, b), d), un('-', cond(e, a, b)))]
    if tier == 'thorough':
        for f in outer:
            for g in outer[:10]:
                for x in inner[:9]:
                    out.append(f(g(x)))
    seen = {}
    for x in out:
        seen.setdefault(x[0], x)
    return list(seen.values())


HEAD = ('input CLK, input [3:0] a, input [3:0] b, input c, input d, input e, input [7:0] v')
DECL = 'reg [3:0] m [0:7];\nparameter P = 5;\n'


def difference(want, tree, bs=None):
    """First outcome under which the tree's value is not the expression's."""
    want = strip(want)
    todo = [{}]
    n = 0
    while todo:
        known = todo.pop()
        n += 1
        if n > 600:
            return None
        try:
            w = strip(value(want, lambda x: ('T', x), known))
            try:
                g = strip(tree_outcome(tree, bs or {}, known, ()) if tree is not None else None)
            except Malformed as x:
                return 'malformed: %s' % x
            if w != g:
                return '%s instead of %s%s' % (S.text(g), S.text(w), ''.join(
                    ' when %s is %s' % (S.text(x), y) for x, y in known.items()))
        except Need as x:
            for y in (True, False):
                todo.append(dict(known, **{}) | {x.atom: y})
    return None


def strip(t):
    """Unary plus is its operand; a one-element concatenation its element."""
    if not isinstance(t, tuple):
        return t
    if t[:2] == ('op', 'Uplus'):
        return strip(t[2])
    r = tuple(strip(x) for x in t)
    if r and r[0] == 'cat' and len(r) == 2:
        return r[1]
    return r


def judge(names, wants, pick):
    def j(run):
        bs = S.binds(run)
        for l in bs.values():
            for x in l:
                x.tree = strip(x.tree)
        for n, w in zip(names, wants):
            l = [x for x in bs.get('TOP.' + n, [])]
            if len(l) != 1 or l[0].msb is not None:
                return '%d bindings of %s' % (len(l), n)
            m = difference(w[1], pick(l[0].tree), bs)
            if m is not None:
                return 'the tree of %s is %s' % (w[0], m)
        return None
    return j


def context(ctx, name, es, item, pick, where, noreorder=False, wrap='%s', n=10):
    """One program per n expressions."""
    out = []
    for i in range(0, len(es), n):
        grp = es[i:i + n]
        names = ['w%d' % j for j in range(len(grp))]
        decl = ''.join('reg [31:0] %s;\n' % x if 'assign' not in item else 'wire [31:0] %s;\n' % x for x in names)
        body = wrap % ''.join(item % dict(n=x, e=y[0]) for x, y in zip(names, grp))
        text = 'module TOP(%s);\n%s%s%s\nendmodule\n' % (HEAD, DECL, decl, body)
        key = '%s:%s' % (name, short(grp[0][0], 60) if len(grp) == 1 else '%s .. %s' % (short(grp[0][0], 40), short(grp[-1][0], 40)))
        out.append(Shape('expr', key, text, judge(names, grp, pick), where, 'an expression becomes another dataflow tree',
                         noreorder=noreorder))
    return out


def branch_cond(t):
    return t[1] if t is not None and t[0] == '?' else t


def params(ctx):
    """Constant expressions evaluated statically by both visitors: parameter values select generate branches and widths."""
    out = []
    ops = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x // y,
           '%': lambda x, y: x % y, '<<': lambda x, y: x << y, '>>': lambda x, y: x >> y, '&': lambda x, y: x & y,
           '|': lambda x, y: x | y, '^': lambda x, y: x ^ y, '<': lambda x, y: int(x < y), '>': lambda x, y: int(x > y),
           '<=': lambda x, y: int(x <= y), '>=': lambda x, y: int(x >= y), '==': lambda x, y: int(x == y),
           '!=': lambda x, y: int(x != y), '&&': lambda x, y: int(bool(x and y)), '||': lambda x, y: int(bool(x or y)),
           '**': lambda x, y: x ** y}
    cases = []
    for o, f in ops.items():
        for x, y in ((6, 2), (3, 3), (9, 4)):
            cases.append(('%d %s %d' % (x, o, y), f(x, y)))
    cases += [('1 ? 4 : 5', 4), ('0 ? 4 : 5', 5), ('(6 > 2) ? 7 : 1', 7), ('!0', 1), ('!3', 0), ('$signed(6)', 6), ('$unsigned(3)', 3),
              ("8'hF0 >> 4", 15), ("4'b1010", 10), ("'o17", 15), ("12'd4_2", 42)]
    for i, (t, w) in enumerate(cases):
        def j(run, w=w):
            bs, ts = S.binds(run), S.terms(run)
            have = sorted(n for n in bs if n.split('.')[-1] in ('q', 'r'))
            if len(have) != 1 or not have[0].endswith('q'):
                return 'generate picks %s' % have
            if not any(x.endswith('G.q') for x in ts):
                return 'signals %s' % sorted(ts)
            return None
        text = ('module TOP(input a);\nparameter A = %s;\nlocalparam B = A;\ngenerate if (B == %d) begin : G\n wire q; assign q = a; end '
                'else begin : H\n wire r; assign r = a; end endgenerate\nendmodule\n' % (t, w))
        out.append(Shape('constant', t, text, j, locate(ctx.repo, 'dataflow.signalvisitor.SignalVisitor.makeDFTree'),
                         'a constant expression is evaluated wrongly'))
    return out


def check(ctx):
    P = pipeline(ctx)
    es = exprs(ctx.tier)
    few = es if ctx.tier == 'thorough' else es[:75:2] + es[75::5]
    w = locate(ctx.repo, BV + 'makeDFTree')
    same = lambda t: t
    todo = context(ctx, 'assign', es, 'assign %(n)s = %(e)s;\n', same, w)
    todo += context(ctx, 'assign without reordering', few, 'assign %(n)s = %(e)s;\n', same, w, noreorder=True)
    todo += context(ctx, 'declaration', few[::3], 'assign %(n)s = %(e)s;\n', same, w)
    todo += context(ctx, 'nonblocking', few, '%(n)s <= %(e)s;\n', same, w, wrap='always @(posedge CLK) begin\n%s end')
    todo += context(ctx, 'blocking', few, '%(n)s = %(e)s;\n', same, w, wrap='always @* begin\n%s end')
    good = [x for x in few if "'" not in x[0] and '"' not in x[0] and '.' not in x[0]]
    cs = [cond(x, a, b) for x in good]
    todo += context(ctx, 'if condition', [(x[0], y[1]) for x, y in zip(good, cs)],
                    'if (%(e)s) %(n)s <= a; else %(n)s <= b;\n', same, w, wrap='always @(posedge CLK) begin\n%s end')
    todo += context(ctx, 'case subject', [(x[0], ('?', ('op', 'Eq', x[1], I(1)), a[1], b[1])) for x in good],
                    'case (%(e)s) 1: %(n)s <= a; default: %(n)s <= b; endcase\n', same, w,
                    wrap='always @(posedge CLK) begin\n%s end')
    todo += context(ctx, 'case label', [(x[0], ('?', ('op', 'Eq', e[1], x[1]), a[1], b[1])) for x in good],
                    'case (e) %(e)s: %(n)s <= a; default: %(n)s <= b; endcase\n', same, w,
                    wrap='always @(posedge CLK) begin\n%s end')
    todo += params(ctx)
    from .c11 import calls
    todo += calls(ctx)
    run_all(ctx, P, todo)
    ctx.floor('call', 60)
    ctx.floor('expr', 60)
    ctx.floor('constant', 40)
