"""Procedural blocks over uninterpreted words: the parser's actions and the dataflow visitors are interpreted from source
on program shapes; for every combination of outcomes of the tested conditions, the value that the stored decision
tree of each signal selects must be the value that executing the block assigns (nonblocking: last assignment
with values read at the start; blocking: values read at the point of use).  A function call has the value its body gives wherever it is called from; the body of a
function, task or initial block that nothing calls drives nothing; the clock and reset recorded for a block are those named in
its event list; generate constructs make exactly the assignments they unroll to."""
import itertools
import random

from .. import dfshape as S
from ..flow import T, I, compare, op, stext, tree_outcome
from ..shapes import Shape, locate, pipeline, run_all, short

ASSUMPTIONS = ['Signals are whole words; a condition is an uninterpreted truth value, and equal condition expressions have equal truth.',
               'for bounds are constants, so loops unroll.']

HEAD = ('module TOP(input CLK, input RST, input [3:0] a, input [3:0] b, input c, input d, input e, '
        'output reg [3:0] q, output reg [3:0] r);\nreg [3:0] s, t; integer i;\n')
NAMES = ['q', 'r', 's', 't']
BV = 'dataflow.bindvisitor.BindVisitor.'
WHERE = {'if': BV + 'visit_IfStatement', 'case': BV + 'visit_CaseStatement', 'casex': BV + 'visit_CasexStatement',
         'casez': BV + 'visit_CasezStatement', 'unique case': BV + 'visit_UniqueCaseStatement',
         'for': BV + 'visit_ForStatement', 'while': BV + 'visit_WhileStatement', 'blk': BV + 'visit_Block',
         'nblk': BV + 'visit_Block', 'b': BV + 'visit_BlockingSubstitution', 'nb': BV + 'visit_NonblockingSubstitution'}


def kinds(s):
    """Statement kinds, control first."""
    k = [s[0]]
    if s[0] == 'if':
        k += kinds(s[2]) + (kinds(s[3]) if s[3] is not None else [])
    elif s[0] in ('blk', 'nblk'):
        for x in s[-1]:
            k += kinds(x)
    elif s[0] in ('case', 'casex', 'casez', 'unique case'):
        for _, x in s[2]:
            k += kinds(x)
    elif s[0] in ('for', 'while'):
        k += kinds(s[-1])
    return k


def written(s):
    """Names the statement assigns by blocking assignment."""
    if s[0] == 'b':
        return {s[1]}
    if s[0] == 'nb':
        return set()
    r = set()
    if s[0] == 'if':
        r = written(s[2]) | (written(s[3]) if s[3] is not None else set())
    elif s[0] in ('blk', 'nblk'):
        for x in s[-1]:
            r |= written(x)
    elif s[0] in ('for', 'while'):
        r = {s[1]} if s[0] == 'for' else set()
        r |= written(s[-1])
    else:
        for _, x in s[2]:
            r |= written(x)
    return r


def judge(stmt, names=NAMES):
    def j(run):
        d, n = compare(stmt, S.binds(run), names, 3000)
        if d is None:
            return None
        name, known, want, got = d
        return 'when %s, %s takes %s instead of %s' % (
            ', '.join('%s is %s' % (S.text(k), 'true' if v else 'false') for k, v in sorted(known.items(), key=str)) or 'always',
            name, got if isinstance(got, str) else S.text(got), S.text(want))
    return j


a, b, c, d, e, q, r, s, t = [T(x) for x in 'abcdeqrst']


def templates(A, B, C):
    """Control constructs around statements A, B, C."""
    return [
        ('if', c, A, None), ('if', c, A, B), ('if', op('Ulnot', d), A, B), ('if', c, A, ('if', d, B, None)),
        ('if', c, ('if', d, A, None), B), ('if', op('Land', c, d), A, B), ('if', op('Lor', c, d), A, B),
        ('case', a, [([I(0)], A), ([I(1)], B)]), ('case', a, [([I(0)], A), ([I(1), I(2)], B), (None, C)]),
        ('case', a, [(None, A), ([I(0)], B)]), ('case', a, [([b], A), (None, B), ([I(3)], C)]),
        ('casez', a, [([I(0)], A), (None, B)]), ('casex', a, [([I(0)], A), (None, B)]),
        ('unique case', a, [([I(0)], A), ([I(1)], B)]), ('blk', [A, B]), ('nblk', 'L', [A, B]),
        ('blk', [A, ('if', e, B, None)]), ('blk', [('if', e, B, C), A]),
    ]


def shapes(tier):
    N = [('nb', 'q', a), ('nb', 'q', b), ('nb', 'r', op('Plus', q, r))]
    M = [('b', 's', op('Plus', s, a)), ('b', 't', op('And', s, b)), ('b', 's', t)]
    X = [('b', 's', a), ('nb', 'q', op('Plus', s, q)), ('nb', 'q', s)]
    out = []
    for st in templates(*N) + templates(*M) + templates(*X):
        out.append(st)
    inner = lambda L: templates(*L)
    # two statements after one another, and one inside the other
    for L in (N, M, X):
        ts = inner(L)
        for i, t1 in enumerate(ts):
            for j, t2 in enumerate(ts):
                if tier == 'thorough' or (i * 7 + j * 3) % 5 == 0:
                    out.append(('blk', [t1, t2]))
                if i < 14 and (tier == 'thorough' or (i * 5 + j * 7) % 6 == 0):
                    out.append(templates(t2, L[1], L[2])[i])
                if i < 14 and (tier == 'thorough' or (i * 3 + j * 5) % 7 == 1):
                    out.append(templates(L[2], t2, L[0])[i])
    # loops
    inc = op('Plus', T('i'), I(1))
    for body in ([('b', 's', op('Plus', s, T('i')))], [('if', c, ('b', 's', op('Xor', s, a)), None)],
                 [('if', op('Eq', a, T('i')), ('nb', 'q', T('i')), None)], [('b', 's', op('And', s, b)), ('nb', 'q', s)],
                 [('case', a, [([T('i')], ('b', 's', b)), (None, ('b', 't', s))])]):
        for lo, cond in ((I(0), op('LessThan', T('i'), I(3))), (I(1), op('LessEq', T('i'), I(2)))):
            st = ('for', 'i', lo, cond, inc, ('blk', body))
            out.append(st)
            out.append(('blk', [('b', 's', a), st, ('nb', 'r', s)]))
            out.append(('if', d, st, ('b', 's', I(0))))
    return out


def changed_conditions(tier):
    """Conditions whose signals their own branches assign."""
    out = []
    outers = [lambda x: ('if', s, x, None), lambda x: ('if', op('Ulnot', s), ('nb', 'q', b), x), lambda x: ('if', op('Eq', s, I(1)), x, ('b', 't', a)),
              lambda x: ('case', s, [([I(0)], x), ([I(1)], ('nb', 'q', b)), (None, ('b', 't', a))]), lambda x: ('if', c, ('if', s, x, None), ('b', 's', b)),
              lambda x: ('if', s, ('if', c, x, ('nb', 'q', b)), None)]
    firsts = [('b', 's', b), ('b', 's', op('Plus', s, a)), ('b', 's', t), ('if', e, ('b', 's', b), None)]
    inners = [lambda x: ('if', d, x, None), lambda x: ('if', s, x, ('b', 't', b)), lambda x: ('case', s, [([I(0)], x), (None, ('nb', 'q', a))]),
              lambda x: ('if', t, ('if', s, x, None), None)]
    leaves = [('nb', 'q', a), ('b', 't', s), ('b', 's', a), ('nb', 'r', s)]
    for i, o in enumerate(outers):
        for j, f in enumerate(firsts):
            for k, n in enumerate(inners):
                for m, l in enumerate(leaves):
                    if tier != 'thorough' and (i + 2 * j + 3 * k + m) % 4:
                        continue
                    x = o(('blk', [f, n(l)]))
                    out.append(('blk', [('b', 's', c), x, ('nb', 'r', t)]) if (i + j + k) % 2 else x)
    return out


def random_shapes(n, mode, depth, seed):
    R = random.Random('%s-%d-%d' % (mode, depth, seed))

    def expr(k=1):
        x = R.random()
        if x < 0.5 or k == 0:
            return T(R.choice('abqr' + ('st' if 'b' in mode else '')))
        if x < 0.6:
            return I(R.randint(0, 3))
        if x < 0.9:
            return ('op', R.choice(['Plus', 'And']), expr(k - 1), expr(k - 1))
        return ('?', T(R.choice('cde')), expr(k - 1), expr(k - 1))

    def cond():
        x = R.random()
        if x < 0.6:
            return T(R.choice('cde'))
        if x < 0.75:
            return ('op', 'Ulnot', T(R.choice('cde')))
        if x < 0.85:
            return ('op', R.choice(['Land', 'Lor']), T(R.choice('cd')), T('e'))
        return ('op', 'Eq', T(R.choice('ab' if 'x' not in mode else 'abst')), I(R.randint(0, 1)))

    def stmt(k):
        x = R.random()
        if k == 0 or x < 0.25:
            if 'b' in mode and ('n' not in mode or R.random() < 0.5):
                return ('b', R.choice('st'), expr())
            return ('nb', R.choice('qr'), expr())
        if x < 0.55:
            return ('if', cond(), stmt(k - 1), stmt(k - 1) if R.random() < 0.6 else None)
        if x < 0.72:
            items = [([I(0)], stmt(k - 1)), ([I(1), I(2)], stmt(k - 1))]
            if R.random() < .6:
                items.insert(R.randint(0, 2), (None, stmt(k - 1)))
            return (R.choice(['case', 'casez', 'casex']), T(R.choice('ab')), items)
        return ('blk', [stmt(k - 1) for _ in range(R.randint(1, 3))])
    return [stmt(depth) for _ in range(n)]


def unique(s, cnt=None):
    """Gives every named block its own name."""
    cnt = [0] if cnt is None else cnt
    if s is None or s[0] in ('b', 'nb'):
        return s
    if s[0] == 'nblk':
        cnt[0] += 1
        n = 'L%d' % cnt[0]
        return ('nblk', n, [unique(x, cnt) for x in s[2]])
    if s[0] == 'blk':
        return ('blk', [unique(x, cnt) for x in s[1]])
    if s[0] == 'if':
        return ('if', s[1], unique(s[2], cnt), unique(s[3], cnt))
    if s[0] in ('for', 'while'):
        return s[:-1] + (unique(s[-1], cnt),)
    return (s[0], s[1], [(l, unique(x, cnt)) for l, x in s[2]])


def block(ctx, kind, st):
    st = unique(st)
    text = '%s%s\n%sendmodule\n' % (HEAD, kind, stext(st))
    ks = kinds(st)
    w = next((WHERE[k] for k in ks if k not in ('b', 'nb', 'blk')), WHERE[ks[0]])
    return Shape('flow', short(kind + ' ' + stext(st)), text, judge(st), locate(ctx.repo, w),
                 'the decision tree of a signal differs from what the block assigns')


CLOCKS = [('posedge CLK', (('TOP.CLK', 'posedge', 0, None, None, None, 0))),
          ('negedge CLK', (('TOP.CLK', 'negedge', 0, None, None, None, 0))),
          ('posedge CLK or negedge RST', ('TOP.CLK', 'posedge', 0, 'TOP.RST', 'negedge', 0, 0)),
          ('posedge CLK, posedge RST', ('TOP.CLK', 'posedge', 0, 'TOP.RST', 'posedge', 0, 0)),
          ('posedge RST or negedge CLK', ('TOP.CLK', 'negedge', 0, 'TOP.RST', 'posedge', 0, 0)),
          ('posedge CLKV[2]', ('TOP.CLKV', 'posedge', 2, None, None, None, 0)),
          ('posedge CLKV[3] or negedge RSTV[1]', ('TOP.CLKV', 'posedge', 3, 'TOP.RSTV', 'negedge', 1, 0)),
          ('*', (None, None, None, None, None, None, 0)),
          ('a or b', (None, None, None, None, None, None, 2)),
          ('a, b, c', (None, None, None, None, None, None, 3))]


def clock_shape(ctx, sens, want, body, kind):
    def j(run):
        bs = S.binds(run)
        for n in ('TOP.q', 'TOP.s'):
            for x in bs.get(n, []):
                if x.always != want and not (want[0] is None and want[3] is None and want[6] == 0 and x.always is None):
                    return '%s is recorded with %s instead of %s (clock, edge, bit, reset, edge, bit, others)' % (
                        n, x.always, want)
        if not any(n in bs for n in ('TOP.q', 'TOP.s')):
            return 'no binding'
        return None
    text = HEAD.replace('input RST,', 'input RST, input [3:0] CLKV, input [3:0] RSTV,') + \
        '%s @(%s)\n%sendmodule\n' % (kind, sens, stext(body))
    return Shape('clock', short('%s @(%s) %s' % (kind, sens, stext(body))), text, j,
                 locate(ctx.repo, BV + '_createAlwaysinfo'), 'clock and reset of the block are recorded wrongly')


def func_shape(ctx, name, body, call, stmt):
    """q = f(..): the value of the call is the value the body assigns to f."""
    text = HEAD + 'function [3:0] f;\n input [3:0] x; input [3:0] y;\n%s\nendfunction\n' % body + \
        'always @*\n  %s\nendmodule\n' % call
    return Shape('function', name, text, judge(stmt, ['s']), locate(ctx.repo, BV + 'makeDFTree'),
                 'the value of a function call differs from what its body assigns')


def functions(ctx):
    out = []
    bodies = [
        ('f = x + y;', lambda x, y: ('b', 's', op('Plus', x, y))),
        ('if (x) f = x; else f = y;', lambda x, y: ('if', x, ('b', 's', x), ('b', 's', y))),
        ('begin f = x; if (y) f = y; end', lambda x, y: ('if', y, ('b', 's', y), ('b', 's', x))),
        ('case (x) 0: f = y; 1, 2: f = x; default: f = 3; endcase',
         lambda x, y: ('case', x, [([I(0)], ('b', 's', y)), ([I(1), I(2)], ('b', 's', x)), (None, ('b', 's', I(3)))])),
        ('casez (x) 0: f = y; default: f = x; endcase',
         lambda x, y: ('case', x, [([I(0)], ('b', 's', y)), (None, ('b', 's', x))])),
        ('begin f = x & y; f = f | x; end', lambda x, y: ('b', 's', op('Or', op('And', x, y), x))),
    ]
    for i, (body, ref) in enumerate(bodies):
        out.append(func_shape(ctx, 'call %s' % body, body, 's = f(a, b);', ref(a, b)))
        out.append(func_shape(ctx, 'swapped call %s' % body, body, 's = f(b, a);', ref(b, a)))
        out.append(func_shape(ctx, 'constant argument %s' % body, body, 's = f(a, 1);', ref(a, I(1))))
        out.append(func_shape(ctx, 'under if %s' % body, body, 'if (c) s = f(a, b); else s = f(b, d);',
                              ('if', c, ref(a, b), ref(b, d))))
        f = 'function [3:0] f;\n input [3:0] x; input [3:0] y;\n%s\nendfunction\n' % body
        loop = 'generate for (g = 0; g < 1; g = g + 1) begin : L\n%s\nend endgenerate\n'
        for n, text, v in (('assign', f + 'assign w = f(a, b);\n', 'w'), ('assign in a generate loop', f + loop % 'assign w = f(a, b);', 'w'),
                           ('always in a generate loop', f + loop % 'always @* s = f(a, b);', 's'), ('own function of a generate loop', loop % (f + 'assign w = f(a, b);'), 'w'),
                           ('own function and always of a generate loop', loop % (f + 'always @* s = f(a, b);'), 's'), ('generate before function', loop % 'assign w = f(a, b);' + f, 'w')):
            def sub(st):
                return tuple(sub(x) if isinstance(x, tuple) else [sub(y) for y in x] if isinstance(x, list) else v if x == 's' else x for x in st)
            out.append(Shape('function', '%s %s' % (n, body), HEAD + 'wire [3:0] w; genvar g;\n' + text + 'endmodule\n', judge(sub(ref(a, b)), [v]), locate(ctx.repo, BV + 'makeDFTree'),
                             'the value of a function call differs from what its body assigns'))
    for n, decl, loc in (('integer', '', 'integer k;'), ('reg', '', 'reg [3:0] k;'), ('module integer', 'integer k;\n', '')):
        for m, body, rounds in (('loop', 'begin f = 0; for (k = 0; k < 3; k = k + 1) f = f + x; if (y) f = y; end', 3),
                                ('loop with a block', 'begin f = 0; for (k = 1; k < 3; k = k + 1) begin f = f + x; end if (y) f = y; end', 2),
                                ('loop with a named block', 'begin f = 0; for (k = 1; k < 3; k = k + 1) begin : lb f = f + x; end if (y) f = y; end', 2)):
            for w, use, v in (('assign', 'assign w = f(a, b);\n', 'w'), ('always', 'always @* s = f(a, b);\n', 's')):
                t = I(0)
                for _ in range(rounds):
                    t = op('Plus', t, a)
                text = HEAD + 'wire [3:0] w;\n' + decl + 'function [3:0] f;\n input [3:0] x; input [3:0] y; %s\n%s\nendfunction\n' % (loc, body) + use + 'endmodule\n'
                out.append(Shape('function', '%s over a %s, %s' % (m, n, w), text, judge(('if', b, ('b', v, b), ('b', v, t)), [v]), locate(ctx.repo, BV + 'makeDFTree'),
                                 'the value of a function call differs from what its body assigns'))
    return out


PORTS = [('separate', '(W)', 'input [3:0] x; input [3:0] y;', 'xy'), ('one declaration', '', 'input [3:0] x, y;', 'xy'),
         ('wide last', '', 'input x; input [3:0] y;', 'xy'), ('wide first', '', 'input [3:0] x; input y;', 'xy'),
         ('no ranges', '', 'input x; input y;', 'xy'), ('other order of names', '', 'input [3:0] y; input [3:0] x;', 'yx'),
         ('other order, wide last', '', 'input y; input [7:0] x;', 'yx'), ('other order, wide first', '', 'input [7:0] y; input x;', 'yx'),
         ('signed', '', 'input signed [3:0] x; input [3:0] y;', 'xy')]


def calls(ctx, rule='call'):
    """Which argument of a call each input of the function gets."""
    out = []
    one = op('Minus', T('x'), T('y'))

    def sub(t, env):
        return env.get(t[1].split('.')[-1], t) if t[0] == 'T' else tuple(sub(x, env) if isinstance(x, tuple) else x for x in t)

    def add(name, funcs, call, want):
        text = HEAD + funcs + 'always @*\n  s = %s;\nendmodule\n' % call
        out.append(Shape(rule, name, text, judge(('b', 's', want), ['s']), locate(ctx.repo, BV + 'makeDFTree'),
                         'the inputs of a function get other values than the arguments of the call'))
    for n, _, ports, order in PORTS:
        f = 'function [3:0] f;\n %s\n f = x - y;\nendfunction\n' % ports
        F = lambda *args: sub(one, dict(zip(order, args)))
        add('%s: f(a, b)' % n, f, 'f(a, b)', F(a, b))
        add('%s: f(b, a)' % n, f, 'f(b, a)', F(b, a))
        add('%s: f(a, a)' % n, f, 'f(a, a)', F(a, a))
        add('%s: f(f(a, b), d)' % n, f, 'f(f(a, b), d)', F(F(a, b), d))
        add('%s: f(a, f(b, d))' % n, f, 'f(a, f(b, d))', F(a, F(b, d)))
        add('%s: f(a, b) & f(b, d)' % n, f, 'f(a, b) & f(b, d)', op('And', F(a, b), F(b, d)))
        add('%s: f(a + b, 2)' % n, f, 'f(a + b, 2)', F(op('Plus', a, b), I(2)))
        add('%s: f(c ? a : b, d)' % n, f, 'f(c ? a : b, d)', F(('?', c, a, b), d))
    three = 'function [3:0] f;\n input x; input [3:0] y; input [1:0] z;\n f = x - (y - z);\nendfunction\n'
    G = lambda p, q_, r_: op('Minus', p, op('Minus', q_, r_))
    for x, y, z in itertools.permutations((('a', a), ('b', b), ('d', d))):
        add('three inputs: f(%s, %s, %s)' % (x[0], y[0], z[0]), three, 'f(%s, %s, %s)' % (x[0], y[0], z[0]), G(x[1], y[1], z[1]))
    two = 'function [3:0] f;\n input [3:0] x; input y;\n f = x - y;\nendfunction\n' \
          'function [3:0] g;\n input y; input [3:0] x;\n g = f(x, y);\nendfunction\n'
    add('a function calls another with the same names', two, 'g(a, b)', op('Minus', b, a))
    add('a name of the module is that of an input', 'function [3:0] f;\n input [3:0] b; input a;\n f = a - b;\nendfunction\n', 'f(a, b)', op('Minus', b, a))
    add('an input and a signal of the module', 'function [3:0] f;\n input [3:0] a;\n f = a - b;\nendfunction\n', 'f(d)', op('Minus', d, b))
    return out


class Known(dict):
    """Conditions over the constants P = 1, Z = 0, W = 2 and N = -3."""

    def __contains__(self, e):
        return True

    def __getitem__(self, e):
        def val(x):
            if x[0] == 'T':
                return {'TOP.P': 1, 'TOP.Z': 0, 'TOP.W': 2, 'TOP.N': -3}[x[1]]
            if x[0] == 'K':
                t = x[-1] if isinstance(x[-1], str) else str(x[2])
                return int(t.split("'h")[1], 16) if "'h" in t else int(t)
            if x[0] == 'V':
                return x[1]
            if x[0] == '?':
                return val(x[2] if val(x[1]) else x[3])
            v = [val(y) for y in x[2:]]
            p, q = v[0], v[-1]
            return {'Eq': lambda: p == q, 'NotEq': lambda: p != q, 'GreaterThan': lambda: p > q, 'GreaterEq': lambda: p >= q, 'LessEq': lambda: p <= q, 'LessThan': lambda: p < q,
                    'Plus': lambda: p + q, 'Minus': lambda: p - q, 'Times': lambda: p * q, 'Mod': lambda: p % q, 'And': lambda: p & q, 'Or': lambda: p | q, 'Land': lambda: p and q, 'Lor': lambda: p or q,
                    'Sll': lambda: p << q, 'Srl': lambda: p >> q, 'Ulnot': lambda: not p, 'Uminus': lambda: -p}[x[1]]()
        return bool(val(e))


def generates(ctx):
    """Generate constructs are resolved statically."""
    out = []

    def g(name, text, want):
        def j(run):
            bs = dict((k, v) for k, v in S.binds(run).items())
            have = {}
            for n, l in bs.items():
                for x in l:
                    if x.kind in ('parameter', 'localparam') or n in ('TOP.i', 'TOP.j') or n.endswith(('_i', '_j')):
                        continue
                    t = tree_outcome(x.tree, {}, Known(), ())
                    have[repr(x).split(' <- ')[0].replace(' (assign)', '')] = S.text(t)
            if have != want:
                return 'bindings %s instead of %s' % (sorted(have.items()), sorted(want.items()))
            return None
        out.append(Shape('generate', name, 'module TOP(input [3:0] a, input [3:0] b, output [3:0] q, output [3:0] r);\n'
                         'parameter P = 1; localparam Z = 0; localparam W = 2; localparam N = -3; genvar i, j;\n%s\nendmodule\n' % text, j,
                         locate(ctx.repo, BV + 'visit_IfStatement', BV + 'visit_GenerateStatement'),
                         'a generate construct is elaborated wrongly'))
    for k, c1, v in (('P', 'P', 1), ('Z', 'Z', 0), ('P == 1', 'P == 1', 1), ('P > 1', 'P > 1', 0), ('P != 0', 'P != 0', 1),
                     ('!Z', '!Z', 1), ('P <= 1', 'P <= 1', 1), ('Z && P', 'Z && P', 0), ('Z || P', 'Z || P', 1), ('W', 'W', 1), ('W - P', 'W - P', 1), ('P - W', 'P - W', 1), ('-P', '-P', 1),
                     ('W & P', 'W & P', 0), ('W | P', 'W | P', 1), ('4', '4', 1), ('0', '0', 0), ('W - 2', 'W - 2', 0), ('W * W', 'W * W', 1), ('W == 2 ? Z : P', 'W == 2 ? Z : P', 0), ('N', 'N', 1),
                     ('W << P', 'W << P', 1), ('W >> W', 'W >> W', 0), ('W > P && !Z', 'W > P && !Z', 1), ('N < 0', 'N < 0', 1), ('16', "8'h10", 1), ('W % 2', 'W % 2', 0)):
        g('if (%s) else' % k, 'generate if (%s) assign q = a; else assign q = b; endgenerate' % c1,
          {'TOP.q': 'TOP.a' if v else 'TOP.b'})
        g('if (%s) begin' % k, 'generate if (%s) begin : G\n assign q = a; end else begin : H\n assign r = b; end endgenerate' % c1,
          {'TOP.q': 'TOP.a'} if v else {'TOP.r': 'TOP.b'})
        g('if (%s)' % k, 'generate if (%s) assign q = a; endgenerate' % c1, {'TOP.q': 'TOP.a'} if v else {})
    for lo, hi, cmp_ in ((0, 3, '<'), (1, 3, '<='), (2, 3, '<'), (0, 0, '<')):
        rng = range(lo, hi + (1 if cmp_ == '<=' else 0))
        g('for %d %s %d' % (lo, cmp_, hi),
          'generate for (i = %d; i %s %d; i = i + 1) begin : G\n assign q[i] = a[i]; end endgenerate' % (lo, cmp_, hi),
          dict(('TOP.q[=%d:=%d]' % (i, i), 'TOP.a[%d:%d]' % (i, i)) for i in rng))
    for k, v in (('W == 1', 2), ('W == 2', 1), ('W - 2', 3), ('Z', 3)):
        pick = 'TOP.a' if v == 1 else 'TOP.b'
        chain = 'if (%s) assign q = a; else if (W) assign q = b; else assign r = a;' % k
        g('else if after %s' % k, 'generate %s endgenerate' % chain, {'TOP.q': pick})
    g('nested if', 'generate if (W) begin : G if (Z) begin : H assign q = a; end else begin : K assign r = b; end end endgenerate', {'TOP.r': 'TOP.b'})
    for n, c, f in (('i', 'i', lambda i: i), ('i == 2', 'i == 2', lambda i: i == 2), ('i > 1', 'i > 1', lambda i: i > 1), ('i % 2', 'i % 2', lambda i: i % 2), ('i - 1', 'i - 1', lambda i: i != 1), ('i < W', 'i < W', lambda i: i < 2)):
        g('if (%s) in a loop' % n, 'generate for (i = 0; i < 4; i = i + 1) begin : G\n if (%s) begin : H assign q[i] = a[i]; end else begin : K assign q[i] = b[i]; end end endgenerate' % c,
          dict(('TOP.q[=%d:=%d]' % (i, i), 'TOP.%s[%d:%d]' % ('a' if f(i) else 'b', i, i)) for i in range(4)))
    g('loop down', 'generate for (i = 3; i > 0; i = i - 1) begin : G\n assign q[i] = a[i]; end endgenerate', dict(('TOP.q[=%d:=%d]' % (i, i), 'TOP.a[%d:%d]' % (i, i)) for i in (3, 2, 1)))
    g('loop to zero', 'generate for (i = 3; i; i = i - 1) begin : G\n assign q[i] = a[i]; end endgenerate', dict(('TOP.q[=%d:=%d]' % (i, i), 'TOP.a[%d:%d]' % (i, i)) for i in (3, 2, 1)))
    g('loop from below zero', 'generate for (i = N; i; i = i + 1) begin : G\n assign q[i + 3] = a[i + 3]; end endgenerate', dict(('TOP.q[=%d:=%d]' % (i, i), 'TOP.a[%d:%d]' % (i, i)) for i in (0, 1, 2)))
    g('loop by two', 'generate for (i = 0; i < 4; i = i + W) begin : G\n assign q[i] = a[i]; end endgenerate', dict(('TOP.q[=%d:=%d]' % (i, i), 'TOP.a[%d:%d]' % (i, i)) for i in (0, 2)))
    g('loop to inequality', 'generate for (i = 0; i != 3; i = i + 1) begin : G\n assign q[i] = a[i]; end endgenerate', dict(('TOP.q[=%d:=%d]' % (i, i), 'TOP.a[%d:%d]' % (i, i)) for i in (0, 1, 2)))
    g('loop without a pass', 'generate for (i = 3; i < 3; i = i + 1) begin : G\n assign q[i] = a[i]; end endgenerate', {})
    g('two loops', 'generate for (i = 0; i < 2; i = i + 1) begin : G\n assign q[i] = a[i]; end\nfor (i = 0; i < 2; i = i + 1) begin : H\n assign r[i] = b[i]; end endgenerate',
      dict([('TOP.q[=%d:=%d]' % (i, i), 'TOP.a[%d:%d]' % (i, i)) for i in (0, 1)] + [('TOP.r[=%d:=%d]' % (i, i), 'TOP.b[%d:%d]' % (i, i)) for i in (0, 1)]))
    g('loop in a loop', 'generate for (i = 0; i < 2; i = i + 1) begin : G\n for (j = 0; j < 2; j = j + 1) begin : H\n assign q[2 * i + j] = a[i]; end end endgenerate',
      dict(('TOP.q[=%d:=%d]' % (2 * i + j, 2 * i + j), 'TOP.a[%d:%d]' % (i, i)) for i in (0, 1) for j in (0, 1)))
    return out


def inert(ctx):
    """Functions, tasks and initial blocks drive nothing by themselves."""
    out = []
    bodies = ['r = 0;', 'r <= b;', 'begin r = 0; r = b; end', 'if (a) r = 1; else r = t;', 'if (a) begin r = 1; t = r; end', 'case (a) 1: r = 2; default: r = 3; endcase',
              'casez (a) 1: r = 2; 2, 3: begin t = r; r = t; end endcase', 'for (i = 0; i < 4; i = i + 1) r = r + i;', 'begin for (i = 0; i < 2; i = i + 1) t[i] = a[i]; r = t; end',
              'while (i) i = i - 1;', 'begin t = r; if (t) r = b; else if (a) r <= t; t = a; end', 'begin r[1] = a; r[3:2] = b; {r, t} = a + b; end']
    places = [('initial', 'initial %s\n'), ('two initial', 'initial %s\ninitial r = t;\n'), ('block', 'initial begin %s end\n'), ('task', 'task u; input p; begin %s end endtask\n'),
              ('function', 'function [3:0] f; input [3:0] p; begin f = p; %s end endfunction\n'), ('in a generate block', 'generate if (1) begin : G\ninitial %s\nend endgenerate\n')]
    for n, pl in places:
        for b_ in bodies:
            for first in (False, True):
                own = 'always @(posedge k) r <= a;\nassign o = b;\n'
                text = 'module TOP(input k, input [3:0] a, input [3:0] b, output reg [3:0] r, output [3:0] o);\ninteger i; reg [3:0] t;\n%sendmodule\n' % (
                    own + pl % b_ if first else pl % b_ + own)

                def j(run):
                    bs = S.binds(run)
                    want = {'TOP.r': 'TOP.a', 'TOP.o': 'TOP.b'}
                    for x in bs:
                        if x not in want:
                            return '%s gets a binding' % x
                    for x, y in want.items():
                        got = [S.text(z.tree) for z in bs.get(x, [])]
                        if got != [y]:
                            return '%s gets %s instead of %s' % (x, got, y)
                    return None
                out.append(Shape('inert', '%s %s%s' % (n, short(b_, 60), ' after the drivers' if first else ''), text, j, locate(ctx.repo, BV + 'visit_Initial', BV + 'visit_Function', BV + 'visit_Always'),
                                 'a function, task or initial block drives a signal'))
    return out


def check(ctx):
    P = pipeline(ctx)
    todo = []
    kinds_ = ['always @(posedge CLK)', 'always @*', 'always_ff @(posedge CLK)', 'always_comb', 'always_latch']
    N = [('nb', 'q', a), ('nb', 'q', b), ('nb', 'r', op('Plus', q, r))]
    for st in shapes(ctx.tier):
        todo.append(block(ctx, kinds_[0], st))
    for k in kinds_[1:]:
        for st in templates(*N)[:9]:
            todo.append(block(ctx, k, st))
    for st in changed_conditions(ctx.tier):
        todo.append(block(ctx, kinds_[0], st))
    big = ctx.tier == 'thorough'
    for mode, depth, n in (('n', 3, 40), ('b', 3, 40), ('nb', 3, 60), ('n', 4, 16), ('nb', 4, 16), ('nbx', 2, 24)) + (
            (('n', 4, 300), ('b', 4, 300), ('nb', 4, 400), ('nbx', 3, 200), ('n', 5, 60)) if big else ()):
        for st in random_shapes(n, mode, depth, 1 if n < 100 else 2):
            todo.append(block(ctx, kinds_[0], st))
    bodies = [('nb', 'q', a), ('b', 's', a), ('if', c, ('nb', 'q', a), ('nb', 'q', b)),
              ('blk', [('b', 's', a), ('if', d, ('b', 's', s), None), ('nb', 'q', s)])]
    for sens, want in CLOCKS:
        for body in bodies:
            todo.append(clock_shape(ctx, sens, want, body, 'always'))
        if 'CLK' in sens:
            todo.append(clock_shape(ctx, sens, want, bodies[0], 'always_ff'))
    for ck, rs in (('clk', 'rst'), ('CLOCK', 'RESET'), ('Clk', 'Rst_N'), ('i_clk', 'i_rst_n'), ('clk_50m', 'nReset'), ('sysclock0', 'arst'), ('pixClock', 'sys_reset_x'), ('CLK2', 'RSTX')):
        x = clock_shape(ctx, 'posedge %s or negedge %s' % (ck, rs), ('TOP.' + ck, 'posedge', 0, 'TOP.' + rs, 'negedge', 0, 0), bodies[0], 'always')
        x.text = x.text.replace('input CLK, input RST,', 'input %s, input %s,' % (ck, rs))
        todo.append(x)
    todo += functions(ctx) + calls(ctx, 'function') + generates(ctx) + inert(ctx)
    seen = {}
    for x in todo:
        seen.setdefault((x.rule, x.key), x)
    run_all(ctx, P, list(seen.values()))
    ctx.floor('flow', 300)
    ctx.floor('clock', 20)
    ctx.floor('function', 20)
    ctx.floor('generate', 20)
    ctx.floor('inert', 80)
