"""The functions that fold constants (literals, operators, concatenations, selects), compute widths and resolve parameters are
interpreted from source on enumerated literals, operand values and trees, and their results compared with the Verilog tables."""
import itertools
import re

from .. import dfshape as S
from .. import dftree as D
from ..dfrun import Failed, Undecided
from ..dfshape import Opaque
from ..dftree import BOOL, COMPARE, ONE_BIT, Bad, Meaning, fold, text
from ..engine import Budget, K, RaiseSig, show
from ..par import pmap
from ..repo import AnalysisBroken
from ..shapes import Shape, locate, pipeline, run_all, short
from .c17 import BIN, CONST, OPT, SIG, UN, Setup, a, b, bit, br, c, cat, d, e, k, op, p, part, r, un, w

ASSUMPTIONS = ['Integers are unbounded as the tool folds them: an operator result is not truncated to the operand width, a literal is truncated to its size.',
               'A word without size is 32 bits wide.']
DF = 'dataflow.dataflow.'


def literals():
    """(text, value or None, width)"""
    digits = {'b': [('0', 0), ('1', 1), ('1011', 11), ('10_11', 11), ('1__0_1', 5), ('1_', 1), ('0000_0001', 1), ('x', None), ('1x0', None), ('z', None), ('Z1', None), ('1?0', None), ('X', None), ('11111111', 255)],
              'o': [('0', 0), ('7', 7), ('17', 15), ('1_7', 15), ('x', None), ('7z', None), ('?', None), ('377', 255)],
              'd': [('0', 0), ('9', 9), ('10', 10), ('2_5', 25), ('2__5_', 25), ('x', None), ('Z', None), ('?', None), ('200', 200)],
              'h': [('0', 0), ('F', 15), ('b', 11), ('d', 13), ('1b', 27), ('bd', 189), ('aD', 173), ('D_e', 222), ('1__f_', 31), ('x', None), ('fX', None), ('z0', None), ('b?', None), ('0b1', 177), ('c', 12)]}
    out = []
    for base, ds in sorted(digits.items()):
        for size in ('', '1', '4', '8', '12', '16', '32', '40', '64'):
            for s in ('', 's', 'S'):
                for n, (t, v) in enumerate(ds):
                    bb = base if n % 2 else base.upper()
                    width = int(size) if size else 32
                    out.append(("%s'%s%s%s" % (size, s, bb, t), None if v is None else v % (1 << width), width))
    for t, v in (('0', 0), ('1', 1), ('7', 7), ('10', 10), ('1_000', 1000), ('4294967295', 4294967295), ('08', 8)):
        out.append((t, v, 32))
    return out


VALUES = [0, 1, 2, 3, 5, 8, 15, 31, -1, -3, -8]


def pairs(tier):
    """(operator, operands as V nodes)"""
    out = []
    ws = [(4, 4), (32, 32), (1, 8), (8, 2), (None, 4), (32, None)]
    for o in BIN:
        for i, (x, y) in enumerate(itertools.product(VALUES, VALUES)):
            if o in ('Power', 'Sll', 'Sla') and y > 31:
                continue
            for wx, wy in (ws if tier == 'thorough' else [ws[i % 6], ws[(i + 1) % 6]]):
                out.append((o, [('V', x, wx), ('V', y, wy)]))
    for o in UN:
        for x in VALUES:
            for wx in (1, 2, 4, 5, 8, 32, None):
                out.append((o, [('V', x, wx)]))
    return out


FLOATS = [(o, x, y) for o in ('Plus', 'Minus', 'Times', 'Divide', 'LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Land', 'Lor')
          for x, y in ((1.5, 2), (3, 0.5), (2.5, 2.5), (-1.5, 0.25), (0.0, 1), (4.0, 2))]


def fvalue(o, x, y):
    f = {'Plus': x + y, 'Minus': x - y, 'Times': x * y, 'Divide': x / y, 'LessThan': x < y, 'GreaterThan': x > y, 'LessEq': x <= y, 'GreaterEq': x >= y, 'Eq': x == y, 'NotEq': x != y,
         'Land': bool(x and y), 'Lor': bool(x or y)}[o]
    return int(f) if isinstance(f, bool) else f


def widths():
    out = [a, b, c, w, r, p, k(5), k("4'd3"), k("8'hff"), k("3'sb101"), ('V', 3, 7), ('V', 3, None), ('U', 5), ('H', 6), cat(a, w, c), cat(k("3'd1"), bit(w, 1)), part(w, 3, 1), part(r, 4, 2),
           bit(w, 2), ('[:]', w, c, c), ('[:]', w, a, a), ('[]', w, k(1)), ('[]', w, c), br(c, a, w), br(c, w, a), br(c, a, None), br(c, br(d, a, b), k("5'd1")), br(w, c, d),
           ('[:]', w, op('Plus', k(1), k(2)), k(1)), ('[:]', w, op('Minus', p, k(2)), k(0)), cat(op('Eq', a, w), a), cat(br(c, a, w), br(d, a, c)), part(cat(a, w), 4, 2)]
    for o in BIN:
        out += [op(o, a, w), op(o, w, c), op(o, op('And', a, w), c), op(o, cat(a, w), op('Eq', a, b))]
    for o in UN:
        out += [un(o, a), un(o, w), un(o, cat(a, w)), un(o, un('Unot', w)), cat(un(o, w), c)]
    return out


def constants():
    """Constant trees: concatenations, selects, conditionals, nested operators."""
    ks = [k("1'b1"), k("2'd2"), k("4'd9"), k("3'b000"), k("8'hA5"), p, un('Unot', k("3'd2")), un('Uminus', k("2'd1")), op('Plus', k("2'd3"), k("2'd3")), op('Eq', p, k(5)), 
          k("4'sd5"), k("6'o17")]
    out = []
    for x, y in itertools.product(ks, ks):
        out.append(cat(x, y))
    out += [cat(x, y, z) for x in ks[:4] for y in ks[3:8] for z in ks[5:9]]
    for x in ks + [cat(k("4'd9"), k("4'd6")), k(1234567), un('Uminus', k(3))]:
        for lo in (0, 1, 2, 3):
            for hi in range(lo, 5):
                out.append(('[:]', x, k(hi), k(lo)))
    out += [('[]', p, k(i)) for i in range(4)] + [('[]', p, op('Minus', k(2), k(1))), ('[:]', p, op('Plus', k(1), k(1)), op('Minus', k(2), k(2)))]
    for x in (k(0), k(1), k(2), k("1'b0"), p, op('Eq', p, k(5)), op('Minus', k(2), k(2)), un('Ulnot', p), un('Uminus', k(1))):
        out += [br(x, k(3), k(4)), br(x, br(un('Ulnot', x), k(5), k(6)), k(7)), op('Plus', br(x, k(1), k(2)), k(10))]
    for o, q in itertools.product(BIN, ('Plus', 'Minus', 'Times', 'And', 'Sll', 'LessThan', 'Eq')):
        out += [op(o, op(q, k(6), k(2)), k(3)), op(o, k(13), op(q, k(2), k(1))), op(o, p, op(q, p, k(1)))]
    return [t for t in out if not (t[0] == 'op' and t[1] == 'Power' and deep(t))]


def deep(t):
    try:
        v = Meaning(SIG, CONST).ev(t[3], {})[0]
    except Bad:
        return True
    return abs(v) > 64


def text_value(x):
    return x if isinstance(x, str) else '%s, %s bits wide' % x


def obligations(tier):
    """(rule, key, function, expected (value, width) or None for undefined or 'kept')"""
    out = []
    for t, v, wd in literals():
        out.append(('literal', t, ('fold', ('K', t)), (v, wd)))
    for o, xs in pairs(tier):
        v = [x[1] for x in xs]
        wd = [0 if x[2] is None else x[2] for x in xs]
        big = max(wd)
        if o in ('Sll', 'Sla', 'Srl', 'Sra') and v[1] < 0:
            res = 'kept'
        elif o == 'Power' and v[1] < 0:
            res = None if v[0] == 0 else (1 if v[0] == 1 or v[0] == -1 and v[1] % 2 == 0 else -1 if v[0] == -1 else 0)
            res = 'kept' if res is None else (res, big)
        else:
            f = fold(o, v, big, (1 << big) - 1)
            res = 'kept' if f is None else (f, 1 if o in ONE_BIT else big)
        if o == 'Srl' and v[0] < 0 and big == 0:
            continue
        out.append(('operator', text(('op', o) + tuple(xs)), ('fold', ('op', o) + tuple(xs)), res))
    for o, x, y in FLOATS:
        out.append(('operator', '%s(%s, %s)' % (o, x, y), ('fold', ('op', o, ('V', x, 32), ('V', y, 32))), (fvalue(o, x, y), None)))
    for t in ('1.5', '0.25', '1e2', '2.5E-1', '1_0.5'):
        out.append(('literal', t, ('fold', ('F', t)), (float(t), 32)))
    M = Meaning(SIG, CONST)
    for t in widths():
        out.append(('width', text(t), ('width', t), M.width(t)))
    out.append(('constant', 'a folded conditional', ('fold', cat(k("2'd2"), br(k(1), k("2'd1"), k("3'd7")))), (17, 5)))
    out.append(('constant', 'a string in a concatenation', ('fold', cat(('S', 'ab'), k("3'd1"))), 'kept'))
    for t in constants():
        try:
            v, x = M.ev(t, {})
        except Bad:
            continue
        if t[0] == 'op' and (t[1] in BOOL or t[1] in ('Divide', 'Mod')) and x:
            continue
        out.append(('constant', text(t), ('fold', t), (v, None) if not x else 'any'))
    return out


def one(repo, f, want):
    S_ = Setup(repo)
    try:
        if f[0] == 'width':
            got = S_.E.snap(S_.method('getWidth', S_.T.build(f[1])), S_.st)
            got = S.py(got)
            return S_, ('ok', '') if got == want else ('bad', 'has width %s instead of %s' % (got, want))
        z = S_.T.read(S_.method('optimizeConstant', S_.T.build(f[1])))
    except RaiseSig as x:
        return S_, ('bad', 'raises %s' % show(x.exc)[:120])
    except (Undecided, Budget, Opaque) as x:
        return S_, ('unknown', '%s %s' % (type(x).__name__, str(x)[:120]))
    if want == 'any':
        return S_, ('ok', '')
    if want == 'kept':
        return S_, ('ok', '') if z is not None and (z[0] != 'V' or z == f[1]) else ('bad', 'is folded to %s though it has no value' % text(z))
    v, wd = want
    if v is None:
        return S_, ('ok', '') if z == ('U', wd) else ('bad', 'is folded to %s instead of %s unknown bits' % (text(z), wd))
    if z is None or z[0] != 'V':
        return S_, ('bad', 'is left as %s instead of %s' % (text(z), v))
    if z[1] != v or type(z[1]) is not type(v):
        return S_, ('bad', 'is folded to %s instead of %s' % (z[1], v))
    if wd is not None and z[2] != wd and not (wd == 0 and z[2] is None):
        return S_, ('bad', 'is %s bits wide instead of %s' % (z[2], wd))
    return S_, ('ok', '')


# ------------------------------------------------------------ parameters and ranges of programs
def num(t, what):
    if t is None or t[0] not in ('#', 'V'):
        raise Mismatch('%s is not a number: %s' % (what, S.text(t)))
    return t[1]


class Mismatch(Exception):
    pass


def resolved(run):
    E, st = run.E, run.st
    try:
        O = E.call(E.cls_term(E.repo.cls('dataflow.optimizer.VerilogDataflowOptimizer')), [run.terms, run.binddict], {}, st)
        E.call(E.getattr(O, 'resolveConstant', st), [], {}, st)
        get = lambda n: E.call(E.getattr(O, n, st), [], {}, st)
        return get('getConstlist'), get('getResolvedTerms'), get('getResolvedBinddict')
    except RaiseSig as x:
        raise Failed(x.exc)


def name(x):
    """The path of a scope without the labels the analyzer makes up for generate constructs."""
    return re.sub(r'ge_for\d+\[(\d+)\]\.(\w+)', r'\2[\1]', re.sub(r'md_generate\d+\.', '', S.chain(x)))


def judge(consts, ranges, absent=()):
    """consts: name -> value; ranges: name -> (msb, lsb, dims)."""
    def j(run):
        E, st = run.E, run.st
        cl, terms, binds = resolved(run)
        T = D.Tree(E, st)
        have = dict((name(x), T.df(E.snap(v, st))) for x, v in S.entries(E, cl, st))
        for n, v in sorted(consts.items()):
            x = have.get(n)
            if x is None or x[:2] != ('V', v) or type(x[1]) is not type(v):
                return 'the constant %s is %s instead of %s' % (n, 'missing' if x is None else text(x), v)
        for n in absent:
            if n in have:
                return '%s is resolved as a constant' % n
        fs = dict((name(x), S.fields(E.snap(v, st))) for x, v in S.entries(E, terms, st))
        for n, (m, l, dims) in sorted(ranges.items()):
            if n not in fs:
                return 'no term %s' % n
            f = fs[n]
            got = tuple(T.df(f[x]) for x in ('msb', 'lsb'))
            if [x[:2] if x else None for x in got] != [('V', m), ('V', l)]:
                return 'the range of %s resolves to [%s:%s] instead of [%s:%s]' % (n, text(got[0]), text(got[1]), m, l)
            gd = None if f['dims'] is S.NONE else [tuple(T.df(y) for y in S.items(x)) for x in S.items(f['dims'])]
            if (dims is None) != (gd is None) or dims and [tuple(y[:2] for y in x) for x in gd] != [(('V', x), ('V', y)) for x, y in dims]:
                return 'the dimensions of %s resolve to %s instead of %s' % (n, gd, dims)
        bs = {}
        for x, v in S.entries(E, binds, st):
            bs[name(x)] = [T.df(S.field(y, 'tree')) for y in S.items(E.snap(v, st))]
        for n, v in sorted(consts.items()):
            if [x[:2] if x else x for x in bs.get(n, [])] != [('V', v)]:
                return 'the resolved binding of %s is %s instead of %s' % (n, [text(x) for x in bs.get(n, [])], v)
        return None
    return j


def programs(ctx):
    where = locate(ctx.repo, 'dataflow.optimizer.VerilogDataflowOptimizer.resolveConstant')
    out = []

    def add(key, text_, consts, ranges={}, absent=()):
        q = lambda dct: dict(('TOP.' + n, v) for n, v in dct.items())
        out.append(Shape('resolve', key, text_, judge(q(consts), q(ranges), ['TOP.' + n for n in absent]), where, 'a parameter or range resolves to another number'))
    add('chain', 'module TOP; parameter A = 3; parameter B = A + 1; localparam C = B * A, D = C - 2; wire [D-1:0] x; wire [C:A] y; wire z; wire [7:0] m [0:B]; endmodule',
        dict(A=3, B=4, C=12, D=10), dict(x=(9, 0, None), y=(12, 3, None), z=(0, 0, None), m=(7, 0, [(0, 4)])))
    add('header', 'module TOP #(parameter W = 8, parameter [3:0] N = W / 3, parameter H = W >> 1) (input [W-1:0] a, output [H-1:0] o); assign o = a[H-1:0]; endmodule', dict(W=8, N=2, H=4),
        dict(a=(7, 0, None), o=(3, 0, None)))
    add('operators', "module TOP; localparam A = 4'd9 + 2'd2, B = 17 % 5, C = 2 ** 5, D = (7 > 3) ? 8 : 9, E = {2'b10, 2'b01}, F = ~4'b0101, G = 3 - 5, H = 8'hF0 >> 4, I = &3'b111, J = !5; endmodule",
        dict(A=11, B=2, C=32, D=8, E=9, F=10, G=-2, H=15, I=1, J=0))
    add('precedence', "module TOP; localparam A = 2 + 3 * 4, B = (2 + 3) * 4, C = 1 << 2 + 1, D = 10 - 4 - 3, E = 7 & 3 == 3, F = 1 | 2 & 4, G = 20 / 2 / 5, H = 8 - -2; endmodule",
        dict(A=14, B=20, C=8, D=3, E=1, F=1, G=2, H=10))
    add('select', "module TOP; localparam [7:0] A = 8'hA5; localparam B = A[3:0], C = A[7], D = A[6:5], E = {A[0], A[7:4]}; wire [A[2:0]:0] x; endmodule", dict(A=165, B=5, C=1, D=1, E=26), dict(x=(5, 0, None)))
    add('literals', "module TOP; localparam A = 8'b1010_0101, B = 'h1f, C = 6'o17, D = 10'd1_0, E = 8'sd12, F = 4'sb0101; wire [8'h0a:3'b010] x; endmodule", dict(A=165, B=31, C=15, D=10, E=12, F=5), dict(x=(10, 2, None)))
    add('branch', 'module TOP #(parameter W = 4, parameter E = W == 4 ? 10 : 20, parameter F = W != 4 ? E + 1 : E + 2); wire [E-1:F-8] x; endmodule', dict(W=4, E=10, F=12), dict(x=(9, 4, None)))
    add('instances', 'module SUB #(parameter P = 2, parameter Q = P * 2) (input [P-1:0] i); wire [Q-1:0] s; endmodule module TOP(input [7:0] a); parameter A = 5; SUB #(.P(A)) u (.i(a[4:0])); '
        'SUB #(3, 9) v (.i(a[2:0])); SUB #(.Q(A + 1)) t (.i(a[1:0])); SUB n (.i(a[1:0])); endmodule',
        {'A': 5, 'u.P': 5, 'u.Q': 10, 'v.P': 3, 'v.Q': 9, 't.P': 2, 't.Q': 6, 'n.P': 2, 'n.Q': 4},
        {'u.i': (4, 0, None), 'u.s': (9, 0, None), 'v.i': (2, 0, None), 'v.s': (8, 0, None), 't.s': (5, 0, None), 'n.s': (3, 0, None)})
    add('nested', 'module LEAF #(parameter X = 1) (input [X-1:0] i); localparam Y = X + 1; wire [Y:0] s; endmodule module SUB #(parameter P = 2) (input [P-1:0] i); localparam L = P + 1; LEAF #(.X(L)) l (.i(i)); endmodule '
        'module TOP(input [7:0] a); localparam Z = 4; SUB #(.P(Z)) u (.i(a)); SUB v (.i(a)); endmodule',
        {'Z': 4, 'u.P': 4, 'u.L': 5, 'u.l.X': 5, 'u.l.Y': 6, 'v.P': 2, 'v.L': 3, 'v.l.X': 3, 'v.l.Y': 4}, {'u.l.i': (4, 0, None), 'u.l.s': (6, 0, None), 'v.l.s': (4, 0, None)})
    add('not constant', 'module TOP(input [3:0] a, output [3:0] b); parameter A = 2; wire [3:0] c; assign c = A; assign b = a + c; endmodule', dict(A=2), dict(c=(3, 0, None)), ('a', 'b', 'c'))
    add('generate', 'module TOP(input [3:0] a, output [3:0] b); parameter A = 2; genvar i; generate for (i = 0; i < A; i = i + 1) begin: g localparam K = i * 3 + A; wire [K:i] t; assign t = a; end endgenerate assign b = a; endmodule',
        {'A': 2, 'g[0].K': 2, 'g[1].K': 5}, {'g[0].t': (2, 0, None), 'g[1].t': (5, 1, None)})
    add('array', 'module TOP; parameter N = 3; reg [N-1:0] m [0:2**N-1]; reg [N*2-1:N] q [N:1][0:N+1]; integer i; endmodule', dict(N=3), dict(m=(2, 0, [(0, 7)]), q=(5, 3, [(3, 1), (0, 4)])))
    add('offset', "module TOP; localparam [7:4] A = 4'd9; localparam B = A[4], C = A[7:6], D = A[5], E = {1'b1, A}, F = {A, A[7:5]}; endmodule", dict(A=9, B=1, C=2, D=0, E=25, F=76))
    add('real', 'module TOP; parameter A = 2.5, B = A * 2, C = 1e3, D = 7 / 2.0; localparam E = A > 2; endmodule', dict(A=2.5, B=5.0, C=1000.0, D=3.5, E=1))
    add('unknown', "module TOP; parameter A = 4'bx; parameter B = A + 1, C = 3; localparam D = C, E = 1 ? C : A; wire [D:0] x; endmodule", dict(C=3, D=3, E=3), dict(x=(3, 0, None)), ('A', 'B'))
    add('no quotient', 'module TOP; parameter A = 3 / 0; parameter B = A * 2, C = 3; localparam D = C; wire [D:0] x; endmodule', dict(C=3, D=3), dict(x=(3, 0, None)), ('A', 'B'))
    add('string', 'module TOP; parameter A = {"a", "b"}; parameter C = 3; localparam D = C; wire [D:0] x; endmodule', dict(C=3, D=3), dict(x=(3, 0, None)), ('A',))
    for o, v in (('+', 9), ('-', 5), ('*', 14), ('/', 3), ('%', 1), ('<<', 28), ('>>', 1), ('<<<', 28), ('>>>', 1), ('**', 49), ('&', 2), ('|', 7), ('^', 5), ('<', 0), ('>', 1), ('<=', 0), ('>=', 1), ('==', 0), ('!=', 1),
                 ('===', 0), ('!==', 1), ('&&', 1), ('||', 1)):
        add('binary ' + o, 'module TOP; parameter A = 7, B = 2; localparam C = A %s B; wire [C + 1:1] x; endmodule' % o, dict(C=v), dict(x=(v + 1, 1, None)))
    for o, v in (('-', -6), ('+', 6), ('!', 0), ('~', 9), ('&', 0), ('~&', 1), ('|', 1), ('~|', 0), ('^', 0), ('~^', 1)):
        add('unary ' + o, "module TOP; parameter [3:0] A = 6; localparam C = %sA; endmodule" % o, dict(C=v))
    return out


def check(ctx):
    repo = ctx.repo
    repo.cls(OPT)
    repo.cls(DF + 'DFIntConst')
    todo = obligations(ctx.tier)
    w_ = {'literal': locate(repo, DF + 'DFIntConst.eval'), 'operator': locate(repo, OPT + '._evalOperator', OPT + '.evalOperator'), 'width': locate(repo, OPT + '.getWidth'),
          'constant': locate(repo, OPT + '.optimizeConstant')}
    what = {'literal': 'a literal has another value or width', 'operator': 'an operator on constants computes another value', 'width': 'an expression has another width',
            'constant': 'a constant expression has another value'}
    groups = [todo[i::64] for i in range(64)]
    sent = set()

    def run(g):
        out = []
        for _, _, f, want in g:
            s, v = one(repo, f, want)
            sent.update(s.E.called)
            out.append(v)
        return out, sorted(sent)
    for g, res in zip(groups, pmap(run, groups)):
        if res is None:
            ctx.unknown('operator', 'group', 'worker ended')
            continue
        ctx.functions.update(res[1])
        for (rule, key, f, want), (v, m) in zip(g, res[0]):
            if v == 'ok':
                ctx.ok(rule, key)
            elif v == 'unknown':
                ctx.unknown(rule, key, m)
            else:
                ctx.bad(rule, short(key, 100), what[rule], w_[rule], '%s %s' % (key, m))
    run_all(ctx, pipeline(ctx), programs(ctx))
    ctx.floor('literal', 300)
    ctx.floor('operator', 800)
    ctx.floor('width', 100)
    ctx.floor('resolve', 20)
