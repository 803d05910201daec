"""Instances with every style of port and parameter connection are interpreted through the dataflow passes: each input port must be
bound to the connected expression read in the enclosing scope, each connected output target to the port of the instance, each
parameter of each instance to its own overriding or default value, and a connection that has no counterpart is an error."""
from itertools import product

from .. import dfshape as S
from ..dfshape import plain, plain_tree, text
from ..shapes import Shape, locate, pipeline, run_all, short

ASSUMPTIONS = ['Names are concrete, values uninterpreted.', 'An array of instances connects bit i of a vector to instance i.']
BV = 'dataflow.bindvisitor.BindVisitor.'


def num(t):
    if t[:1] == ('V',) and isinstance(t[1], int):
        return t[1]
    return int(t[2]) if t[:2] == ('K', 'Int') and t[2].isdigit() else None


def norm(t):
    """The guard of a generate branch and one-element concatenations carry no information here."""
    if not isinstance(t, tuple):
        return t
    t = tuple(norm(x) for x in t)
    if t[:1] == ('?',) and None in t[2:]:
        return t[2] if t[3] is None else t[3]
    if t[:1] == ('[:]',) and t[1][:1] == ('[:]',) and t[1][2] == t[1][3] and text(t[2]).strip('=') == text(t[3]).strip('=') == '0':
        return t[1]     # bit 0 of a single bit
    if t[:1] == ('op',) and t[1] in ('Plus', 'Minus', 'Times') and all(num(x) is not None for x in t[2:]):
        x, y = (num(v) for v in t[2:])
        return ('K', 'Int', str({'Plus': x + y, 'Minus': x - y, 'Times': x * y}[t[1]]))
    if t[:1] == ('cat',):
        flat = []
        for x in t[1:]:
            flat += x[1:] if x[:1] == ('cat',) else (x,)
        return ('cat',) + tuple(flat) if len(flat) > 1 else flat[0]
    return t


def show(b):
    r = ''
    if b.ptr is not None:
        r += '[[%s]]' % text(norm(plain_tree(b.ptr)))
    if b.msb is not None:
        r += '[%s:%s]' % (text(norm(plain_tree(b.msb))), text(norm(plain_tree(b.lsb))))
    return '%s <- %s' % (r, text(norm(plain_tree(b.tree))))


def table(run):
    out = {}
    for n, l in S.binds(run).items():
        out.setdefault(plain(n), []).extend(show(b).replace('=', '') for b in l)
    return dict((n, sorted(l)) for n, l in out.items())


def want(d):
    """'q: x; y' -> bindings; a right side without '<-' binds the whole signal."""
    return dict((n, sorted(x if '<-' in x else ' <- ' + x for x in ([l] if isinstance(l, str) else l))) for n, l in d.items())


HEAD = 'module TOP(input k, input [3:0] a, input [3:0] b, output [7:0] o, output [3:0] q, inout [3:0] z);\n'
# port of the instance: argument, value of an input, bindings of an output argument
ARGS = [('a', 'TOP.a', None), ('a[2]', 'TOP.a[2:2]', None), ('a[2:1]', 'TOP.a[2:1]', None), ('a + b', 'Plus(TOP.a, TOP.b)', None),
        ('{a, b}', '{TOP.a, TOP.b}', None), ('4', '4', None), ("2'b10", "2'b10", None), ('~a', 'Unot(TOP.a)', None),
        ('k ? a : b', '(TOP.k ? TOP.a : TOP.b)', None), ('P', 'TOP.P', None), ('{2{b}}', '{TOP.b, TOP.b}', None),
        ('m[a]', 'TOP.m[[TOP.a]]', None), ('', None, None)]
OUTS = [('q', {'TOP.q': ' <- %s'}), ('q[1]', {'TOP.q': '[1:1] <- %s'}), ('q[2:1]', {'TOP.q': '[2:1] <- %s'}),
        ('w', {'TOP.w': ' <- %s'}), ('o[P]', {'TOP.o': '[5:5] <- %s'}), ('', {})]


def ok(ctx):
    out = []
    w = locate(ctx.repo, BV + 'addInstancePortBind', BV + '_visit_Instance_body')
    wp = locate(ctx.repo, BV + 'addInstanceParameterBind', BV + '_visit_Instance_body')

    def add(rule, key, txt, exp, where=w, what='an instance is connected to something else', absent=(), **kw):
        def j(run):
            t = table(run)
            e = want(exp)
            for n in sorted(e):
                if t.get(n, []) != e[n]:
                    return '%s has the bindings %s instead of %s' % (n, t.get(n, []), e[n])
            for n in absent:
                if t.get(n):
                    return '%s has the bindings %s instead of none' % (n, t[n])
            return None
        out.append(Shape(rule, short(key), txt, j, where, what, **kw))
    TOPD = 'parameter P = 5;\nwire [3:0] w; reg [3:0] m [0:15];\n'
    SUBS = {'ansi': 'module sub(input [3:0] x, output [3:0] y, input v);\nassign y = x;\nendmodule\n',
            'plain': 'module sub(x, y, v);\ninput v; output [3:0] y; input [3:0] x;\nassign y = x;\nendmodule\n',
            'reg': 'module sub(x, y, v);\ninput [3:0] x; wire [3:0] x; input v; output [3:0] y; reg [3:0] y;\nalways @* y = x;\nendmodule\n',
            'ansireg': 'module sub(input wire [3:0] x, output reg [3:0] y, input wire v);\nalways @* y = x;\nendmodule\n'}
    STYLES = {'positional': 'sub u(%(x)s, %(y)s, %(v)s);', 'named': 'sub u(.x(%(x)s), .y(%(y)s), .v(%(v)s));',
              'named in another order': 'sub u(.v(%(v)s), .y(%(y)s), .x(%(x)s));'}
    inner = {'ansi': ' <- TOP.u.x', 'plain': ' <- TOP.u.x'}
    for (sub, src), (style, s) in product(SUBS.items(), STYLES.items()):
        todo = [(a, v, 'q', OUTS[0][1]) for a, v, _ in ARGS] + [('a', 'TOP.a', o, e) for o, e in OUTS[1:]]
        if sub in ('reg', 'ansireg'):
            todo = todo[::4] + todo[-1:]
        for a, v, o, e in todo:
            exp = {'TOP.u.v': 'TOP.k'}
            absent = []
            if v is not None:
                exp['TOP.u.x'] = v
            else:
                absent.append('TOP.u.x')
            for n, b in e.items():
                exp[n] = b % 'TOP.u.y'
            if sub in inner:
                exp['TOP.u.y'] = inner[sub]
            add('port', '%s %s %s %s' % (sub, style, a, o), HEAD + TOPD + s % dict(x=a, y=o, v='k') + '\nendmodule\n' + src, exp,
                absent=absent + [n for n in ('TOP.q', 'TOP.w', 'TOP.o') if n not in e])
    # a named connection may be left out
    src = SUBS['ansi']
    add('port', 'named connections left out', HEAD + 'sub u(.y(q));\nendmodule\n' + src, {'TOP.q': 'TOP.u.y'}, absent=('TOP.u.x', 'TOP.u.v'))
    add('port', 'trailing positional connections left out', HEAD + 'sub u(a);\nendmodule\n' + src, {'TOP.u.x': 'TOP.a'}, absent=('TOP.q', 'TOP.u.v'))
    add('port', 'no connection', HEAD + 'sub u();\nendmodule\n' + src, {'TOP.u.y': 'TOP.u.x'}, absent=('TOP.q', 'TOP.u.v', 'TOP.u.x'))
    # output into concatenations
    add('port', 'output to a concatenation', HEAD + TOPD + 'sub u(a, {q, w}, k);\nendmodule\n' + src.replace('output [3:0] y', 'output [7:0] y'),
        {'TOP.q': '[3:0] <- TOP.u.y[7:4]', 'TOP.w': '[3:0] <- TOP.u.y[3:0]'})
    add('port', 'output to a concatenation of selects', HEAD + TOPD + 'sub u(a, {q[1:0], w[2], o[7]}, k);\nendmodule\n' + src,
        {'TOP.q': '[1:0] <- TOP.u.y[3:2]', 'TOP.w': '[2:2] <- TOP.u.y[1:1]', 'TOP.o': '[7:7] <- TOP.u.y[0:0]'})
    # inout
    io = 'module sub(inout [3:0] x, input v, output y);\nassign y = x & v;\nendmodule\n'
    add('port', 'inout', HEAD + 'sub u(z, k);\nendmodule\n' + io, {'TOP.z': 'TOP.u.x', 'TOP.u.x': 'TOP.z', 'TOP.u.y': 'And(TOP.u.x, TOP.u.v)'})
    add('port', 'inout named', HEAD + 'sub u(.v(k), .x(z));\nendmodule\n' + io, {'TOP.z': 'TOP.u.x', 'TOP.u.x': 'TOP.z', 'TOP.u.y': 'And(TOP.u.x, TOP.u.v)'})
    # hierarchy: several instances, levels, names of the enclosing scope
    two = 'module mid(input [3:0] x, output [3:0] y, input v);\nwire [3:0] a; assign a = ~x;\nsub s(.x(a), .y(y), .v(v));\nendmodule\n' + src
    add('port', 'two levels', HEAD + TOPD + 'mid u(a, q, k); mid t(b, w, k);\nendmodule\n' + two,
        {'TOP.u.x': 'TOP.a', 'TOP.t.x': 'TOP.b', 'TOP.q': 'TOP.u.y', 'TOP.w': 'TOP.t.y', 'TOP.u.s.x': 'TOP.u.a', 'TOP.t.s.x': 'TOP.t.a',
         'TOP.u.a': 'Unot(TOP.u.x)', 'TOP.u.y': 'TOP.u.s.y', 'TOP.t.y': 'TOP.t.s.y', 'TOP.u.s.v': 'TOP.u.v', 'TOP.u.s.y': 'TOP.u.s.x'})
    add('port', 'one statement, two instances', HEAD + TOPD + 'sub u(a, q, k), t(b, w, k);\nendmodule\n' + src,
        {'TOP.u.x': 'TOP.a', 'TOP.t.x': 'TOP.b', 'TOP.q': 'TOP.u.y', 'TOP.w': 'TOP.t.y'})
    add('port', 'definition before use', src + HEAD + 'sub u(a, q, k);\nendmodule\n', {'TOP.u.x': 'TOP.a', 'TOP.q': 'TOP.u.y'})
    add('port', 'argument named like a port', HEAD + TOPD + 'wire [3:0] x, y; assign y = a;\nsub u(.x(y), .y(x), .v(k));\nendmodule\n' + src,
        {'TOP.u.x': 'TOP.y', 'TOP.x': 'TOP.u.y', 'TOP.u.y': 'TOP.u.x'}, absent=())
    add('port', 'in a generate loop', HEAD + 'genvar i;\ngenerate for (i = 0; i < 3; i = i + 1) begin : G\n wire [3:0] t;\n sub u(a[i], t, b[i]);\n assign o[i] = t; end endgenerate\nendmodule\n' + src,
        dict([('TOP.G[%d].u.x' % i, 'TOP.a[%d:%d]' % (i, i)) for i in range(3)] + [('TOP.G[%d].t' % i, 'TOP.G[%d].u.y' % i) for i in range(3)] +
             [('TOP.G[%d].u.v' % i, 'TOP.b[%d:%d]' % (i, i)) for i in range(3)] + [('TOP.o', ['[%d:%d] <- TOP.G[%d].t' % (i, i, i) for i in range(3)])]))
    add('port', 'output select in a generate loop', HEAD + 'genvar i;\ngenerate for (i = 0; i < 3; i = i + 1) begin : G\n sub u(a, o[i], k);\nend endgenerate\nendmodule\n' + src,
        {'TOP.o': ['[%d:%d] <- TOP.G[%d].u.y' % (i, i, i) for i in range(3)]})
    add('port', 'in the taken branch of generate if', HEAD + 'parameter P = 0;\ngenerate if (P) begin : G\n sub u(a, q, k);\nend else begin : H\n sub u(b, q, k); end endgenerate\nendmodule\n' + src,
        {'TOP.q': 'TOP.H.u.y', 'TOP.H.u.x': 'TOP.b'})
    # arrays
    bit = 'module bit1(input x, output y);\nassign y = x;\nendmodule\n'
    for st, s in (('positional', 'bit1 u[3:0](a, q);'), ('named', 'bit1 u[3:0](.y(q), .x(a));')):
        add('array', 'vector ' + st, HEAD + s + '\nendmodule\n' + bit,
            dict([('TOP.u_%d.x' % i, 'TOP.a[%d:%d]' % (i, i)) for i in range(4)] + [('TOP.u_%d.y' % i, 'TOP.u_%d.x' % i) for i in range(4)] +
                 [('TOP.q', ['[%d:%d] <- TOP.u_%d.y' % (i, i, i) for i in range(4)])]))
    add('array', 'scalar', HEAD + 'bit1 u[1:0](k, q[1:0]);\nendmodule\n' + bit, {'TOP.u_0.x': 'TOP.k', 'TOP.u_1.x': 'TOP.k'})
    add('array', 'parameter range', HEAD + 'parameter N = 3;\nbit1 u[N-1:0](a, q);\nendmodule\n' + bit,
        {'TOP.u_2.x': 'TOP.a[2:2]', 'TOP.q': ['[%d:%d] <- TOP.u_%d.y' % (i, i, i) for i in range(3)]}, absent=('TOP.u_3.x',))
    add('array', 'unconnected', HEAD + 'bit1 u[1:0](.x(a));\nendmodule\n' + bit, {'TOP.u_0.x': 'TOP.a[0:0]', 'TOP.u_1.x': 'TOP.a[1:1]'}, absent=('TOP.q',))
    add('array', 'selected output', HEAD + 'bit1 u[1:0](k, q[3:2]);\nendmodule\n' + bit, {'TOP.q': ['[%d:%d] <- TOP.u_%d.y' % (i + 2, i + 2, i) for i in range(2)]})
    add('array', 'selected input', HEAD + 'bit1 u[1:0](a[3:2], q);\nendmodule\n' + bit, {'TOP.u_0.x': 'TOP.a[2:2]', 'TOP.u_1.x': 'TOP.a[3:3]'})
    add('array', 'range above 0', HEAD + 'bit1 u[5:4](a, q);\nendmodule\n' + bit, {'TOP.u_4.x': 'TOP.a[0:0]', 'TOP.u_5.x': 'TOP.a[1:1]', 'TOP.q': ['[%d:%d] <- TOP.u_%d.y' % (i, i, i + 4) for i in range(2)]})
    add('array', 'ascending range', HEAD + 'bit1 u[0:1](a, q);\nendmodule\n' + bit, {'TOP.u_1.x': 'TOP.a[0:0]', 'TOP.u_0.x': 'TOP.a[1:1]', 'TOP.q': ['[%d:%d] <- TOP.u_%d.y' % (1 - i, 1 - i, i) for i in range(2)]})
    add('array', 'vector range above 0', HEAD + 'wire [5:4] w; assign w = a;\nbit1 u[1:0](w, q);\nendmodule\n' + bit, {'TOP.u_0.x': 'TOP.w[4:4]', 'TOP.u_1.x': 'TOP.w[5:5]'})
    wide = 'module w4 #(parameter W = 2) (input [W-1:0] x, output [3:0] y, input [W-1:0] c);\nassign y = x;\nendmodule\n'
    add('array', 'wide ports', HEAD + 'input [7:0] c;\nw4 #(4) u[1:0](c, o, a);\nendmodule\n'.replace('input [7:0] c;', 'wire [7:0] c;') + wide,
        {'TOP.u_0.x': 'TOP.c[3:0]', 'TOP.u_1.x': 'TOP.c[7:4]', 'TOP.u_0.c': 'TOP.a', 'TOP.u_1.c': 'TOP.a', 'TOP.o': ['[3:0] <- TOP.u_0.y', '[7:4] <- TOP.u_1.y']})
    add('array', 'wide ports named', HEAD + 'wire [7:0] c;\nw4 u[1:0](.y(o), .c(b), .x(a));\nendmodule\n' + wide,
        {'TOP.u_0.x': 'TOP.a[1:0]', 'TOP.u_1.x': 'TOP.a[3:2]', 'TOP.u_0.c': 'TOP.b[1:0]', 'TOP.u_1.c': 'TOP.b[3:2]', 'TOP.o': ['[3:0] <- TOP.u_0.y', '[7:4] <- TOP.u_1.y']})
    # primitives
    for p, op in (('and', 'Uand'), ('nand', 'Unand'), ('or', 'Uor'), ('nor', 'Unor'), ('xor', 'Uxor'), ('xnor', 'Uxnor')):
        add('primitive', p, HEAD + '%s g(q[0], a, b, k);\nendmodule\n' % p, {'TOP.q': '[0:0] <- %s({TOP.a[0:0], TOP.b[0:0], TOP.k[0:0]})' % op},
            what='a primitive computes something else')
        add('primitive', p + ' nameless', HEAD + '%s (w, a[1], b[2]);\nwire w;\nendmodule\n'.replace('\nwire w;', '') % p + '', {'TOP.w': '%s({TOP.a[1:1], TOP.b[2:2]})' % op}, what='a primitive computes something else')
        add('primitive', p + ' array', HEAD + '%s g[1:0](q, a, b);\nendmodule\n' % p,
            {'TOP.q': ['[%d:%d] <- %s({TOP.a[%d:%d], TOP.b[%d:%d]})' % (i, i, op, i, i, i, i) for i in range(2)]}, what='a primitive computes something else')
    for p, f in (('not', 'Ulnot(%s)'), ('buf', '%s')):
        add('primitive', p, HEAD + '%s g(q[1], a);\nendmodule\n' % p, {'TOP.q': '[1:1] <- ' + f % 'TOP.a[0:0]'}, what='a primitive computes something else')
        add('primitive', p + ' array', HEAD + '%s g[1:0](q, a);\nendmodule\n' % p, {'TOP.q': ['[%d:%d] <- ' % (i, i) + f % ('TOP.a[%d:%d]' % (i, i)) for i in range(2)]},
            what='a primitive computes something else')
    add('primitive', 'and array with a scalar', HEAD + 'and g[1:0](q[3:2], a, k);\nendmodule\n', {'TOP.q': ['[%d:%d] <- Uand({TOP.a[%d:%d], TOP.k})' % (i + 2, i + 2, i, i) for i in range(2)]},
        what='a primitive computes something else')
    # parameters
    PS = {'header': 'module sub #(parameter W = 4, parameter D = W * 2) (input [W-1:0] x, output [D-1:0] y);\nlocalparam L = D + 1;\nassign y = x + L;\nendmodule\n',
          'body': 'module sub(x, y);\nparameter W = 4;\nlocalparam L = D + 1;\nparameter D = W * 2;\ninput [W-1:0] x; output [D-1:0] y;\nassign y = x + L;\nendmodule\n'.replace(
              'localparam L = D + 1;\nparameter D = W * 2;', 'parameter D = W * 2;\nlocalparam L = D + 1;')}
    for kind, src in PS.items():
        for st, s, W, D in (('none', 'sub u(a, o);', '4', 'Times(TOP.u.W, 2)'), ('positional 1', 'sub #(3) u(a, o);', '3', 'Times(TOP.u.W, 2)'),
                            ('positional 2', 'sub #(3, 9) u(a, o);', '3', '9'), ('named W', 'sub #(.W(3)) u(a, o);', '3', 'Times(TOP.u.W, 2)'),
                            ('named D', 'sub #(.D(9)) u(a, o);', '4', '9'), ('named D W', 'sub #(.D(9), .W(3)) u(a, o);', '3', '9'),
                            ('expression', 'sub #(P + 1, P) u(a, o);', 'Plus(TOP.P, 1)', 'TOP.P'), ('named expression', 'sub #(.D(P * P)) u(a, o);', '4', 'Times(TOP.P, TOP.P)')):
            add('parameter', '%s %s' % (kind, st), HEAD + 'parameter P = 5;\n' + s + '\nendmodule\n' + src,
                {'TOP.u.W': W, 'TOP.u.D': D, 'TOP.u.L': 'Plus(TOP.u.D, 1)', 'TOP.u.x': 'TOP.a', 'TOP.o': 'TOP.u.y', 'TOP.u.y': 'Plus(TOP.u.x, TOP.u.L)'},
                wp, 'a parameter of an instance gets another value')
        add('parameter', kind + ' own value per instance', HEAD + 'wire [3:0] w;\nsub #(3) u(a, q); sub t(b, w); sub #(.D(7)) s(a, o);\nendmodule\n' + src,
            {'TOP.u.W': '3', 'TOP.t.W': '4', 'TOP.s.W': '4', 'TOP.s.D': '7', 'TOP.u.D': 'Times(TOP.u.W, 2)', 'TOP.t.D': 'Times(TOP.t.W, 2)'}, wp, 'a parameter of an instance gets another value')
    # parameter values decide generate branches and ranges of each instance
    sel = 'module sub #(parameter W = 4, parameter D = W * 2) (input [3:0] x, output [3:0] y);\nlocalparam L = D - 1;\ngenerate if (%s) begin : G\nassign y = x; end else begin : H\nassign y = ~x; end endgenerate\nendmodule\n'
    for cond, st, taken in (('W == 3', '#(3)', 1), ('W == 3', '', 0), ('W == 3', '#(.W(3))', 1), ('W == 4', '#(.D(3))', 1), ('D == 6', '#(3)', 1), ('D == 8', '', 1), ('D == 2', '#(.D(2))', 1),
                            ('L == 5', '#(3)', 1), ('L == 7', '', 1), ('L == 1', '#(.D(2), .W(9))', 1), ('W == 6', '#(P + 1)', 1), ('W == 5', '#(P + 1)', 0), ('L == 9', '#(.W(P))', 1)):
        add('parameter', 'generate if (%s) of %s' % (cond, st), HEAD + 'parameter P = 5;\nsub %s u(a, q); sub #(90, 91) t(b, o);\nendmodule\n' % st + sel % cond,
            {'TOP.u.y': 'TOP.u.x' if taken else 'Unot(TOP.u.x)', 'TOP.t.y': 'Unot(TOP.t.x)'}, wp, 'a parameter of an instance gets another value')
    add('parameter', 'passed down two levels', HEAD + 'mid #(.N(6)) u(a, q); mid t(b, o);\nendmodule\nmodule mid #(parameter N = 1) (input [3:0] x, output [3:0] y);\nsub #(.W(N)) s(x, y);\nendmodule\n' + sel % 'W == 6',
        {'TOP.u.s.W': 'TOP.u.N', 'TOP.t.s.W': 'TOP.t.N', 'TOP.u.N': '6', 'TOP.t.N': '1', 'TOP.u.s.y': 'TOP.u.s.x', 'TOP.t.s.y': 'Unot(TOP.t.s.x)'}, wp, 'a parameter of an instance gets another value')
    add('parameter', 'same name in both modules', HEAD + 'parameter W = 5;\nsub #(.W(W)) u(a, q); sub #(.D(W)) t(b, o);\nendmodule\n' + sel % 'W == 5',
        {'TOP.u.W': 'TOP.W', 'TOP.t.W': '4', 'TOP.t.D': 'TOP.W', 'TOP.u.y': 'TOP.u.x', 'TOP.t.y': 'Unot(TOP.t.x)'}, wp, 'a parameter of an instance gets another value')
    add('parameter', 'genvar as value', HEAD + 'genvar i;\ngenerate for (i = 0; i < 3; i = i + 1) begin : G\n sub #(i) u(a, q[i]); end endgenerate\nendmodule\n' + sel % 'W == 1',
        {'TOP.G[0].u.y': 'Unot(TOP.G[0].u.x)', 'TOP.G[1].u.y': 'TOP.G[1].u.x', 'TOP.G[2].u.y': 'Unot(TOP.G[2].u.x)', 'TOP.G[2].u.W': '2'}, wp, 'a parameter of an instance gets another value')
    add('parameter', 'of an array of instances', HEAD + 'one #(6) u[1:0](a, q);\nendmodule\nmodule one #(parameter W = 4) (input x, output y);\ngenerate if (W == 6) begin : G\nassign y = x; end endgenerate\nendmodule\n',
        {'TOP.u_0.W': '6', 'TOP.u_1.W': '6', 'TOP.u_1.y': 'TOP.u_1.x', 'TOP.u_0.y': 'TOP.u_0.x'}, wp, 'a parameter of an instance gets another value')
    # connections without a counterpart
    src = SUBS['ansi']
    we = 'a connection without a counterpart is accepted'
    for key, s, f in (('unknown port', 'sub u(.nosuch(a));', 'FormatError'), ('unknown port among others', 'sub u(.x(a), .y(q), .nosuch(k));', 'FormatError'),
                      ('too many positional ports', 'sub u(a, q, k, k);', 'Error'), ('unknown parameter', 'sub #(.N(3)) u(a, q, k);', 'FormatError'),
                      ('local signal as port', 'sub u(.t(a));', 'FormatError'), ('unknown module', 'nosuch u(a, q, k);', 'Error'),
                      ('undeclared input argument', 'sub u(nosuch, q, k);', 'Error'), ('too many positional parameters', 'sub #(1) u(a, q, k);', 'Error'),
                      ('no instance name', 'sub (a, q, k);', 'FormatError')):
        add('reject', key, HEAD + s + '\nendmodule\n' + src.replace('assign', 'wire t;\nassign'), {}, what=we, fails=f)
    add('reject', 'local parameter overridden', HEAD + 'sub #(.L(3)) u(a, q);\nendmodule\n' + PS['body'], {}, wp, we, fails='FormatError')
    return out


def check(ctx):
    P = pipeline(ctx)
    run_all(ctx, P, ok(ctx))
    ctx.floor('port', 60)
    ctx.floor('parameter', 30)
    ctx.floor('primitive', 15)
    ctx.floor('reject', 8)
