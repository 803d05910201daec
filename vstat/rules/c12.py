"""Programs declaring every kind of signal in every kind of scope are interpreted through the parser's actions and the three
dataflow passes; the table of terms must hold exactly the declared signals under their scope paths with kind, range and
array dimensions, names must resolve to the nearest enclosing declaration of their own module, and the table of instances must list the
hierarchy.  A variable declared inside a function or task belongs to its calls and is no signal of the module."""
from .. import dfshape as S
from ..dfshape import chain, items, plain, plain_tree, py, text
from ..shapes import Shape, locate, pipeline, run_all, short

ASSUMPTIONS = ['Unnamed scopes are compared only by what they contain.',
               'Names of signals are concrete, their values uninterpreted.']
SV = 'dataflow.signalvisitor.SignalVisitor.'
BV = 'dataflow.bindvisitor.BindVisitor.'


def terms(run):
    out = {}
    dup = []
    for n, (ty, m, l, d) in S.terms(run).items():
        if ty == ('Rename',) or 'functioncall' in n:
            continue
        p = plain(n)
        if p in out:
            dup.append(p)
        out[p] = (ty, fix(m), fix(l), None if d is None else tuple((fix(x), fix(y)) for x, y in d))
    return out, dup


def fix(s):
    """Names in a rendered range as the source has them; an evaluated constant is a constant."""
    return ''.join(plain(x) for x in S.re.split(r'([\w.$\[\]]+)', s.replace('=', '')))


def compare(run, want):
    have, dup = terms(run)
    if dup:
        return '%s is registered twice' % dup[0]
    for n in sorted(set(have) | set(want)):
        if have.get(n) != want.get(n):
            return '%s is %s instead of %s (kinds, msb, lsb, dimensions)' % (n, have.get(n), want.get(n))
    return None


def t(kinds, m='0', l='0', d=None):
    return (tuple(sorted(kinds.split())), m, l, d)


# declaration, {name: term}
PORTS = [('input a', {'a': t('Input')}), ('input [3:0] a', {'a': t('Input', '3')}), ('input signed [7:4] a', {'a': t('Input', '7', '4')}),
         ('output q', {'q': t('Output')}), ('output [5:2] q', {'q': t('Output', '5', '2')}), ('output reg q', {'q': t('Output Reg')}),
         ('output reg [3:0] q', {'q': t('Output Reg', '3')}), ('inout z', {'z': t('Inout')}), ('inout [1:0] z', {'z': t('Inout', '1')}),
         ('input wire [3:0] a', {'a': t('Input Wire', '3')}), ('output wire [2:0] q', {'q': t('Output Wire', '2')}),
         ('input [3:0] a, b', {'a': t('Input', '3'), 'b': t('Input', '3')})]
DECLS = [('wire w;', {'w': t('Wire')}), ('wire [7:0] w;', {'w': t('Wire', '7')}), ('wire signed [3:1] w;', {'w': t('Wire', '3', '1')}),
         ('reg r;', {'r': t('Reg')}), ('reg [4:0] r;', {'r': t('Reg', '4')}), ('reg signed [4:0] r;', {'r': t('Reg', '4')}),
         ('wire [1:0] w, x;', {'w': t('Wire', '1'), 'x': t('Wire', '1')}), ('reg [7:0] m [0:15];', {'m': t('Reg', '7', '0', (('0', '15'),))}),
         ('reg [7:0] m [0:15][1:2];', {'m': t('Reg', '7', '0', (('0', '15'), ('1', '2')))}),
         ('wire [7:0] m [3:0];', {'m': t('Wire', '7', '0', (('3', '0'),))}), ('integer i;', {'i': t('Integer', '31')}),
         ('integer i, j;', {'i': t('Integer', '31'), 'j': t('Integer', '31')}), ('tri [2:0] y;', {'y': t('Tri', '2')}), ('tri y;', {'y': t('Tri')}),
         ('supply0 g;', {'g': t('Supply')}), ('supply1 [1:0] g;', {'g': t('Supply', '1')}), ('parameter P = 3;', {'P': t('Parameter', '31')}),
         ('parameter [3:0] P = 3;', {'P': t('Parameter', '3')}), ('localparam L = 3;', {'L': t('Localparam', '31')}),
         ('localparam [2:1] L = 3;', {'L': t('Localparam', '2', '1')}), ('genvar g;', {'g': t('Genvar', '31')}),
         ('wire [1:0] w = 2;', {'w': t('Wire', '1')})]
WIDE = [('wire [W-1:0] w;', 'w', 'Wire', 'Minus(%s, 1)', '0', None), ('reg [W:1] w;', 'w', 'Reg', '%s', '1', None),
        ('reg [3:0] w [0:W];', 'w', 'Reg', '3', '0', (('0', '%s'),)), ('wire [(W+2)*2-1:W] w;', 'w', 'Wire',
         'Minus(Times(Plus(%s, 2), 2), 1)', '%s', None)]


def at(path, d):
    return dict((path + '.' + n, x) for n, x in d.items())


def shapes(ctx):
    out = []
    wd = locate(ctx.repo, BV + 'addTerm')

    def add(rule, key, txt, want, where=wd, what='the signal table differs from the declarations', extra=None):
        def j(run):
            m = compare(run, want)
            if m is None and extra is not None:
                m = extra(run)
            return m
        out.append(Shape(rule, short(key), txt, j, where, what))
    k = t('Input')
    for d, e in PORTS:
        add('term', 'ansi port ' + d, 'module TOP(%s);\nendmodule\n' % d, at('TOP', e))
        names = list(e)
        w = d.replace(' reg', '').replace(' wire', '') + ';\n'
        if 'reg' in d:
            w += d[d.index('reg'):] + ';\n'
        if 'wire' in d:
            w += d[d.index('wire'):] + ';\n'
        add('term', 'plain port ' + d, 'module TOP(%s);\n%sendmodule\n' % (', '.join(names), w), at('TOP', e))
    for d, e in DECLS:
        add('term', 'module ' + d, 'module TOP(input k);\n%s\nendmodule\n' % d, dict(at('TOP', e), **{'TOP.k': k}))
        sub = 'module sub(input p);\n%s\nendmodule\n' % d
        want = dict(at('TOP.u', e), **{'TOP.k': k, 'TOP.u.p': k})
        add('term', 'instance ' + d, 'module TOP(input k);\nsub u(k);\nendmodule\n' + sub, want)
        if d.split()[0] in ('wire', 'reg', 'integer', 'tri') and '=' not in d:
            add('term', 'generate if ' + d, 'module TOP(input k);\ngenerate if (1) begin : G\n%s\nend endgenerate\nendmodule\n' % d,
                dict(at('TOP.G', e), **{'TOP.k': k}))
            add('term', 'generate else ' + d, 'module TOP(input k);\ngenerate if (0) begin : G\n%s\nend else begin : H\n%s\nend endgenerate\nendmodule\n' % (d, d),
                dict(at('TOP.H', e), **{'TOP.k': k}))
            want = {'TOP.k': k, 'TOP.i0': t('Genvar', '31')}
            for i in range(3):
                want.update(at('TOP.G[%d]' % i, e))
            add('term', 'generate for ' + d, 'module TOP(input k);\ngenvar i0;\ngenerate for (i0 = 0; i0 < 3; i0 = i0 + 1) begin : G\n%s\nend endgenerate\nendmodule\n' % d, want)
        if d.split()[0] in ('reg', 'integer'):
            add('term', 'block ' + d, 'module TOP(input k);\nalways @(posedge k) begin : L\n%s\nend\nendmodule\n' % d,
                dict(at('TOP.L', e), **{'TOP.k': k}))
            add('term', 'nested block ' + d, 'module TOP(input k);\nalways @(posedge k) if (k) begin : L\n begin : M\n%s\nend end\nendmodule\n' % d,
                dict(at('TOP.L.M', e), **{'TOP.k': k}))
    for d, n, ty, m, l, dims in WIDE:
        p = 'TOP.W'
        f = lambda s, q: s.replace('%s', q)
        g = lambda q: t(ty, f(m, q), f(l, q), None if dims is None else tuple((f(x, q), f(y, q)) for x, y in dims))
        add('term', 'parameter range ' + d, 'module TOP(input k);\nparameter W = 4;\n%s\nendmodule\n' % d,
            {'TOP.k': k, 'TOP.W': t('Parameter', '31'), 'TOP.w': g('TOP.W')})
        add('term', 'header parameter range ' + d, 'module TOP #(parameter W = 4) (input k);\n%s\nendmodule\n' % d,
            {'TOP.k': k, 'TOP.W': t('Parameter', '31'), 'TOP.w': g('TOP.W')})
        add('term', 'localparam range ' + d, 'module TOP(input k);\nlocalparam W = 4;\n%s\nendmodule\n' % d,
            {'TOP.k': k, 'TOP.W': t('Localparam', '31'), 'TOP.w': g('TOP.W')})
        add('term', 'instance parameter range ' + d, 'module TOP(input k);\nsub #(3) u(k); sub v(k);\nendmodule\nmodule sub #(parameter W = 4) (input p);\n%s\nendmodule\n' % d,
            {'TOP.k': k, 'TOP.u.p': k, 'TOP.v.p': k, 'TOP.u.W': t('Parameter', '31'), 'TOP.v.W': t('Parameter', '31'),
             'TOP.u.w': g('TOP.u.W'), 'TOP.v.w': g('TOP.v.W')})
    for lo, hi, st in ((0, 3, 1), (1, 6, 2), (3, 4, 1)):
        want = {'TOP.k': k, 'TOP.i': t('Genvar', '31')}
        for i in range(lo, hi, st):
            want['TOP.G[%d].w' % i] = t('Wire', str(i))
        add('term', 'genvar range %d..%d' % (lo, hi), 'module TOP(input k);\ngenvar i;\ngenerate for (i = %d; i < %d; i = i + %d) begin : G\nwire [i:0] w;\nend endgenerate\nendmodule\n' % (lo, hi, st), want)
    # the passes number unnamed scopes alike, whatever comes before
    before = ['if (k) a <= k;', 'if (k) a <= k; else a <= !k;', 'case (k) 0: a <= k; 1: a <= a; default: a <= 1; endcase',
              'casez (k) 0: a <= k; default: a <= 1; endcase', 'for (i = 0; i < 2; i = i + 1) a <= i;', 'begin a <= k; end',
              'if (k) begin if (a) a <= k; end', 'if (k) ; else a <= k;', 'case (k) 0: ; 1: a <= k; endcase', 'unique case (k) 0: a <= k; 1: a <= 0; endcase']
    for x in before:
        for y in ('if (k) begin : L reg [2:0] n; n = k; a <= n; end', 'case (k) 0: a <= 0; 1: begin : L reg [2:0] n; n = k; a <= n; end endcase',
                  'begin begin : L reg [2:0] n; n = k; a <= n; end end'):
            want = {'TOP.k': k, 'TOP.a': t('Reg'), 'TOP.i': t('Integer', '31'), 'TOP.L.n': t('Reg', '2')}
            add('scope', 'after %s %s' % (x, y), 'module TOP(input k);\nreg a; integer i;\nalways @(posedge k) begin\n%s\n%s\nend\nendmodule\n' % (x, y),
                want, locate(ctx.repo, SV + 'visit_IfStatement'), 'the passes disagree on scopes')
        add('scope', 'always after %s' % x, 'module TOP(input k);\nreg a, b; integer i;\nalways @(posedge k) %s\nalways @(posedge k) if (k) begin : L reg n; n = k; b <= n; end\nendmodule\n' % x,
            {'TOP.k': k, 'TOP.a': t('Reg'), 'TOP.b': t('Reg'), 'TOP.i': t('Integer', '31'), 'TOP.L.n': t('Reg')},
            locate(ctx.repo, SV + 'visit_Always'), 'the passes disagree on scopes')
    for g in ('if (1) begin wire z; end', 'if (0) begin wire z; end', 'if (0) begin wire z; end else begin wire z; end',
              'for (j = 0; j < 2; j = j + 1) begin : X wire z; end'):
        want = {'TOP.k': k, 'TOP.j': t('Genvar', '31'), 'TOP.G.n': t('Wire')}
        if g.startswith('for'):
            want.update({'TOP.X[0].z': t('Wire'), 'TOP.X[1].z': t('Wire')})
        elif 'else' in g or '(1)' in g:
            want['TOP.z'] = t('Wire')
        add('scope', 'generate after %s' % g, 'module TOP(input k);\ngenvar j;\ngenerate %s endgenerate\ngenerate if (1) begin : G wire n; assign n = k; end endgenerate\nendmodule\n' % g,
            want, locate(ctx.repo, SV + 'visit_GenerateStatement'), 'the passes disagree on scopes')
    # what a function, a task or an initial block declares is no signal of the module
    wl = locate(ctx.repo, 'dataflow.visit.FrameTable.addSignal')
    base = {'TOP.k': k, 'TOP.a': t('Input', '3'), 'TOP.o': t('Output', '3')}
    LOCALS = [('input [3:0] p;', 'p'), ('input [3:0] p; reg z;', 'z'), ('input [3:0] p; reg [1:0] z;', 'z'), ('input [3:0] p; integer z;', 'z'),
              ('input [3:0] p, r; reg [5:2] z, y;', 'y'), ('input [3:0] z;', 'z')]
    OUTER = [('', {}), ('wire [7:0] z;', {'TOP.z': t('Wire', '7')}), ('reg [7:0] z, p;', {'TOP.z': t('Reg', '7'), 'TOP.p': t('Reg', '7')}),
             ('reg [7:0] z [0:3];', {'TOP.z': t('Reg', '7', '0', (('0', '3'),))})]
    for d, n in LOCALS:
        for o, e in OUTER:
            for pre in (True, False):
                if not pre and not o:
                    continue
                place = lambda f: 'module TOP(input k, input [3:0] a, output [3:0] o);\n%s\nendmodule\n' % (o + '\n' + f if pre else f + '\n' + o)
                key = '%s beside %s%s' % (d, o or 'nothing', '' if pre else ' after')
                want = dict(base, **e)
                f = 'function [3:0] f;\n%s\nf = p + 1;\nendfunction\n' % (d if ' p' in d else d + ' reg [3:0] p;')
                two = ', k' if ', r' in d else ''
                add('local', 'function %s' % key, place(f), want, wl, 'a local variable is registered as a signal of the module')
                add('local', 'called function %s' % key, place(f + 'assign o = f(a%s);\n' % two), want, wl, 'a local variable is registered as a signal of the module')
                add('local', 'task %s' % key, place('task f;\n%s\nbegin end\nendtask\n' % d), want, wl, 'a local variable is registered as a signal of the module')
    for n, f in (('task output', 'task f; input p; output [1:0] z; inout y; begin z = p; end endtask\n'), ('named block in a function', 'function [3:0] f; input [3:0] p; begin : B reg [2:0] z; z = p; f = z; end endfunction\nassign o = f(a);\n'),
                 ('named block in a task', 'task f; input p; begin : B reg [2:0] z; z = p; end endtask\n'), ('initial block', 'initial begin : B reg [2:0] z; z = 3; end\n'),
                 ('plain initial', 'reg [3:0] r; initial r = 0;\n'), ('function in a generate block', 'generate if (1) begin : G\nfunction [3:0] f; input [3:0] p; reg z; f = p; endfunction\nassign o = f(a);\nend endgenerate\n')):
        add('local', n, 'module TOP(input k, input [3:0] a, output [3:0] o);\n%sendmodule\n' % f, dict(base, **({'TOP.r': t('Reg', '3')} if 'plain' in n else {})), wl,
            'a local variable is registered as a signal of the module')
    return out


def resolution(ctx):
    out = []
    w = locate(ctx.repo, BV + 'searchTerminal')

    def add(key, txt, want, fails=None, **kw):
        def j(run):
            bs = {}
            for n, l in S.binds(run).items():
                for b in l:
                    if b.kind in ('parameter', 'localparam') or n.split('.')[-1].startswith('_rn'):
                        continue
                    q = plain(n)
                    if '?' in key:
                        b.tree = b.tree[2] or b.tree[3]
                    bs.setdefault(q, []).append(text(plain_tree(b.tree)).replace('=', ''))
            for n, x in want.items():
                if bs.get(n) != [x]:
                    return '%s gets %s instead of %s' % (n, bs.get(n), x)
            return None
        out.append(Shape('resolve', short(key), txt, j, w, 'a name resolves to another signal', fails=fails, **kw))
    H = 'module TOP(input k, input [3:0] a, input [3:0] b, output reg [3:0] q, output [3:0] o);\n'
    add('own module before parent', H + 'wire [3:0] x; assign x = a; sub u(b, o);\nendmodule\nmodule sub(input [3:0] p, output [3:0] y);\nwire [3:0] x; assign x = p; assign y = x;\nendmodule\n',
        {'TOP.x': 'TOP.a', 'TOP.u.x': 'TOP.u.p', 'TOP.u.y': 'TOP.u.x', 'TOP.o': 'TOP.u.y', 'TOP.u.p': 'TOP.b'})
    add('parent names are not visible', H + 'wire [3:0] x; assign x = a; sub u(b, o);\nendmodule\nmodule sub(input [3:0] p, output [3:0] y);\nassign y = x;\nendmodule\n', {}, fails='DefinitionError')
    add('undeclared name', H + 'assign o = nosuch;\nendmodule\n', {}, fails='DefinitionError')
    F = 'function [3:0] f;\ninput [3:0] x;\nf = x + 1;\nendfunction\n'
    sub = lambda body: 'module sub(input [3:0] p, output [3:0] y);\n%sendmodule\n' % body
    add('functions of the parent are not visible', H + F + 'sub u(b, o);\nendmodule\n' + sub('assign y = f(p);\n'), {}, fails='DefinitionError')
    add('functions of a child are not visible', H + 'assign o = f(a); wire [3:0] z; sub u(b, z);\nendmodule\n' + sub(F + 'assign y = f(p);\n'), {}, fails='DefinitionError')
    add('functions of another module are not visible', H + 'wire [3:0] z; sub u(b, z); sub2 v(a, o);\nendmodule\n' + sub(F + 'assign y = f(p);\n') + sub('assign y = f(p);\n').replace('sub(', 'sub2('), {}, fails='DefinitionError')
    add('functions of a module above in a generate block are not visible', H + F + 'generate if (1) begin : G\nsub u(b, o);\nend endgenerate\nendmodule\n' + sub('assign y = f(p);\n'), {}, fails='DefinitionError')
    add('parameters of the parent are not visible', H + 'parameter P = 2; sub u(b, o);\nendmodule\n' + sub('assign y = p + P;\n'), {}, fails='DefinitionError')
    add('parameters of the parent are not visible in ranges', H + 'parameter P = 2; sub u(b, o);\nendmodule\n' + sub('wire [P:0] w; assign y = p;\n'), {}, fails='Error')
    add('genvars of the parent are not visible', H + 'genvar i; generate for (i = 0; i < 2; i = i + 1) begin : G\nwire [3:0] z; sub u(b, z);\nend endgenerate\nendmodule\n' + sub('assign y = p + i;\n'), {}, fails='DefinitionError')
    add('signals of a generate block above are not visible', H + 'generate if (1) begin : G\nwire [3:0] z; assign z = a; sub u(b, o);\nend endgenerate\nendmodule\n' + sub('assign y = z;\n'), {}, fails='DefinitionError')
    add('signals of a child are not visible', H + 'wire [3:0] z; sub u(b, z); assign o = w;\nendmodule\n' + sub('wire [3:0] w; assign w = p; assign y = w;\n'), {}, fails='DefinitionError')
    add('signals of a named block are not visible outside', H + 'always @(posedge k) begin : L\nreg [3:0] n; n <= a;\nend\nalways @(posedge k) q <= n;\nendmodule\n', {}, fails='DefinitionError')
    add('own function before that of the parent', H + F + 'sub u(b, o);\nendmodule\n' + sub(F.replace('x + 1', 'x - 1') + 'assign y = f(p);\n'), {})
    add('block declaration shadows', H + 'reg [3:0] n;\nalways @(posedge k) begin : L\n reg [3:0] n;\n n <= a;\n q <= n;\nend\nalways @(posedge k) n <= b;\nendmodule\n',
        {'TOP.L.n': 'TOP.a', 'TOP.q': 'TOP.L.n', 'TOP.n': 'TOP.b'})
    add('inner block shadows outer', H + 'always @(posedge k) begin : L\n reg [3:0] n;\n n <= a;\n begin : M\n reg [3:0] n;\n n <= b;\n q <= n;\n end\nend\nendmodule\n',
        {'TOP.L.n': 'TOP.a', 'TOP.L.M.n': 'TOP.b', 'TOP.q': 'TOP.L.M.n'})
    add('outer visible inside', H + 'always @(posedge k) begin : L\n reg [3:0] n;\n n <= a;\n begin : M\n reg [3:0] m;\n m <= n;\n q <= m;\n end\nend\nendmodule\n',
        {'TOP.L.n': 'TOP.a', 'TOP.L.M.m': 'TOP.L.n', 'TOP.q': 'TOP.L.M.m'})
    add('sibling blocks', H + 'reg [3:0] r;\nalways @(posedge k) begin : L\n reg [3:0] n;\n n <= a;\n q <= n;\nend\nalways @(posedge k) begin : M\n reg [3:0] n;\n n <= b;\n r <= n;\nend\nendmodule\n',
        {'TOP.L.n': 'TOP.a', 'TOP.q': 'TOP.L.n', 'TOP.M.n': 'TOP.b', 'TOP.r': 'TOP.M.n'})
    add('generate block shadows', H + 'wire [3:0] x; assign x = a;\ngenerate for (i = 0; i < 2; i = i + 1) begin : G\n wire [3:0] x; assign x = b; wire [3:0] y; assign y = x;\nend endgenerate\ngenvar i;\nassign o = x;\nendmodule\n'.replace('generate for', 'genvar i;\ngenerate for', 1).replace('endgenerate\ngenvar i;', 'endgenerate'),
        {'TOP.x': 'TOP.a', 'TOP.G[0].x': 'TOP.b', 'TOP.G[1].x': 'TOP.b', 'TOP.G[0].y': 'TOP.G[0].x', 'TOP.G[1].y': 'TOP.G[1].x', 'TOP.o': 'TOP.x'})
    add('outer visible in generate', H + 'wire [3:0] x; assign x = a;\ngenvar i;\ngenerate for (i = 0; i < 2; i = i + 1) begin : G\n wire [3:0] y; assign y = x + i;\nend endgenerate\nendmodule\n',
        {'TOP.G[0].y': 'Plus(TOP.x, 0)', 'TOP.G[1].y': 'Plus(TOP.x, 1)'})
    add('hierarchical names', H + 'genvar i;\ngenerate for (i = 0; i < 3; i = i + 1) begin : G\n wire [3:0] x, y; assign x = a + i;\nend endgenerate\nassign o = G[1].x - G[2].x;\nassign G[0].y = b;\nassign G[2].y = G[0].x;\nendmodule\n',
        {'TOP.o': 'Minus(TOP.G[1].x, TOP.G[2].x)', 'TOP.G[0].y': 'TOP.b', 'TOP.G[2].y': 'TOP.G[0].x', 'TOP.G[1].x': 'Plus(TOP.a, 1)'})
    add('hierarchical block names', H + 'always @(posedge k) begin : L\n reg [3:0] n;\n n <= a;\n begin : M\n reg [3:0] n;\n n <= b;\n end\nend\nassign o = L.n + L.M.n;\nendmodule\n',
        {'TOP.o': 'Plus(TOP.L.n, TOP.L.M.n)'})
    add('hierarchical instance names', H + 'sub u(b, o); sub v(a, q);\nwire [3:0] x; assign x = u.z & v.z;\nendmodule\nmodule sub(input [3:0] p, output [3:0] y);\nwire [3:0] z; assign z = p; assign y = z;\nendmodule\n',
        {'TOP.x': 'And(TOP.u.z, TOP.v.z)'})
    add('hierarchical select', H + 'generate if (1) begin : G\n wire [3:0] x; assign x = a; wire [3:0] y;\nend endgenerate\nassign o = G.x[2];\nassign G.y[1:0] = b;\nendmodule\n',
        {'TOP.o': 'TOP.G.x[2:2]', 'TOP.G.y': 'TOP.b'})
    add('nested generate loops', H + 'genvar i, j;\ngenerate for (i = 0; i < 2; i = i + 1) begin : G\n for (j = 0; j < 2; j = j + 1) begin : H\n  wire [3:0] x; assign x = a + i * j;\n end\nend endgenerate\nassign o = G[1].H[0].x;\nendmodule\n',
        {'TOP.G[0].H[1].x': 'Plus(TOP.a, Times(0, 1))', 'TOP.G[1].H[1].x': 'Plus(TOP.a, Times(1, 1))', 'TOP.o': 'TOP.G[1].H[0].x'})
    G0 = 'genvar i, j;\ngenerate for (i = 0; i < 3; i = i + 1) begin : G\n wire [3:0] x, y; assign x = a + i;\nend endgenerate\n'
    add('hierarchical names in another loop', H + G0 + 'generate for (j = 0; j < 3; j = j + 1) begin : M\n assign G[j].y = G[2 - j].x;\nend endgenerate\nendmodule\n',
        dict(('TOP.G[%d].y' % n, 'TOP.G[%d].x' % (2 - n)) for n in range(3)))
    add('hierarchical names in the own loop', H + 'genvar i;\ngenerate for (i = 0; i < 3; i = i + 1) begin : G\n wire [3:0] x; if (i == 0) begin : Z\n assign x = a; end else begin : S\n assign x = G[i - 1].x; end\nend endgenerate\nendmodule\n',
        {})
    add('hierarchical names in a loop with an instance', H + 'genvar i;\nwire [3:0] z; assign z = G[1].u.y;\ngenerate for (i = 0; i < 3; i = i + 1) begin : G\n wire [3:0] n; sub u(a, n); wire [3:0] m; assign m = G[i].u.w + G[i].n;\nend endgenerate\nendmodule\n'
        + sub('wire [3:0] w; assign w = p; assign y = w;\n'), dict([('TOP.z', 'TOP.G[1].u.y')] + [('TOP.G[%d].m' % n, 'Plus(TOP.G[%d].u.w, TOP.G[%d].n)' % (n, n)) for n in range(3)]))
    for n, d, x in (('block', 'begin : L\n reg [3:0] n;\n n <= G[1].x;\n q <= L.n;\nend', {'TOP.L.n': 'TOP.G[1].x', 'TOP.q': 'TOP.L.n'}), ('statement', 'q <= G[2].x & G[0].x;', {'TOP.q': 'And(TOP.G[2].x, TOP.G[0].x)'})):
        add('hierarchical names in a %s' % n, H + G0 + 'always @(posedge k) %s\nendmodule\n' % d, x)
        add('hierarchical names in a %s of a loop' % n, H + G0 + 'generate for (j = 0; j < 1; j = j + 1) begin : M\nalways @(posedge k) %s\nend endgenerate\nendmodule\n' % d.replace('L.n', 'M[0].L.n'),
            dict((y.replace('TOP.L', 'TOP.M[0].L'), z.replace('TOP.L', 'TOP.M[0].L')) for y, z in x.items()))
    add('hierarchical names in a function', H + G0 + 'function [3:0] f;\ninput [3:0] p;\nf = p + G[1].x;\nendfunction\nassign o = f(a);\nendmodule\n', {})
    add('hierarchical names of an instance in a generate block of its module', H + 'sub u(b, o);\nendmodule\n' + sub('generate if (1) begin : G\n wire [3:0] w; assign w = p; wire [3:0] v; assign v = G.w;\nend endgenerate\nwire [3:0] t; assign t = G.v; assign y = t;\n').replace('?', ''),
        {'TOP.u.t': 'TOP.u.G.v'})
    add('function arguments shadow', H + 'function [3:0] f;\ninput [3:0] a;\nf = a + b;\nendfunction\nassign o = f(b);\nendmodule\n', {})
    add('implicit wire', H + 'assign imp = k;\nassign o = imp;\nendmodule\n', {'TOP.imp': 'TOP.k', 'TOP.o': 'TOP.imp'})
    SUB = 'module sub(input p, output [3:0] y);\nassign y = p;\nendmodule\n'
    for nt, ok in (('wire', True), ('none', False)):
        for other in ('wire', 'none'):
            for inst in ('', 'sub u(k, o);\n'):
                add('implicit net where the default is %s%s' % (nt, ', after an instance where it is %s' % other if inst else ', other module %s' % other),
                    H + inst + 'assign imp = k;\nwire [3:0] x; assign x = imp;\nendmodule\n' + SUB, {'TOP.imp': 'TOP.k', 'TOP.x': 'TOP.imp'},
                    fails=None if ok else 'FormatError', nettype={'TOP': nt, 'sub': other})
    add('implicit net at an instance output', H + 'sub u(k, imp);\nassign o = imp;\nendmodule\n' + SUB, {'TOP.imp': 'TOP.u.y', 'TOP.o': 'TOP.imp'})
    add('parameter of the enclosing module', H + 'parameter P = 2;\nsub #(7) u(b, o);\nwire [3:0] x; assign x = P;\nendmodule\nmodule sub(input [3:0] p, output [3:0] y);\nparameter P = 3;\nassign y = P;\nendmodule\n',
        {'TOP.x': 'TOP.P', 'TOP.u.y': 'TOP.u.P'})
    return out


def hierarchy(ctx):
    out = []
    w = locate(ctx.repo, 'dataflow.visit.FrameTable.getAllInstances')
    SUB = 'module mid(input p);\nleaf l0(p); leaf l1(p);\nendmodule\nmodule leaf(input p);\nendmodule\n'

    def add(key, txt, want):
        def j(run):
            E, st = run.E, run.st
            v = E.snap(E.call(E.getattr(run.an, 'getInstances', st), [], {}, st), st)
            have = sorted((plain(chain(items(x)[0])), py(items(x)[1])) for x in items(v))
            return None if have == sorted(want) else 'instances %s instead of %s' % (have, sorted(want))
        out.append(Shape('instances', key, txt, j, w, 'the instance table differs from the hierarchy'))
    add('flat', 'module TOP(input k);\nleaf a(k); leaf b(k);\nendmodule\n' + SUB, [('TOP', 'TOP'), ('TOP.a', 'leaf'), ('TOP.b', 'leaf')])
    add('two levels', 'module TOP(input k);\nmid a(k), b(k);\nendmodule\n' + SUB,
        [('TOP', 'TOP')] + [x for m in 'ab' for x in [('TOP.' + m, 'mid'), ('TOP.%s.l0' % m, 'leaf'), ('TOP.%s.l1' % m, 'leaf')]])
    add('array', 'module TOP(input [1:0] k);\nleaf a[1:0](k);\nendmodule\n' + SUB, [('TOP', 'TOP'), ('TOP.a_0', 'leaf'), ('TOP.a_1', 'leaf')])
    add('generate', 'module TOP(input k);\ngenvar i;\ngenerate for (i = 0; i < 2; i = i + 1) begin : G\n mid m(k);\nend if (0) begin : H leaf x(k); end else begin : J leaf y(k); end endgenerate\nendmodule\n' + SUB,
        [('TOP', 'TOP'), ('TOP.J.y', 'leaf')] + [x for i in (0, 1) for x in [('TOP.G[%d].m' % i, 'mid'), ('TOP.G[%d].m.l0' % i, 'leaf'), ('TOP.G[%d].m.l1' % i, 'leaf')]])
    return out


def check(ctx):
    P = pipeline(ctx)
    run_all(ctx, P, shapes(ctx) + resolution(ctx) + hierarchy(ctx))
    ctx.floor('term', 100)
    ctx.floor('scope', 30)
    ctx.floor('local', 40)
    ctx.floor('resolve', 15)
    ctx.floor('instances', 4)
