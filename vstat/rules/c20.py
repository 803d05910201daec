"""Programs are carried through the analyzer, the constant resolver and the dataflow code generator, all interpreted from source; the
emitted module is read by an independent reader and compared item by item with the analyzed signals and bindings: ports, one legal
declaration per signal, one statement per binding, sensitivities, and for chosen targets exactly the signals they depend on."""
import re

from .. import vread as V
from ..dfrun import Failed, Undecided
from ..dfshape import Opaque, chain, cls, entries, field, fields, items, py
from ..dftree import Tree
from ..engine import K, RaiseSig, isK, kv
from ..repo import AnalysisBroken
from ..shapes import Shape, locate, pipeline, run_all, short
from .c19 import resolved

ASSUMPTIONS = ['Flat names are whatever the scope path renders to; they must be legal and distinct within the design, not of a particular form.']
GEN = 'dataflow.dataflow_codegen.VerilogCodeGenerator'


class Full(Tree):
    """Reader with full signal paths and values of every type."""

    def df(self, t):
        c = cls(t)
        if c == 'DFTerminal':
            return ('T', chain(field(t, 'name')))
        if c == 'DFEvalValue':
            f = fields(t)
            if py(f['isstring']):
                return ('S', py(f['value']))
            return ('V', py(f['value']), py(f['width']) if not py(f['isfloat']) else 32)
        return Tree.df(self, t)


def leaves(t, out):
    if isinstance(t, tuple):
        if t[:1] == ('T',):
            out.add(t[1])
        else:
            for x in t:
                leaves(x, out)
    return out


class Bd(object):
    __slots__ = ('dest', 'msb', 'lsb', 'ptr', 'tree', 'kind', 'al')


class Table(object):
    def __init__(self, run, terms, binds):
        E, st = run.E, run.st
        R = Full(E, st)
        self.terms, self.binds = {}, {}
        self.keys = []
        for x, v in entries(E, terms, st):
            f = fields(E.snap(v, st))
            dims = () if f['dims'].k == 'K' else tuple(tuple(R.df(y) for y in items(d)) for d in items(f['dims']))
            self.terms[chain(x)] = (set(py(y) for y in items(f['termtype'])), R.df(f['msb']), R.df(f['lsb']), dims)
            self.keys.append((chain(x), x))
        for x, v in entries(E, binds, st):
            l = []
            for y in items(E.snap(v, st)):
                f = fields(y)
                b = Bd()
                b.dest = chain(f['dest'])
                b.msb, b.lsb, b.ptr, b.tree = [R.df(f[n]) for n in ('msb', 'lsb', 'ptr', 'tree')]
                b.kind = py(f['parameterinfo'])
                b.al = None
                if cls(f['alwaysinfo']):
                    a = fields(f['alwaysinfo'])
                    b.al = tuple(chain(a[n]) if n.endswith('name') else py(a[n]) for n in ('clock_name', 'clock_edge', 'clock_bit', 'reset_name', 'reset_edge', 'reset_bit'))
                l.append(b)
            self.binds[chain(x)] = l


def closure(T, targets, skip):
    """Everything the targets depend on."""
    seen, todo = set(), list(targets)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        out = set()
        if n in T.terms:
            leaves(T.terms[n][1:], out)
        for b in T.binds.get(n, ()):
            leaves((b.msb, b.lsb, b.ptr, b.tree), out)
            if b.al:
                out |= set(x for x in (b.al[0], b.al[3]) if x)
        todo += sorted(out)
    return seen - skip


def judge(targets=(), clock='CLK', reset='RST_X', top='TOP', default=False):
    def j(run):
        E, st = run.E, run.st
        consts, rterms, rbinds = resolved(run)
        before, after = Table(run, run.terms, run.binddict), Table(run, rterms, rbinds)
        call = lambda o, m, *a: E.call(E.getattr(o, m, st), list(a), {}, st)
        try:
            G = E.call(E.cls_term(E.repo.cls(GEN)), [K(top), run.terms, run.binddict, rterms, rbinds, consts], {}, st)
            if not default:
                call(G, 'set_clock_info', K(clock), K('posedge'))
                call(G, 'set_reset_info', K(reset), K('negedge'))
            s = E.simp(call(G, 'generateCode', E.new_list(st, [K(t) for t in targets])), st)
            f = E.fn(E.repo.mod('utils.util').funcs['toFlatname'])
            keys = [(n, E.simp(E.call(f, [E.thaw(k, st)], {}, st), st)) for n, k in before.keys]
        except RaiseSig as x:
            raise Failed(x.exc)
        if not isK(s) or not all(isK(v) for _, v in keys):
            raise Opaque('the text is not constant')
        text = kv(s)
        run.funcs |= set(E.called)
        try:
            mod = V.module(text)
        except V.Illegal as x:
            return 'the emitted module is not Verilog: %s' % x
        ident = lambda n: V.Reader(n).name()
        try:
            return compare(mod, dict((n, ident(kv(v))) for n, v in keys), before, after, targets, clock, reset, top)
        except V.Illegal as x:
            return 'a flat name is not an identifier: %s' % x
    return j


def compare(mod, flat, before, after, targets, clock, reset, top):
    name, ports, its = mod
    sysnames = set('%s.%s' % (top, n) for n in (clock, reset))
    sysin = set(n for n in sysnames if n in before.terms and 'Input' in before.terms[n][0])
    want = (closure(before, targets, set()) if targets else set(before.terms)) - sysin
    par = lambda n: before.terms[n][0] & {'Parameter', 'Localparam', 'Supply'}
    for n in sorted(want):
        if n not in before.terms:
            return '%s is read but is not a signal of the design' % n
    F = lambda n: flat[n]
    # names
    back = {}
    for n in sorted(want):
        if flat[n] in back and not par(n):
            return 'the signals %s and %s are both called %s' % (back[flat[n]], n, flat[n])
        back[flat[n]] = n
    # header
    io = [F(n) for n in want if before.terms[n][0] & {'Input', 'Output', 'Inout'} and n.count('.') == 1 and not par(n)]
    if sorted(ports) != sorted(io + [clock, reset, 'HT_enable']):
        return 'the ports are %s instead of %s' % (', '.join(sorted(ports)), ', '.join(sorted(io + [clock, reset, 'HT_enable'])))
    # declarations
    decl, pars, known = {}, {}, set()
    rest = []
    for it in its:
        if it[0] == 'decl':
            if it[3] in decl:
                return '%s is declared twice' % it[3]
            for x in leaves((it[2], it[4]), set()):
                if x not in known:
                    return 'the declaration of %s uses %s before it is declared' % (it[3], x)
            decl[it[3]] = it
            known.add(it[3])
        elif it[0] in ('parameter', 'localparam'):
            if it[1][0] != 'T':
                return 'the parameter %s has a select' % V.show(it[1])
            for x in leaves(it[2], set()):
                if x not in known:
                    return 'the parameter %s uses %s before it is declared' % (it[1][1], x)
            if it[1][1] in pars:
                return 'the parameter %s is given twice' % it[1][1]
            pars[it[1][1]] = it
            known.add(it[1][1])
        else:
            rest.append(it)
    fc, fr = [('%s_%s' % (top, n)) for n in (clock, reset)]
    for n in (clock, reset, 'HT_enable'):
        if n not in decl or decl[n][1] != ('input',):
            return 'the port %s is not declared as an input' % n
    both = lambda g: g(before) or g(after)
    for n in sorted(want):
        ts = before.terms[n][0]
        if par(n):
            p = pars.get(F(n))
            if p is None:
                return 'the parameter %s is missing' % n
            if F(n) in decl:
                return 'the parameter %s is also declared as a signal' % n
            if not any(len(T.binds.get(n, ())) and V.same(T.binds[n][-1].tree, p[2], F) for T in (before, after)):
                return 'the parameter %s is given the value %s' % (n, V.show(p[2]))
            continue
        d = decl.get(F(n))
        if d is None:
            return 'the signal %s is not declared' % n
        kinds = d[1]
        if n.count('.') == 1:
            for a, b in (('Input', 'input'), ('Output', 'output'), ('Inout', 'inout')):
                if (a in ts) != (b in kinds):
                    return 'the signal %s is declared %s' % (n, ' '.join(kinds))
        elif set(kinds) & {'input', 'output', 'inout'}:
            return 'the inner signal %s is declared %s' % (n, ' '.join(kinds))
        if ('Reg' in ts) != ('reg' in kinds) or ('Integer' in ts and 'Reg' not in ts) != ('integer' in kinds) or 'Genvar' in ts and 'genvar' not in kinds:
            return 'the signal %s (%s) is declared %s' % (n, ' '.join(sorted(ts)), ' '.join(kinds))
        if not set(kinds) & {'integer', 'genvar'}:
            ok = False
            for T in (before, after):
                m, l = T.terms[n][1:3]
                ok = ok or (d[2] is None) == (m is None) and (m is None or V.same(m, d[2][0], F) and V.same(l, d[2][1], F))
            if not ok:
                return 'the signal %s is declared with the range %s' % (n, d[2] and [V.show(x) for x in d[2]])
        if not any(len(T.terms[n][3]) == len(d[4]) and all(V.same(x, z, F) and V.same(y, w, F) for (x, y), (z, w) in zip(T.terms[n][3], d[4])) for T in (before, after)):
            return 'the signal %s is declared with other dimensions' % n
    extra = set(decl) - set(F(n) for n in want) - {clock, reset, 'HT_enable', fc, fr}
    if extra:
        return 'it declares %s, which %s' % (', '.join(sorted(extra)), 'the targets do not depend on' if targets else 'the design does not have')
    if set(pars) - set(F(n) for n in want):
        return 'it gives parameters %s besides' % sorted(set(pars) - set(F(n) for n in want))
    # statements
    for n, x in ((fc, clock), (fr, reset)):
        it = ('assign', ('T', n), ('T', x))
        if rest.count(it) != 1:
            return '%s is not connected to the port %s' % (n, x)
        rest.remove(it)
    for it in rest:
        used = leaves(it, set())
        for x in sorted(used):
            if x not in known:
                return 'a statement uses %s, which is not declared' % x
        lv = it[1] if it[0] == 'assign' else first(it[2])
        n = lv
        while n is not None and n[0] != 'T':
            n = n[1]
        if n is None:
            continue
        k = decl.get(n[1], (0, ('parameter',)))[1]
        var = bool(set(k) & {'reg', 'integer'})
        if var != (it[0] == 'always'):
            return '%s (%s) is assigned by %s' % (n[1], ' '.join(k), it[0])
    for n in sorted(want):
        if par(n) or 'Genvar' in before.terms[n][0]:
            continue
        bs = before.binds.get(n, [])
        rs = after.binds.get(n, [])
        if len(bs) != len(rs):
            return 'resolving changes the number of bindings of %s' % n
        for b, r in zip(bs, rs):
            hit = [it for it in rest if matches(b, r, it, F)]
            if not hit:
                near = [it for it in rest if ('T', F(n)) in (root(it),)]
                return 'no statement for %s%s <- %s%s' % (n, rng(b), V.show(nice(b.tree)), '; instead: %s' % ' / '.join(show(x) for x in near[:3]) if near else '')
            rest.remove(hit[0])
    if rest:
        return 'a statement without a binding: %s' % show(rest[0])
    return None


def first(s):
    if s[0] in ('b', 'nb'):
        return s[1]
    for x in (s[1:] if s[0] == 'blk' else s[2:]):
        f = first(x) if x is not None else None
        if f is not None:
            return f
    return None


def root(it):
    n = it[1] if it[0] == 'assign' else first(it[2])
    while n is not None and n[0] != 'T':
        n = n[1]
    return n


def nice(t):
    return t if not isinstance(t, tuple) else ('K', str(t[1])) if t[:1] == ('V',) else ('K', t[0] + str(t[1])) if t[:1] in (('U',), ('H',)) else tuple(nice(x) for x in t)


def rng(b):
    s = '' if b.ptr is None else '[%s]' % V.show(nice(b.ptr))
    return s if b.msb is None else '%s[%s:%s]' % (s, V.show(nice(b.msb)), V.show(nice(b.lsb)))


def show(it):
    if it[0] == 'assign':
        return 'assign %s = %s' % (V.show(it[1]), V.show(it[2]))
    return 'always @(%s) %s <- %s' % (it[1], V.show(first(it[2]) or ('T', '?')), it[2])


def matches(b, r, it, F):
    comb = b.al is None or b.al[0] is None
    if (it[0] == 'assign') != (b.al is None):
        return False
    lv = it[1] if it[0] == 'assign' else first(it[2])
    if lv is None:
        return False
    okl = False
    for x in (b, r):
        want = ('T', x.dest) if x.ptr is None else ('[]', ('T', x.dest), x.ptr)
        want = want if x.msb is None or x.lsb is None else ('[:]', want, x.msb, x.lsb)
        okl = okl or V.same(want, lv, F)
    if not okl:
        return False
    if it[0] == 'assign':
        return any(V.same(x.tree, it[2], F, lv) for x in (b, r))
    if comb:
        if it[1] != '*':
            return False
    else:
        ws = [(e, F(n), w or 0) for n, e, w in (b.al[:3], b.al[3:]) if n]
        if it[1] == '*' or [(e, (x if x[0] == 'T' else x[1])[1], 0 if x[0] == 'T' else V.literal(x[2][1])[0]) for e, x in it[1]] != ws:
            return False
    try:
        eff = V.effect(it[2], lv, 'b' if comb else 'nb')
    except V.Illegal:
        return False
    return any(V.same_stmt(x.tree, eff, F, lv) for x in (b, r))


HEAD = 'module TOP(input CLK, input RST_X, input [7:0] a, b, input c, d, output reg [7:0] q, output [7:0] y);\n'
SUB = 'module sub #(parameter N = 2)(input CLK, input wire [N-1:0] x, output reg [N-1:0] y, output wire z, inout wire t);\nlocalparam M = N - 1;\nassign z = ^x[M:0];\nalways @(posedge CLK) y <= ~x;\nendmodule\n'
LEAF = 'module leaf(input wire [7:0] i, output [7:0] o);\nassign o = i + 1;\nendmodule\n'


def programs():
    """(name, text, targets lists, options)"""
    S = lambda body, *mods: HEAD + body + 'endmodule\n' + ''.join(mods)
    P = []
    add = lambda n, t, *targets, **kw: P.append((n, t, [()] + [tuple(x.split()) for x in targets], kw))
    add('assign operators', S('assign y = ((a + b) * 3 - (a & b)) >> (c ? 1 : d);\n'), 'TOP.y')
    add('unary operators', S('assign y = {~a[0], !b, &a, ~&b, |a, ~|b, ^a, ~^b};\nwire [7:0] n; assign n = -a - (-b);\n'), 'TOP.y', 'TOP.n')
    add('comparison chain', S('wire [7:0] t; assign t = (a < b) + (a <= b) + (a == b) + (a != b) + (a === b) + (a >= b);\nassign y = t ** 2 % 5 / 3;\n'), 'TOP.t')
    add('parts', S('assign y[1:0] = a[3:2];\nassign y[2] = b[4];\nassign y[7:3] = {a[0], b[3:0]};\n'), 'TOP.y')
    add('parameters', S('parameter P = 3;\nlocalparam L = P * 2;\nlocalparam W = L + 1;\nwire [L-1:0] t;\nassign t = a + P;\nassign y = t[P:0] + W;\n'), 'TOP.y', 'TOP.t')
    add('registers', S('always @(posedge CLK or negedge RST_X) if (!RST_X) q <= 0; else if (c) q <= a; else if (d) q <= q + b;\nassign y = q;\n'), 'TOP.y', 'TOP.q')
    add('two registers', S('reg [3:0] s; reg t;\nalways @(posedge CLK) begin s <= s + 1; if (c) begin t <= s == 3; q <= a; end else q[3:0] <= s; end\n'), 'TOP.t', 'TOP.q', 'TOP.s TOP.q')
    add('negative edges', S('always @(negedge CLK or posedge RST_X) if (RST_X) q <= 8\'hff; else q <= a;\n'), 'TOP.q')
    add('other clock', S('wire clk2; assign clk2 = CLK & c;\nreg r;\nalways @(posedge clk2) r <= d;\nalways @(posedge CLK) q <= r;\n'), 'TOP.q', 'TOP.r')
    add('vector clock', S('wire [3:0] clks; assign clks = a[3:0];\nalways @(posedge clks[2]) q <= b;\n'), 'TOP.q')
    add('vector reset', S('wire [3:0] rsts; assign rsts = a[3:0];\nalways @(posedge CLK or negedge rsts[1]) if (!rsts[1]) q <= 0; else q <= b;\n'), 'TOP.q')
    add('unread reset', S('wire rst2; assign rst2 = c;\nalways @(posedge CLK or posedge rst2) q <= b;\n'), 'TOP.q')
    add('combinational', S('reg [7:0] t;\nalways @* begin t = a; if (c) t = b; else if (d) t = 8\'d3; end\nassign y = t;\n'), 'TOP.y', 'TOP.t')
    add('latch', S('always @(a or c) if (c) q = a;\n'), 'TOP.q')
    add('case', S('always @(posedge CLK) case (a[1:0]) 0: q <= b; 1, 2: q <= a; default: q <= 0; endcase\n'), 'TOP.q')
    add('chain', S('reg [7:0] t, u;\nalways @* begin t = a + b; u = t + 1; t = u & 8\'h0f; end\nassign y = t;\n'), 'TOP.y', 'TOP.u')
    add('memory', S('reg [7:0] m [0:3]; reg [1:0] i;\nalways @(posedge CLK) begin i <= i + 1; m[i] <= a; q <= m[b[1:0]]; end\n'), 'TOP.q', 'TOP.m')
    add('memory two dimensions', S('reg [3:0] m [0:3][0:1];\nalways @(posedge CLK) begin m[a[1:0]][0] <= b; m[1][1] <= a; end\nassign y = m[1][0];\n'), 'TOP.y')
    add('written index', S('reg [7:0] v; reg [2:0] i; wire [2:0] j; assign j = a;\nalways @(posedge CLK) begin i <= j; v[i] <= c; end\n'), 'TOP.v')
    add('instances', S('wire z0, z1; wire t0;\nsub #(.N(4)) s0 (.CLK(CLK), .x(a[3:0]), .y(y[3:0]), .z(z0), .t(t0));\nsub s1 (.CLK(CLK), .x(b[1:0]), .y(y[5:4]), .z(z1));\n', SUB), 'TOP.y', 'TOP.z1', 'TOP.s0.y')
    add('nested instances', S('mid m (.i(a), .o(y));\n', 'module mid(input [7:0] i, output [7:0] o);\nwire [7:0] t;\nleaf l0 (.i(i), .o(t));\nleaf l1 (.i(t), .o(o));\nendmodule\n', LEAF), 'TOP.y', 'TOP.m.l0.o')
    add('generate', S('genvar i;\ngenerate for (i = 0; i < 2; i = i + 1) begin : g\nwire [7:0] w;\nassign w = a + i;\nleaf l (.i(w), .o());\nend endgenerate\n', LEAF), 'TOP.g[1].w' if False else 'TOP.a')
    add('two generates', S('genvar i;\ngenerate for (i = 0; i < 2; i = i + 1) begin : g\nwire w; assign w = a[i];\nend\nfor (i = 0; i < 2; i = i + 1) begin : h\nwire w; assign w = b[i];\nend endgenerate\n'))
    add('generate if', S('parameter P = 1;\ngenerate if (P) begin : g wire w; assign w = c; end else begin : h wire w; assign w = d; end endgenerate\n'))
    add('function', S('function [3:0] f; input [3:0] x; input n; f = n ? x + 1 : x; endfunction\nassign y = f(a[3:0], c) + f(b[3:0], d);\n'), 'TOP.y')
    add('function with if', S('function [3:0] f; input [3:0] x; if (x > 2) f = x - 1; else f = 0; endfunction\nalways @(posedge CLK) q <= f(a);\n'), 'TOP.q')
    add('second clock', 'module TOP(input CLK, input clk2, input rst_b, input [3:0] a, output reg [3:0] q, output reg r);\nalways @(posedge clk2 or negedge rst_b) if (!rst_b) q <= 0; else q <= a;\nalways @(posedge CLK) r <= q[0];\nendmodule\n', 'TOP.q', 'TOP.r')
    add('clock by instance', S('wire dclk; dv v (.clkin(CLK), .o(dclk));\nreg r; always @(posedge dclk) r <= c;\nassign y = r;\n', 'module dv(input clkin, output reg o);\nalways @(posedge clkin) o <= !o;\nendmodule\n'), 'TOP.y', 'TOP.r')
    add('feedback', S('reg [7:0] t, u;\nalways @(posedge CLK) begin t <= u + 1; u <= t; end\nassign y = u;\n'), 'TOP.y', 'TOP.t')
    add('shared source', S('wire [7:0] s, t, u; assign s = a; assign t = s + 1; assign u = s + t;\nassign y = t + u;\nwire [7:0] o; assign o = s;\n'), 'TOP.y', 'TOP.o', 'TOP.o TOP.u', 'TOP.u TOP.o')
    add('dead code', S('wire [7:0] p1, p2; assign p1 = a; assign p2 = p1;\nassign y = b;\n'), 'TOP.y', 'TOP.p2')
    add('range from parameters', S('parameter W = 4; parameter D = 2;\nreg [W-1:0] m [0:D-1]; wire [W*D-1:W] v;\nassign v = a; always @(posedge CLK) m[c] <= v;\nassign y = m[d];\n'), 'TOP.y', 'TOP.v')
    add('part of a register', S('always @(posedge CLK) begin if (c) q[3:0] <= a; if (d) q[7:4] <= b; end\n'), 'TOP.q')
    add('part with reset', S('always @(posedge CLK or negedge RST_X) begin if (!RST_X) q <= 0; else begin if (c) q[0] <= d; else q[7:1] <= a; end end\n'), 'TOP.q')
    add('target alone', S('assign y = a;\n'), 'TOP.a', 'TOP.a TOP.y', 'TOP.c')
    add('loop', S('integer i; reg [7:0] r;\nalways @* for (i = 0; i < 3; i = i + 1) r[i] = a[i] ^ b[i];\nassign y = r;\n'), 'TOP.y')
    add('named block', S('reg [7:0] o;\nalways @(posedge CLK) begin : blk reg [7:0] k; k = a + 1; o <= k; end\n'), 'TOP.o')
    add('repeat', S('assign y = {4{c, d}};\nwire [7:0] e; assign e = {{3{a[0]}}, b[4:0]};\n'), 'TOP.e')
    add('net types', S('wire [3:0] w; tri [3:0] t; supply0 g; supply1 v;\nassign w = a; assign t = w;\nassign y = {t, g, v};\n'), 'TOP.y')
    add('ports with types', 'module TOP(input wire CLK, input wire RST_X, input wire [3:0] a, output wire [3:0] y, output reg r, inout [3:0] z);\nassign y = a;\nassign z = y;\nalways @(posedge CLK) r <= a[0];\nsub s (.CLK(CLK), .x(a[1:0]), .t(z[0]));\nendmodule\n' + SUB, 'TOP.y', 'TOP.s.y')
    add('literals', S("assign y = 8'hfF + 4'b1_0x1 + 8'sd3 + 'd5 + 12 + 3'o7;\nwire w; assign w = 1'bz;\n"), 'TOP.w')
    add('real', S('wire w; assign w = a > 1.5;\nreal p; parameter R = 2.25;\nwire v; assign v = b < R;\n'), 'TOP.w', 'TOP.v')
    add('strings', S('parameter S = "on";\nwire [15:0] s; assign s = c ? S : "of";\nwire v; assign v = s == "a.b";\n'), 'TOP.s', 'TOP.v')
    add('negative', S('parameter P = -3;\nlocalparam Q = P + 1;\nassign y = a + P - Q;\n'), 'TOP.y')
    add('indexed parts', S('assign y = a[b[2:0] +: 2];\nwire [3:0] t; assign t = a[7 -: 4];\n'), 'TOP.y', 'TOP.t')
    add('other names', 'module TOP(input clk, input rst, input [3:0] a, output reg [3:0] q);\nalways @(posedge clk or posedge rst) if (rst) q <= 0; else q <= a;\nendmodule\n', 'TOP.q', clock='clk', reset='rst')
    add('unclocked top', 'module TOP(input [3:0] a, output [3:0] y);\nassign y = ~a;\nendmodule\n', 'TOP.y')
    add('inner clock', S('dv v (.clkin(CLK), .o(y[0]));\n', 'module dv(input clkin, output reg o);\nreg clkq; always @(posedge clkin) clkq <= !clkq;\nalways @(posedge clkq) o <= !o;\nendmodule\n'), 'TOP.y')
    add('assigned concatenation', S('wire e; wire [6:0] f;\nassign {e, f} = a;\nassign y = {f, e};\n'), 'TOP.y', 'TOP.e')
    add('conditional values', S('assign y = c ? (d ? a : b) : (d ? b : a + 1);\n'), 'TOP.y')
    add('underscore scopes', S('wire [7:0] s_y;\nassign s_y = a;\nleaf s (.i(s_y), .o(y));\n', LEAF), 'TOP.y')
    add('escaped', S('wire \\e+1 ; wire [1:0] \\w.x ;\nassign \\e+1 = c;\nassign \\w.x = a[1:0];\nassign y = {\\e+1 , \\w.x };\n'), 'TOP.y')
    add('sum to concatenation', S('wire e; wire [7:0] f;\nassign {e, f} = a + b;\n'), 'TOP.e')
    add('integer', S('integer n;\nalways @(posedge CLK) n <= n + 1;\nassign y = n;\n'), 'TOP.y')
    add('default clock and reset', S('wire [7:0] w; assign w = a;\nalways @(posedge CLK or negedge RST_X) if (!RST_X) q <= 0; else q <= w;\nassign y = q;\n'), 'TOP.y', 'TOP.q', default=True)
    add('supplies', S('supply0 g; supply1 [3:0] v;\nassign y = {g, v};\nleaf l (.i(v), .o());\n', LEAF), 'TOP.y', 'TOP.g', 'TOP.l.o')
    add('several unknown sources', S('wire r, s, t, u; assign y = {r, s, t, u};\nassign r = u ^ t; assign s = r; assign t = c; assign u = d;\n'), 'TOP.y', 'TOP.s TOP.t', 'TOP.u')
    add('signed system function', S('wire signed [7:0] s; assign s = $signed(a) >>> 1;\n'), 'TOP.s')
    return P


def check(ctx):
    repo = ctx.repo
    if repo.find_method(repo.cls(GEN), 'generateCode') is None:
        raise AnalysisBroken('VerilogCodeGenerator.generateCode vanished')
    P = pipeline(ctx)
    w = locate(repo, GEN + '._toCode')
    ws = locate(repo, 'dataflow.subset.VerilogSubset.getBindSubset')
    shapes = []
    for n, t, targets, kw in programs():
        for tg in targets:
            shapes.append(Shape('subset' if tg else 'entire', '%s %s' % (n, ' '.join(tg)) if tg else n, t, judge(tg, **kw), ws if tg else w, 'the emitted module differs from the dataflow'))
    run_all(ctx, P, shapes)
    ctx.floor('entire', 35)
    ctx.floor('subset', 35)
