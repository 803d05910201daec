"""The tree walker (a signal's value traced to inputs and registers) is interpreted on programs and compared, value by value, with
an independent substitution; the functions that visit every node kind (sources, undefined parts, children, graph) are interpreted
on trees of every kind and operand position and must visit every operand."""
import itertools

from .. import dftree as D
from ..dfrun import Failed, Undecided
from ..dfshape import Opaque, chain, cls, entries, field, fields, items, py
from ..dftree import Bad, Meaning, Tree
from ..engine import Budget, K, NONE, RaiseSig, Rec, St, isK, kv, mk, show
from ..par import pmap
from ..repo import AnalysisBroken
from ..shapes import Shape, locate, pipeline, run_all, short
from .c17 import a, b, bit, br, c, cat, d, e, engine, k, op, p, part, r, un, w
from .c19 import resolved
from .c20 import Full, Table

ASSUMPTIONS = ['Signals are assigned expressions of their own width (the walker replaces names by expressions and does not extend or cut them).',
               'Unsigned values; arithmetic on unbounded integers.']
WK = 'dataflow.walker.VerilogDataflowWalker'


def lit(t):
    return D.literal(t[1])[0] if t[0] == 'K' else t[1]


class Val(Meaning):
    """('sig', name, tree): a signal replaced by its tree, selected with the indices of its declaration."""

    def width(self, t):
        if t is not None and t[0] == 'sig':
            return self.sig[t[1]][1]
        if t is not None and t[0] == '[]' and t[1][0] in ('T', 'sig') and t[1][1] in self.arrays:
            return self.sig[t[1][1]][1]
        return Meaning.width(self, t)

    def ev(self, t, env):
        if t is not None and t[0] == 'sig':
            return self.ev(t[2], env)
        if t is not None and t[0] == '[]' and t[1][0] == 'T' and t[1][1] in self.arrays:
            i, x = self.ev(t[2], env)
            if x:
                raise Bad('an unknown index')
            return env['%s[%d]' % (t[1][1], i)], 0
        if t is not None and t[0] == '[:]' and t[1][0] == 'sig' and self.sig[t[1][1]][0]:
            low = ('V', self.sig[t[1][1]][0], 32)
            return Meaning.ev(self, ('[:]', t[1], ('op', 'Minus', t[2], low), ('op', 'Minus', t[3], low)), env)
        return Meaning.ev(self, t, env)


class Spec(object):
    def __init__(self, tab, trees, M, top):
        self.tab, self.trees, self.M, self.top = tab, trees, M, top

    def stops(self, n, step, seen):
        ts = self.tab.terms[n][0]
        if n in seen or 'Input' in ts and n.count('.') == 1 or not self.tab.binds.get(n):
            return True
        return 'Reg' in ts and 'Rename' not in ts and self.clocked(n) and step == 0

    def clocked(self, n):
        return any(x.al is not None and x.al[0] for x in self.tab.binds[n])

    def expand(self, t, step, seen):
        """t with every signal that is not a stop replaced."""
        if t is None or t[0] in ('K', 'V', 'U', 'H', 'F', 'S'):
            return t
        if t[0] == '[]' and t[1][0] == 'T' and t[1][1] in self.M.arrays:
            n, i = t[1][1], self.expand(t[2], step, seen)
            if self.stops(n, step, seen):
                return ('[]', t[1], i)
            nx = step - 1 if self.clocked(n) else step
            sel = t[1:2] + (i,)
            out = ('[]',) + sel
            for j, x in self.trees[n].items():
                if x is not None:
                    out = ('?', ('op', 'Eq', i, ('V', j, 32)), self.expand(self.held(n, x), nx, seen | {n}), out)
            return out
        if t[0] == 'T':
            n = t[1]
            if self.stops(n, step, seen):
                return t
            nx = step - 1 if self.clocked(n) and 'Rename' not in self.tab.terms[n][0] else step
            return ('sig', n, self.expand(self.held(n, self.trees[n]), nx, seen | {n}))
        h = 2 if t[0] in ('op', 'sys') else 1
        return t[:h] + tuple(self.expand(x, step, seen) for x in t[h:])

    def held(self, n, t):
        """What the tree does not assign keeps its bits."""
        lo, wd = self.M.sig[n]
        if t is None:
            return ('T', n)

        def fill(x, i, width):
            if x is None:
                return ('T', n) if (i, width) == (0, wd) else ('[:]', ('T', n), ('V', lo + i + width - 1, 32), ('V', lo + i, 32))
            if x[0] == '?':
                return ('?', x[1], fill(x[2], i, width), fill(x[3], i, width))
            if x[0] == 'cat':
                out, j = [], i
                for y in reversed(x[1:]):
                    m = self.M.width(y)
                    out.append(fill(y, j, m))
                    j += m
                return ('cat',) + tuple(reversed(out))
            return x
        return fill(t, 0, wd)


def judge(name, step=0, limit=2048):
    def j(run):
        E, st = run.E, run.st
        consts, rterms, rbinds = resolved(run)
        tab = Table(run, run.terms, run.binddict)
        call = lambda o, m, *x: E.call(E.getattr(o, m, st), list(x), {}, st)
        M = Val(dict((n, bounds(tab, n)) for n in tab.terms))
        M.arrays = dict((n, dims(tab.terms[n][3])) for n in tab.terms if tab.terms[n][3])
        R = Full(E, st)
        try:
            W = E.call(E.cls_term(E.repo.cls(WK)), [K('TOP'), run.terms, run.binddict, rterms, rbinds, consts], {}, st)
            trees = {}
            for n, key in tab.keys:
                if not tab.binds.get(n):
                    continue
                if n in M.arrays:
                    trees[n] = {}
                    for i in range(*M.arrays[n]):
                        iv = E.call(E.cls_term(E.repo.cls('dataflow.dataflow.DFEvalValue')), [K(i)], {}, st)
                        trees[n][i] = R.read(call(W, 'getTree', E.thaw(key, st), iv))
                else:
                    trees[n] = R.read(call(W, 'getTree', E.thaw(key, st)))
            got = R.read(call(W, 'walkBind', K('TOP.' + name), K(step)))
        except RaiseSig as x:
            raise Failed(x.exc)
        run.funcs |= set(E.called)
        spec = Spec(tab, trees, M, 'TOP')
        n = 'TOP.' + name
        want = spec.expand(spec.held(n, trees.get(n)), step, frozenset())
        stops = D.leaves(strip(want))
        for x in sorted(D.leaves(got)):
            if x not in stops and x != n:
                return 'the walked tree of %s reads %s: %s' % (name, x, D.text(got))
        names = []
        for x in sorted(stops | D.leaves(got)):
            names += ['%s[%d]' % (x, i) for i in range(*M.arrays[x])] if x in M.arrays else [x]
        base = lambda x: x.split('[')[0] if x.split('[')[0] in M.arrays else x
        for i, vals in enumerate(itertools.product(*[range(1 << M.sig[base(x)][1]) for x in names])):
            if i >= limit:
                break
            env = dict(zip(names, vals))
            try:
                v = M.ev(want, env)
            except (Bad, KeyError):
                continue
            try:
                u = M.ev(got, env)
            except (Bad, KeyError) as x:
                return 'the walked tree of %s has no value (%s): %s' % (name, x, D.text(got))
            if u[0] & ~v[1] != v[0] & ~v[1] or u[1] & ~v[1]:
                return 'the walked tree of %s is %s instead of %s%s: %s' % (name, D.pv(u), D.pv(v), D.at(env), D.text(got))
        return None
    return j


def strip(t):
    """Without the names of replaced signals."""
    if isinstance(t, tuple):
        if t[:1] == ('sig',):
            return strip(t[2])
        return tuple(strip(x) for x in t)
    return t


def bounds(tab, n):
    m, l = tab.terms[n][1:3]
    if m is None:
        return (0, 32 if tab.terms[n][0] & {'Integer', 'Genvar', 'Parameter', 'Localparam'} else 1)
    try:
        m, l = lit(m), lit(l)
        return (min(m, l), abs(m - l) + 1)
    except Exception:
        return (0, 1)


def dims(ds):
    (x, y), = ds
    x, y = lit(x), lit(y)
    return (min(x, y), max(x, y) + 1)


HEAD = 'module TOP(input CLK, input RST, input [1:0] a, input [1:0] b, input c, input d, output [1:0] y, output reg [1:0] q);\n'


def programs():
    """(name, text, [(signal, step)])"""
    P = []
    S = lambda body, *mods: HEAD + body + 'endmodule\n' + ''.join(mods)
    add = lambda n, t, *q: P.append((n, t, q))
    add('chain', S('wire [1:0] t; assign t = a & b; wire [1:0] u; assign u = t | a; assign y = u ^ b;\n'), ('y', 0), ('u', 0), ('t', 0))
    add('operators', S('wire [1:0] t; assign t = a; wire u; assign u = a == b; wire v; assign v = !c || (d && c); assign y = u ? t + b : v ? ~t : -b;\n'), ('y', 0), ('v', 0))
    add('every operand', S('wire [1:0] t; assign t = a ^ b; wire u; assign u = c ^ d; assign y = (t == u) ? (t << u) : (u ? t * t : {u, u});\n'), ('y', 0))
    add('sharing', S('wire [1:0] t; assign t = a - b; assign y = t * t + t;\n'), ('y', 0))
    add('concatenation', S('wire [1:0] t; assign t = a; wire u; assign u = d; wire [4:0] z; assign z = {u, t, c, u}; assign y = z[3:2];\n'), ('y', 0), ('z', 0))
    add('part of a wire', S('wire [3:0] t; assign t = {a, b}; assign y = t[2:1];\n'), ('y', 0))
    add('bit of a wire', S('wire [3:0] t; assign t = {a, b}; assign y = {t[0], t[3]};\n'), ('y', 0))
    add('part of an alias', S('wire [1:0] t; assign t = a; assign y = {t[0], t[1:1]};\n'), ('y', 0))
    add('part of a part', S('wire [3:0] t; assign t = {a, b}; wire [2:0] u; assign u = t[3:1]; assign y = u[2:1];\n'), ('y', 0), ('u', 0))
    add('part of a part of an input', 'module TOP(input [5:0] a, output [1:0] y, output z);\nwire [3:0] u; assign u = a[4:1]; wire [2:0] v; assign v = u[3:1]; assign y = v[1:0]; assign z = v[2];\nendmodule\n', ('y', 0), ('z', 0), ('v', 0))
    add('low index of a wire', S('wire [5:2] t; assign t = {a, b}; assign y = t[4:3];\n'), ('y', 0))
    add('low index of a source', 'module TOP(input [5:2] a, output [1:0] y, output z);\nwire [3:0] u; assign u = a; assign y = u[2:1]; assign z = u[3];\nendmodule\n', ('y', 0), ('z', 0))
    add('low index of both', 'module TOP(input [6:3] a, output [1:0] y, output z);\nwire [5:2] u; assign u = a; assign y = u[4:3]; assign z = u[2];\nendmodule\n', ('y', 0), ('z', 0))
    add('low index of a part', 'module TOP(input [6:2] a, output [1:0] y, output z);\nwire [5:3] u; assign u = a[6:4]; assign y = u[5:4]; assign z = u[3];\nendmodule\n', ('y', 0), ('z', 0))
    add('part of an expression', S('wire [2:1] t; assign t = a & ~b; assign y = {t[1], t[2]};\n'), ('y', 0))
    add('variable bit', 'module TOP(input [3:0] a, input [1:0] i, output y, output z);\nwire [3:0] t; assign t = ~a; wire [1:0] j; assign j = i; assign y = t[j]; assign z = a[j];\nendmodule\n', ('y', 0), ('z', 0))
    add('variable bit of a low index', 'module TOP(input [3:0] a, input [2:0] i, output y);\nwire [5:2] t; assign t = ~a; assign y = t[i];\nendmodule\n', ('y', 0))
    add('register', S('always @(posedge CLK) q <= a & b; assign y = q | a;\n'), ('y', 0), ('y', 1), ('q', 0), ('q', 1))
    add('register in between', S('wire [1:0] t; assign t = a ^ b; always @(posedge CLK) q <= t; wire [1:0] u; assign u = q; assign y = u & a;\n'), ('y', 0), ('y', 1), ('y', 2), ('q', 0))
    add('two registers', S('reg [1:0] r; always @(posedge CLK) begin r <= a; q <= r; end assign y = q ^ r;\n'), ('y', 0), ('y', 1), ('y', 2), ('q', 0), ('q', 1))
    add('register kept', S('always @(posedge CLK) if (c) q <= a; assign y = q;\n'), ('q', 0), ('y', 0), ('y', 1))
    add('register with reset', S('wire [1:0] t; assign t = q + 1; always @(posedge CLK or posedge RST) if (RST) q <= 0; else if (d) q <= t; else if (c) q <= a; assign y = q;\n'), ('q', 0), ('y', 0), ('y', 1))
    add('negedge register', S('always @(negedge CLK) q <= a; assign y = ~q;\n'), ('y', 0), ('y', 1))
    add('combinational block', S('reg [1:0] r; always @* begin if (c) r = a; else r = b; end assign y = r & b;\n'), ('y', 0), ('r', 0))
    add('combinational list', S('reg [1:0] r; always @(a or b or c) begin case (a) 0: r = b; 1: r = ~b; default: r = a; endcase end assign y = r;\n'), ('y', 0), ('r', 0))
    add('blocking temporaries', S('reg [1:0] r; always @* begin r = a; if (c) r = r & b; if (d) r = ~r; end assign y = r;\n'), ('y', 0), ('r', 0))
    add('latch', S('reg [1:0] r; always @* if (c) r = a; assign y = b;\n'), ('r', 0))
    add('inner latch', S('reg [1:0] r; always @* if (c) r = a; assign y = r & b;\n'), ('y', 0))
    where = ['{r, c}', '{c, r}', '{d, r, c}', '{a, {r, c}}', '{2{r}}', '{c, {2{r}}}', 'r[1]', 'r[1:0]', '{r[1], r[0]}', 'a[r[0]]', '{c, a[r[0]]}', 'c ? r : b', 'c ? b : r', 'r ? a : b', 'c ? {r, d} : b',
             '{c ? r : b, d}', '-r', '{~r, c}', 'r + 1', '1 + r', 'r[1] && c', '(r == b)', 'r << 1', 'b << r', '{r, r} - {a, r}', '!{r[0], c}', '^{c, r}']
    for x in where:
        add('register in %s' % x, HEAD.replace('output [1:0] y', 'output [7:0] y') + 'reg [1:0] r; always @(posedge CLK) r <= a ^ b; assign y = %s;\nendmodule\n' % x, ('y', 0), ('y', 1))
    for x in where[::2]:
        x = x.replace('r', 't')
        add('wire and register in %s' % x, HEAD.replace('output [1:0] y', 'output [7:0] y') + 'reg [1:0] r; always @(posedge CLK) r <= q; always @(posedge CLK) if (c) q <= a; wire [1:0] t; assign t = r & b; assign y = %s;\nendmodule\n' % x,
            ('y', 0), ('y', 1), ('y', 2))
    add('undriven', S('wire [1:0] u; assign y = u & a;\n'), ('y', 0))
    add('undriven root', S('wire [1:0] u; assign y = u & a;\n'), ('u', 0))
    add('feedback', S('wire [1:0] t; assign t = (c ? a : t); assign y = t & b;\n'), ('y', 0))
    add('mutual feedback', S('wire [1:0] t, u; assign t = u & a; assign u = t | b; assign y = t;\n'), ('y', 0), ('t', 0), ('u', 0))
    add('register feedback', S('reg [1:0] r; always @(posedge CLK) begin q <= r + a; r <= q; end assign y = q;\n'), ('y', 0), ('y', 1), ('y', 2), ('y', 3), ('q', 1))
    add('parts driven apart', S('wire [3:0] t; assign t[1:0] = a; assign t[3:2] = b; assign y = t[2:1];\n'), ('y', 0), ('t', 0))
    add('a part undriven', S('wire [3:0] t; assign t[1:0] = a; assign y = t[1:0];\n'), ('y', 0))
    add('a part of the root kept', S('reg [3:0] r; always @(posedge CLK) begin if (c) r[3:2] <= a; r[1:0] <= b; end assign y = r[1:0];\n'), ('r', 0))
    add('instance', S('wire [1:0] t; sub s0(.x(a), .y(t)); assign y = t ^ b;\n', 'module sub(input [1:0] x, output [1:0] y);\nwire [1:0] m; assign m = ~x; assign y = m;\nendmodule\n'), ('y', 0), ('s0.y', 0), ('s0.m', 0))
    add('two instances', S('wire [1:0] t, u; sub s0(a, t); sub s1(t, u); assign y = u;\n', 'module sub(input [1:0] x, output [1:0] y);\nassign y = x + 1;\nendmodule\n'), ('y', 0), ('s1.y', 0))
    add('register in an instance', S('wire [1:0] t; sub s0(CLK, a, t); assign y = t & b;\n', 'module sub(input CLK, input [1:0] x, output reg [1:0] y);\nalways @(posedge CLK) y <= x;\nendmodule\n'), ('y', 0), ('y', 1))
    add('parameter', S('parameter P = 2; localparam L = P - 1; wire [1:0] t; assign t = a + P; assign y = t & {2{L[0]}};\n'), ('y', 0))
    add('array element', 'module TOP(input [1:0] a, input [1:0] b, output [1:0] y, output [1:0] z);\nwire [1:0] m [0:1]; assign m[0] = a; assign m[1] = ~b; assign y = m[1]; assign z = m[0] ^ m[1];\nendmodule\n', ('y', 0), ('z', 0))
    add('array element, variable', 'module TOP(input [1:0] a, input [1:0] b, input i, output [1:0] y);\nwire [1:0] m [0:1]; assign m[0] = a; assign m[1] = ~b; wire j; assign j = ~i; assign y = m[j];\nendmodule\n', ('y', 0))
    add('array register', 'module TOP(input CLK, input [1:0] a, input i, input j, output [1:0] y);\nreg [1:0] m [0:1]; always @(posedge CLK) m[i] <= a; wire [1:0] t; assign t = m[j]; assign y = t;\nendmodule\n', ('y', 0))
    add('bit of an array element', 'module TOP(input [1:0] a, input [1:0] b, output y);\nwire [1:0] m [0:1]; assign m[0] = a; assign m[1] = b; wire [1:0] t; assign t = m[1]; assign y = t[1];\nendmodule\n', ('y', 0))
    add('part of an array element', 'module TOP(input [5:2] a, input [3:0] b, output y, output [1:0] z, output u, output v);\nwire [6:3] m [0:2]; assign m[0] = a; assign m[1] = ~b; assign m[2] = b[3:0]; assign y = m[0][4]; assign z = m[1][6:5]; assign u = m[2][4]; assign v = m[0][6:6];\nendmodule\n', ('y', 0), ('z', 0), ('u', 0), ('v', 0))
    add('part of an array register', 'module TOP(input CLK, input [3:0] a, input [1:0] i, output y, output [1:0] z);\nreg [5:2] m [0:3]; always @(posedge CLK) m[i] <= a; assign y = m[i][3]; assign z = m[2][5:4];\nendmodule\n', ('y', 0), ('z', 0))
    add('high impedance', S('wire [1:0] t; assign t = c ? a : 2\'bz; assign y = t & b;\n'), ('y', 0), ('t', 0))
    add('unknown', S('wire [1:0] t; assign t = c ? a : 2\'bx; assign y = t & b;\n'), ('y', 0))
    add('signed', S('wire [1:0] t; assign t = a; wire [1:0] u; assign u = $signed(t); assign y = u;\n'), ('y', 0))
    add('function', S('function [1:0] f; input [1:0] x; begin f = x ^ 1; end endfunction\nwire [1:0] t; assign t = a & b; wire [1:0] u; assign u = f(t); assign y = u;\n'), ('y', 0))
    add('generate', S('wire [1:0] t; genvar i; generate for (i = 0; i < 2; i = i + 1) begin : g\nwire m; assign m = a[i]; assign t[i] = m; end endgenerate\nassign y = t;\n'), ('y', 0))
    return P


def kinds():
    """A tree of every kind over the terminals in its operands, with its name."""
    x, y, z = a, b, c
    out = [('terminal', x), ('integer', k(3)), ('float', ('F', '1.5')), ('string', ('S', 'word')), ('value', ('V', 3, 4)), ('undefined', ('U', 3)), ('high impedance', ('H', 3)), ('unary', un('Unot', x)),
           ('binary', op('Plus', x, y)), ('part', ('[:]', w, y, z)), ('element', ('[]', w, y)), ('concatenation', cat(x, y, z)), ('single concatenation', cat(x)), ('branch', br(x, y, z)),
           ('branch without else', br(x, y, None)), ('branch without then', br(x, None, y)), ('branch without values', br(x, None, None)), ('delay', ('delay', x)), ('system function', ('sys', 'signed', x, y)),
           ('system function without operands', ('sys', 'time'))]
    return out


def contexts():
    h = lambda f: f
    return [('alone', lambda t: t), ('left operand', lambda t: op('Plus', t, e)), ('right operand', lambda t: op('Land', e, t)), ('operand', lambda t: un('Uminus', t)), ('selected', lambda t: ('[:]', t, d, e)),
            ('upper index', lambda t: ('[:]', w, t, e)), ('lower index', lambda t: ('[:]', w, e, t)), ('indexed', lambda t: ('[]', t, e)), ('index', lambda t: ('[]', w, t)),
            ('first part', lambda t: cat(t, d, e)), ('middle part', lambda t: cat(d, t, e)), ('last part', lambda t: cat(d, e, t)), ('condition', lambda t: br(t, d, e)), ('then', lambda t: br(d, t, e)),
            ('else', lambda t: br(d, e, t)), ('delayed', lambda t: ('delay', t)), ('argument', lambda t: ('sys', 'f', t, e)), ('last argument', lambda t: ('sys', 'f', e, d, t))]


def undefined_to(t, root, top=True):
    if t is None or t[0] == 'U':
        return root
    if t[0] in ('T', 'K', 'V', 'H', 'F', 'S'):
        return t
    h = 2 if t[0] in ('op', 'sys') else 1
    return t[:h] + tuple(undefined_to(x, root) for x in t[h:])


def names_of(v, E, st):
    return sorted(chain(x).split('.')[-1] for x in items(E.snap(v, st)))


def operands(t):
    if t is None or t[0] in ('T', 'K', 'V', 'H', 'F', 'S', 'U'):
        return []
    return [x for x in t[2 if t[0] in ('op', 'sys') else 1:] if x is not None]


def visits(repo, t):
    """[(rule, message or None)] for one tree."""
    E = engine(repo)
    st = St()
    T = Tree(E, st)
    fn = lambda m, f: E.fn(repo.mod(m).funcs[f])
    new = lambda q, *x: E.call(E.cls_term(repo.cls(q)), list(x), {}, st)
    d0 = lambda: E.new_ref(st, Rec('dict', None, {}))
    names = [T.name(x) for x in sorted(D.leaves(t) | {'r'})]
    terms = d0()
    for n in names:
        E.setitem(terms, n, new('dataflow.dataflow.Term', n), st)
    W = new(WK, K('TOP'), terms, d0(), terms, d0(), d0())
    call = lambda o, m, *x: E.call(E.getattr(o, m, st), list(x), {}, st)
    ref = T.build(t)
    out = []

    def ob(rule, f):
        try:
            out.append((rule, f()))
        except RaiseSig as x:
            out.append((rule, 'raises %s' % show(x.exc, 3)))

    def sources():
        have = names_of(call(W, 'getTreeSources', ref), E, st)
        want = sorted(D.leaves(t))
        return None if have == want else 'the sources are %s instead of %s' % (have, want)

    def replaced():
        have = T.read(E.call(fn('dataflow.replace', 'replaceUndefined'), [ref, T.name('r')], {}, st))
        want = undefined_to(t, r)
        return None if have == want else 'undefined parts are replaced as %s instead of %s' % (D.text(have), D.text(want))

    def walked():
        have = T.read(call(W, 'walkTree', ref))
        want = nodes_none(t)
        return None if flat(have) == flat(want) else 'it is walked to %s instead of %s' % (D.text(have), D.text(want))

    def children():
        if t is None:
            return None
        have = [T.read(x) for x in E.as_items(call(ref, 'children'), st)]
        want = operands(t)
        srt = lambda l: sorted(l, key=repr)
        return None if srt([x for x in have if x is not None]) == srt(want) else 'the children are %s instead of %s' % (', '.join(D.text(x) for x in have), ', '.join(D.text(x) for x in want))

    def reorder():
        have = T.read(E.call(fn('dataflow.reorder', 'reorder'), [ref], {}, st))
        return None if D.leaves(have) == D.leaves(t) else 'reordering gives %s' % D.text(have)
    ob('sources', sources)
    ob('undefined', replaced)
    ob('walk', walked)
    ob('children', children)
    return out, set(E.called)


def nodes_none(t):
    """The walk of a tree over signals without values: itself, a missing side being undefined."""
    if t is None:
        return ('U', 32)
    if not operands(t) and t[0] != '?':
        return t
    h = 2 if t[0] in ('op', 'sys') else 1
    return t[:h] + tuple(nodes_none(x) for x in t[h:])


def flat(t):
    """Selects of parts as selects of the whole."""
    if not isinstance(t, tuple):
        return t
    t = tuple(flat(x) for x in t)
    if t[:1] in (('[:]',), ('[]',)) and t[1][:1] == ('[:]',):
        return (t[0], t[1][1]) + tuple(('op', 'Plus', x, t[1][3]) for x in t[2:])
    return t


WHERE = {'sources': 'dataflow.merge.VerilogDataflowMerge.getTreeSources', 'undefined': 'dataflow.replace.replaceUndefined', 'walk': WK + '.walkTree', 'children': 'dataflow.dataflow.DFNode.children'}


def check(ctx):
    tier = ctx.tier
    repo = ctx.repo
    P = pipeline(ctx)
    where = locate(repo, WK + '.walkTree')
    shapes = []
    for name, text, qs in programs():
        for s, step in qs:
            shapes.append(Shape('walk', '%s %s%s' % (name, s, ' step %d' % step if step else ''), text, judge(s, step, 2048 if tier == 'quick' else 1 << 16), where, 'the walked tree is not the value of the signal'))
    run_all(ctx, P, shapes)
    trees = []
    for (kn, t), (cn, f) in itertools.product(kinds(), contexts()):
        trees.append(('%s as %s' % (kn, cn), f(t)))
    if tier == 'thorough':
        for (kn, t), (cn, f), (dn, g) in itertools.product(kinds(), contexts(), contexts()):
            if cn != 'alone' and dn != 'alone':
                trees.append(('%s as %s of %s' % (kn, cn, dn), g(f(t))))
    groups = [trees[i:i + 10] for i in range(0, len(trees), 10)]

    def one(g):
        out = []
        for key, t in g:
            try:
                rs, fs = visits(repo, t)
                out.append((key, t, rs, sorted(fs)))
            except (Undecided, Budget, Opaque, RecursionError) as x:
                out.append((key, t, '%s %s' % (type(x).__name__, str(x)[:120]), []))
        return out
    for g, res in zip(groups, pmap(one, groups)):
        if res is None:
            for key, t in g:
                ctx.unknown('visit', key, 'worker ended')
            continue
        for key, t, rs, fs in res:
            ctx.functions.update(fs)
            if isinstance(rs, str):
                ctx.unknown('visit', key, rs)
                continue
            for rule, m in rs:
                kk = key
                if m is None:
                    ctx.ok(rule, kk)
                else:
                    ctx.bad(rule, kk, 'a node kind or an operand is not visited', locate(repo, WHERE[rule]), '%s: %s' % (D.text(t), m))
