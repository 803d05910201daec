"""The rendering methods of dataflow nodes, terms and bindings are interpreted from source on node shapes (every kind of node under
every operator and in every operand position); the text is read by an independent reader of Verilog or of the tostr notation
and must be the node it was rendered from."""
import itertools

from .. import dftree as D
from .. import vread as V
from ..dfrun import Undecided
from ..dfshape import Opaque
from ..dftree import Tree
from ..engine import Budget, FALSE, K, NONE, RaiseSig, Rec, St, TRUE, isK, kv, mk, show
from ..par import pmap
from ..repo import AnalysisBroken
from ..shapes import locate, short
from .c17 import BIN, UN, a, b, bit, br, c, cat, d, e, engine, k, op, p, part, r, un, w

ASSUMPTIONS = ['Signal names are plain words (escaped identifiers are rendered through the scope path).', 'A delay has no Verilog expression: rendering one as code is refused.']
DF = 'dataflow.dataflow.'
FLAT = lambda n: 'TOP_' + n


def leaves():
    return [a, k(0), k(7), k("4'd9"), k("8'hfF"), k("4'b10x1"), k("'d5"), k("8'sd3"), k("3'bz"), k("16'h1_0f"), ('V', 5, 32), ('V', 0, 4), ('V', 9, 1), ('V', -3, 32), ('V', -2, 8), ('U', 32), ('U', 1),
            ('U', 7), ('H', 32), ('H', 4), ('F', '1.5'), ('F', '2.5e3'), ('S', 'word'), ('S', 'two words'), ('Vf', 2.5), ('Vf', -1.25), ('Vs', 'text')]


def kinds():
    """One tree of every kind, as an operand."""
    return [a, k("4'd9"), ('V', -2, 8), ('U', 3), ('F', '1.5'), ('S', 'word'), op('Plus', b, c), op('Times', b, k(2)), op('Land', b, c), op('Lor', b, c), op('Or', b, c), op('And', b, c), op('Xnor', b, c),
            op('Eq', b, c), op('LessEq', b, c), op('Srl', b, c), op('Sra', b, c), op('Power', b, c), op('Minus', b, c), un('Uminus', b), un('Unot', b), un('Ulnot', b), un('Uand', b), un('Unor', b),
            un('Uxnor', b), un('Uplus', b), br(b, c, d), br(b, None, d), br(b, c, None), cat(b, c), cat(b), part(w, 3, 1), bit(w, 2), ('[]', w, b), ('[]', ('[]', w, b), c), ('[:]', ('[]', w, b), c, d),
            ('sys', 'signed', b), ('sys', 'f', b, c), ('sys', 'time')]


def parents():
    """One-hole contexts."""
    out = []
    for o in BIN:
        out += [lambda x, o=o: op(o, x, e), lambda x, o=o: op(o, e, x)]
    out += [lambda x, o=o: un(o, x) for o in UN]
    out += [lambda x: br(x, d, e), lambda x: br(e, x, d), lambda x: br(e, d, x), lambda x: cat(x, e), lambda x: cat(e, x), lambda x: cat(e, x, d), lambda x: ('[]', w, x), lambda x: ('[:]', w, x, k(0)),
            lambda x: ('[:]', w, k(3), x), lambda x: ('[:]', w, x, x), lambda x: ('sys', 'signed', x), lambda x: ('sys', 'f', e, x), lambda x: ('[]', ('[]', w, x), e)]
    return out


def selected():
    """Selects of things that are not names."""
    return [part(op('Plus', a, b), 3, 1), bit(cat(a, b), 1), ('[]', br(c, a, b), k(0)), part(un('Unot', a), 1, 0)]


def trees(tier):
    ks, ps = kinds(), parents()
    out = leaves() + [p_(x) for p_ in ps for x in ks]
    if tier == 'thorough':
        few = [op('Minus', b, c), un('Unot', b), br(b, c, d), cat(b, c), op('Land', b, c), part(w, 3, 1), op('Power', b, c)]
        out += [p_(q(x)) for p_ in ps for q in ps for x in few]
    seen, res = set(), []
    for t in out:
        if t not in seen:
            seen.add(t)
            res.append(t)
    return res


class Build(Tree):
    def build(self, t):
        if t is not None and t[0] in ('Vf', 'Vs'):
            return self.new(D.D + 'DFEvalValue', [K(t[1]), K(32) if t[0] == 'Vf' else NONE], {'isfloat': TRUE if t[0] == 'Vf' else FALSE, 'isstring': TRUE if t[0] == 'Vs' else FALSE})
        return Tree.build(self, t)


def plain(t):
    """Node shape -> the shape the oracle compares."""
    if t is None or not isinstance(t, tuple):
        return t
    if t[0] == 'Vf':
        return ('V', t[1], 32)
    if t[0] == 'Vs':
        return ('S', t[1])
    return tuple(plain(x) if isinstance(x, tuple) else x for x in t)


class Kit(object):
    def __init__(self, repo):
        self.E = engine(repo)
        self.st = St()
        self.T = Build(self.E, self.st)

    def call(self, obj, m, *args, **kw):
        v = self.E.call(self.E.getattr(obj, m, self.st), [K(x) for x in args], dict((n, K(x)) for n, x in kw.items()), self.st)
        v = self.E.simp(v, self.st)
        if not isK(v) or not isinstance(kv(v), str):
            raise Opaque('the text is %s' % show(v)[:80])
        return kv(v)


def code(kit, t):
    s = kit.call(kit.T.build(t), 'tocode', 'TOP_q')
    try:
        g = V.expression(s)
    except V.Illegal as x:
        return 'the code %r is not a Verilog expression: %s' % (s[:80], x)
    return None if V.same(plain(t), g, FLAT, ('T', 'TOP_q')) else 'the code %r reads as %s' % (s[:80], V.show(g))


def notation(t):
    """Node shape -> what tostr denotes."""
    if t is None:
        return None
    if t[0] == 'T':
        return ('T', 'TOP.' + t[1])
    if t[0] == 'V':
        return t
    return tuple(notation(x) if isinstance(x, tuple) or x is None else x for x in t)


def note(kit, t):
    s = kit.call(kit.T.build(t), 'tostr')
    try:
        g = V.note(s)
    except V.Illegal as x:
        return 'the notation %r is malformed: %s' % (s[:80], x)
    return None if g == notation(t) else 'the notation %r denotes %s' % (s[:80], V.show(g))


def terms():
    """(name, types, msb, lsb, dims, expected kinds)"""
    out = []
    rng = (k(7), k(0))
    for top in (True, False):
        n = 'x' if top else 'sub.x'
        for ts, want in ((('Input',), 'input'), (('Output',), 'output'), (('Inout',), 'inout'), (('Input', 'Wire'), 'input wire'), (('Output', 'Wire'), 'output wire'), (('Inout', 'Wire'), 'inout wire'),
                         (('Output', 'Reg'), 'output reg'), (('Wire',), 'wire'), (('Reg',), 'reg'), (('Integer',), 'integer'), (('Function',), 'wire'), (('Rename',), 'wire'),
                         (('Rename', 'Wire'), 'wire'), (('Output', 'Integer'), 'output integer'), (('Tri',), 'net'), (('Supply',), 'net'), (('Genvar',), 'genvar')):
            if not top:
                io = want.split()[0] in ('input', 'output', 'inout')
                want = (want.split() + ['wire'])[1] if io else want
            for r_ in (rng, (op('Minus', p, k(1)), k(0)), (k(0), k(0)), None):
                for dims in (None, ((k(0), k(3)),), ((k(3), k(2)), (k(1), k(0)), (k(0), k(5))), ((k(0), op('Minus', p, k(1))), (k(1), k(0)))):
                    if want == 'genvar' and dims:
                        continue
                    out.append((n, ts, r_, dims, want))
    return out


def chain(kit, n):
    E, st = kit.E, kit.st
    xs = n.split('.')
    L = [kit.T.new('utils.scope.ScopeLabel', [K(x), K(t)]) for x, t in [('TOP', 'module')] + [(x, 'module') for x in xs[:-1]] + [(xs[-1], 'signal')]]
    return kit.T.new('utils.scope.ScopeChain', [E.new_list(st, L)])


def term(kit, case):
    n, ts, rng, dims, want = case
    E, st = kit.E, kit.st
    b_ = kit.T.build
    kw = {'name': chain(kit, n), 'termtype': E.new_ref(st, Rec('set', None, tuple(K(x) for x in ts)))}
    if rng:
        kw['msb'], kw['lsb'] = b_(rng[0]), b_(rng[1])
    if dims:
        kw['dims'] = mk('Tup', tuple(mk('Tup', (b_(x), b_(y))) for x, y in dims))
    o = kit.T.new(DF + 'Term', [], kw)
    flat = 'TOP_' + n.replace('.', '_')
    bad = []
    s = kit.call(o, 'tocode')
    try:
        g = V.item(s)
        if g[0] != 'decl':
            bad.append('the code %r declares nothing' % s)
        else:
            kinds, r_, name, ds = g[1:]
            got = ' '.join(kinds)
            wants = {'net': ('wire', 'tri', 'supply0', 'supply1'), 'input': ('input', 'input wire'), 'output': ('output', 'output wire'), 'inout': ('inout', 'inout wire')}.get(want, (want,))
            if got not in wants:
                bad.append('the code %r declares %s instead of %s' % (s, got, want))
            if name != flat:
                bad.append('the code %r declares %s instead of %s' % (s, name, flat))
            wr = None if rng is None or kinds[-1] in ('integer', 'genvar') else rng
            if (r_ is None) != (wr is None) or wr and not all(V.same(x, y, FLAT) for x, y in zip(wr, r_)):
                bad.append('the code %r has another range' % s)
            if len(ds) != len(dims or ()) or any(not (V.same(x, z, FLAT) and V.same(y, t, FLAT)) for (x, y), (z, t) in zip(dims or (), ds)):
                bad.append('the code %r has other array dimensions' % s)
    except V.Illegal as x:
        bad.append('the code %r is not a Verilog declaration: %s' % (s, x))
    s = kit.call(o, 'tostr')
    try:
        g = V.Note(s).term()
        f = notation
        want = ('TOP.' + n, tuple(sorted(ts)), f(rng[0]) if rng else None, f(rng[1]) if rng else None, None if dims is None else tuple((f(x), f(y)) for x, y in dims))
        if g != want:
            bad.append('the notation %r denotes %s' % (s, g))
    except V.Illegal as x:
        bad.append('the notation %r is malformed: %s' % (s, x))
    return '; '.join(bad) or None


CLK, RST = 'clk', 'rst'


def bindings(tier):
    """(tree, msb, lsb, ptr, parameterinfo, always: None | (clock, edge, bit, reset, edge, bit))"""
    br2 = br(c, br(d, a, b), e)
    ts = [a, op('Plus', a, b), br(c, a, b), br(c, a, None), br(c, None, a), br2, br(c, None, br(d, a, None)), br(c, br(d, None, a), None), cat(a, br(c, d, e)), br(op('Lor', c, d), op('Plus', br(c, a, b), e), cat(a, b)),
          br(c, br(d, br(e, a, b), None), br(e, None, b)), k("8'd3"), ('V', 4, 8), br(br(c, d, e), a, b), un('Uminus', a), br(c, br(d, a, None), b), br(c, br(d, None, a), b), br(c, br(d, a, None), br(d, None, b))]
    dests = [(None, None, None), (k(3), k(1), None), (k(2), k(2), None), (None, None, b), (None, None, k(1)), (k(3), k(1), b), (('V', 2, 32), ('V', 2, 32), ('V', 1, 32)), (b, b, None),
             (op('Plus', b, k(1)), b, None), (None, None, bit(w, 1))]
    infos = [('', None), ('parameter', None), ('localparam', None), ('', (None, None, None, None, None, None)), ('', (CLK, 'posedge', 0, None, None, None)), ('', (CLK, 'negedge', 0, RST, 'negedge', 0)),
             ('', (CLK, 'posedge', 0, RST, 'posedge', 0)), ('', (CLK, 'posedge', 2, None, None, None)), ('', (CLK, 'posedge', 1, RST, 'negedge', 3)), ('', (CLK, 'negedge', 0, RST, 'posedge', 1))]
    out = []
    for i, (t, dst, inf) in enumerate(itertools.product(ts, dests, infos)):
        if inf[0] and dst != (None, None, None):
            continue
        if tier == 'thorough' or dst == dests[0] or i % 3 == 0:
            out.append((t,) + dst + inf)
    return out


def binding(kit, case):
    t, msb, lsb, ptr, kind, al = case
    E, st = kit.E, kit.st
    b_ = kit.T.build
    kw = {'tree': b_(t), 'dest': kit.T.name('q'), 'msb': b_(msb), 'lsb': b_(lsb), 'ptr': b_(ptr), 'parameterinfo': K(kind)}
    if al is not None:
        nm = lambda x: NONE if x is None else kit.T.name(x)
        kw['alwaysinfo'] = kit.T.new('dataflow.visit.AlwaysInfo', [nm(al[0]), K(al[1]), K(al[2]), nm(al[3]), K(al[4]), K(al[5]), mk('Tup', ())])
    o = kit.T.new(DF + 'Bind', [], kw)
    bad = []
    s = kit.call(o, 'tocode')
    dst = ('T', 'TOP_q')
    try:
        g = V.item(s)
        lv = g[1] if g[0] != 'always' else None
        want = kind or ('assign' if al is None else 'always')
        if g[0] != want:
            bad.append('the code %r is %s instead of %s' % (s, g[0], want))
        elif want == 'always':
            lv = first(g[2])
            if al[0] is None:
                if g[1] != '*':
                    bad.append('the code %r is not combinational' % s)
            else:
                ws = []
                for n, ed, bt in ((al[0], al[1], al[2]), (al[3], al[4], al[5])):
                    if n is not None:
                        ws.append((ed, ('T', FLAT(n)) if not bt else ('[]', ('T', FLAT(n)), ('K', str(bt)))))
                if [x if x[1][0] == 'T' else (x[0], ('[]', x[1][1], ('K', str(V.literal(x[1][2][1])[0])))) for x in g[1]] != ws:
                    bad.append('the code %r is sensitive to %s' % (s.split('\n')[0], g[1]))
            eff = V.effect(g[2], lv, 'b' if al[0] is None else 'nb')
            if not V.same_stmt(t, eff, FLAT, lv):
                bad.append('the code %r assigns %s' % (s, V.show(eff)))
        elif not V.same(t, g[2], FLAT, lv):
            bad.append('the code %r assigns %s' % (s, V.show(g[2])))
        x = dst if ptr is None else ('[]', ('T', 'q'), ptr)
        x = ('T', 'q') if ptr is None else x
        x = x if msb is None else ('[:]', x, msb, lsb)
        if lv is not None and not V.same(x, lv, FLAT):
            bad.append('the code %r assigns to %s' % (s, V.show(lv)))
    except V.Illegal as x:
        bad.append('the code %r is not Verilog: %s' % (s, x))
    s = kit.call(o, 'tostr')
    try:
        g = V.Note(s).bind()
        if g != ('TOP.q',) + tuple(notation(x) for x in (msb, lsb, ptr, t)):
            bad.append('the notation %r denotes %s' % (s, g))
    except V.Illegal as x:
        bad.append('the notation %r is malformed: %s' % (s, x))
    return '; '.join(bad) or None


def first(s):
    """Destination of the first assignment of a statement."""
    if s[0] in ('b', 'nb'):
        return s[1]
    for x in (s[1:] if s[0] == 'blk' else s[2:]):
        if x is not None:
            f = first(x)
            if f is not None:
                return f
    return None


def refused(kit, t):
    try:
        kit.call(kit.T.build(t), 'tocode', 'TOP_q')
    except RaiseSig:
        return None
    return 'rendered instead of refused'


def check(ctx):
    repo = ctx.repo
    for n in ('DFTerminal', 'DFOperator', 'DFBranch', 'DFConcat', 'DFPartselect', 'DFPointer', 'DFEvalValue', 'Term', 'Bind'):
        if repo.find_method(repo.cls(DF + n), 'tocode') is None or repo.find_method(repo.cls(DF + n), 'tostr') is None:
            raise AnalysisBroken('%s has no rendering' % n)
    todo = []
    for t in trees(ctx.tier):
        todo.append(('code', code, t, D.text(t)))
        todo.append(('notation', note, t, D.text(t)))
    todo = [x for x in todo if not (x[0] == 'notation' and has(x[2], ('Vs',)))]
    todo += [('select', code, t, D.text(t)) for t in selected()]
    todo += [('declaration', term, x, '%s %s %s %s' % (x[0], '+'.join(x[1]), rtext(x[2]), ''.join('[%s]' % rtext(y) for y in x[3] or ()))) for x in terms()]
    for x in bindings(ctx.tier):
        todo.append(('binding', binding, x, '%s%s%s %s %s <- %s' % ('' if x[3] is None else '[[%s]]' % D.text(x[3]), '' if x[1] is None else '[%s]' % rtext(x[1:3]), '', x[4],
                                                                   '' if x[5] is None else '/'.join(str(y) for y in x[5]), D.text(x[0]))))
    todo += [('notation', note, ('delay', a), 'delay a'), ('refuse', refused, ('delay', a), 'delay a'), ('notation', note, op('Plus', ('delay', a), b), 'delay a + b')]
    n = 32
    groups = [todo[i::n] for i in range(n)]

    def one(g):
        res = []
        sent = set()
        kit = Kit(repo)
        for i, (rule, f, x, key) in enumerate(g):
            if i % 20 == 0:
                kit = Kit(repo)
            kit.E.budget = kit.E.steps + 2000000
            try:
                m = f(kit, x)
                res.append(('ok', '') if m is None else ('bad', m))
            except RaiseSig as x_:
                res.append(('bad', 'raises %s' % show(x_.exc)[:120]))
            except (Undecided, Budget, Opaque) as x_:
                res.append(('unknown', '%s %s' % (type(x_).__name__, str(x_)[:120])))
            sent.update(kit.E.called)
        return res, sorted(sent)
    where = {'code': locate(repo, DF + 'DFOperator.tocode'), 'notation': locate(repo, DF + 'DFOperator.tostr'), 'declaration': locate(repo, DF + 'Term.tocode'), 'binding': locate(repo, DF + 'Bind.tocode'),
             'select': locate(repo, DF + 'DFPartselect.tocode'), 'refuse': locate(repo, DF + 'DFDelay.tocode')}
    for g, r_ in zip(groups, pmap(one, groups)):
        if r_ is None:
            ctx.unknown('code', 'group', 'worker ended')
            continue
        ctx.functions.update(r_[1])
        for (rule, f, x, key), (v, m) in zip(g, r_[0]):
            key = short(key, 120)
            if v == 'ok':
                ctx.ok(rule, key)
            elif v == 'unknown':
                ctx.unknown(rule, key, m)
            else:
                ctx.bad(rule, key, 'a rendered dataflow object does not read back as itself', where[rule], '%s: %s' % (key, m))
    for rule, n in (('code', 2000), ('notation', 2000), ('declaration', 200), ('binding', 500)):
        ctx.floor(rule, n)


def rtext(r_):
    return '' if r_ is None else '%s:%s' % tuple(D.text(x) for x in r_)


def has(t, ks):
    return isinstance(t, tuple) and (t[:1] and t[0] in ks or any(has(x, ks) for x in t))
