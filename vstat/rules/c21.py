"""The state machine analysis is interpreted from source: the reading of conditions as (states, other condition) pairs on
enumerated condition trees, the splitting of trees into condition lists, the state machine container on enumerated graphs, and
the whole analysis on programs; every result is compared with the meaning of the tree it came from, state by state."""
import itertools

from .. import dftree as D
from ..dfrun import Failed, Undecided
from ..dfshape import Opaque, cls, entries, field, fields, items, py, chain
from ..dftree import Bad, Meaning, Tree
from ..engine import Budget, K, NONE, RaiseSig, Rec, St, isK, kv, mk, show
from ..par import pmap
from ..shapes import Shape, locate, pipeline, run_all
from .c17 import br, cat, engine, k, op, un
from .c18 import Val, bounds, dims, Spec
from .c19 import resolved
from .c20 import Full, Table

ASSUMPTIONS = ['States are unsigned and compared with constants of at most 32 bits.',
               'A condition whose text names a reset (rst, reset) is taken as the reset condition: transitions under reset are not reported, and the reset branch assigns unconditionally.']
TR = 'controlflow.transition'
SP = 'controlflow.splitter'
CA = 'controlflow.controlflow_analyzer.'
AA = 'controlflow.active_analyzer.VerilogActiveConditionAnalyzer'
SIG = {'s': (0, 2), 'a': (0, 2), 'b': (0, 1), 'c': (0, 1), 'rst': (0, 1)}
s, a, b, c = [('T', x) for x in 'sabc']


def v(n):
    return ('V', n, 32)


class Mean(Meaning):
    """Bits beyond the width of a value of an operator on 0/1 operands do not matter; a condition is its truth."""

    def truth(self, t, env):
        x, u = self.ev(t, env)
        x &= (1 << self.width(t)) - 1
        if x & ~u:
            return True
        if u:
            raise Bad('unknown')
        return False

    def op(self, t, env):
        if t[1] in D.BOOL:
            x = [self.truth(y, env) for y in t[2:]]
            return int(not x[0] if t[1] == 'Ulnot' else all(x) if t[1] == 'Land' else any(x)), 0
        return Meaning.op(self, t, env)


class Sig(Mean, Val):
    """With signals that stand for trees."""


M = Mean(SIG)
M1 = Mean(dict(SIG, s=(0, 1)))


def envs(M, names):
    names = sorted(names)
    for vals in itertools.product(*[range(1 << M.sig[n][1]) for n in names]):
        yield dict(zip(names, vals))


def states(R, t):
    """[(any, [(min, max)], condition)] of a snapped StateNode, StateNodeList or None."""
    if t is NONE:
        return []
    if cls(t) == 'StateNodeList':
        return [y for x in items(field(t, 'nodelist')) for y in states(R, x)]
    if cls(t) != 'StateNode':
        raise Opaque('not a state node: %s' % show(t, 3))
    f = fields(t)
    out = []
    for x in items(f['range_pairs']):
        lo, hi = [py(y) for y in items(x)]
        out.append((lo, hi))
    return [(bool(py(f['isany'])), out, R.df(f['transcond']))]


def atoms(width=2):
    top = 1 << width
    out = []
    for o in D.COMPARE:
        for n in list(range(top)) + [top, top + 1]:
            out.append(op(o, s, v(n)))
            out.append(op(o, v(n), s))
    return out


def conditions(tier):
    """Condition lists over s (the state), a, b, c."""
    A = atoms()
    some = [op('Eq', s, v(1)), op('NotEq', s, v(2)), op('LessThan', s, v(2)), op('GreaterEq', v(2), s), op('Eql', v(3), s), op('Eq', s, v(0)), op('GreaterThan', s, v(5))]
    other = [a, b, op('Eq', a, v(1)), op('LessThan', a, b), op('Eq', s, a), op('GreaterThan', a, s), op('Plus', a, s), un('Unot', a), ('[]', a, v(1)), ('[:]', s, v(1), v(0)), un('Uand', a),
             un('Uor', s), un('Uxor', s), un('Uminus', a), un('Unor', a), cat(a, b), op('And', a, v(1)), op('Xor', a, s), op('Srl', s, v(1)), br(b, a, c), s, un('Unot', s), v(1)]
    lists = [[]]
    lists += [[x] for x in A + other]
    nots = lambda l: [un(o, x) for x in l for o in ('Ulnot', 'Unot', 'Uor', 'Uand', 'Unor', 'Uplus', 'Uxnor', 'Unand')]
    lists += [[x] for x in nots(some[:5] + other)]
    two = []
    for o in ('Land', 'Lor', 'And', 'Or', 'Xor', 'Xnor', 'Eq', 'NotEq'):
        for x, y in itertools.product(some[:5] + other[:10] + [un('Ulnot', b), un('Ulnot', some[0])], repeat=2):
            if x is not y:
                two.append(op(o, x, y))
    for o in ('Land', 'Lor'):
        for x, y in itertools.product(A, some):
            two.append(op(o, x, y))
    lists += [[x] for x in two]
    lists += [[un(o, x)] for x in two for o in ('Ulnot', 'Unot') if x[1] in ('Land', 'Lor', 'And', 'Or')]
    mix = some + [b, un('Ulnot', a), op('Eq', a, v(2)), op('Land', some[0], b), op('Lor', some[0], c), op('Lor', op('Land', some[0], b), op('Land', some[1], c)), un('Ulnot', op('Land', some[0], b)), un('Ulnot', op('Lor', some[0], b))]
    lists += [list(x) for x in itertools.product(mix, repeat=2)]
    three = [some[0], some[1], some[2], b, un('Ulnot', a), op('Lor', some[0], c), op('Lor', op('Land', some[1], b), op('Land', some[2], c)), un('Ulnot', op('Lor', some[0], op('Land', some[5], b)))]
    lists += [list(x) for x in itertools.product(three, repeat=3)]
    if tier == 'thorough':
        for o in ('Land', 'Lor'):
            for x, y, z in itertools.product(mix, mix, mix):
                lists.append([un('Ulnot', op(o, x, op('Lor' if o == 'Land' else 'Land', y, z)))])
                lists.append([op(o, op('Lor' if o == 'Land' else 'Land', x, y), z)])
        lists += [list(x) for x in itertools.product(mix, repeat=3)]
        lists += [list(x) for x in itertools.product(three, repeat=4)]
        lists += [[x, un('Ulnot', y)] for x in two for y in mix]
    seen = set()
    out = []
    for l in lists:
        key = ', '.join(D.text(x) for x in l)
        if key not in seen:
            seen.add(key)
            out.append((key, l))
    return out


class Ctl(object):
    """One engine with the functions under analysis."""

    def __init__(self, repo):
        self.E = engine(repo)
        self.st = St()
        self.T = Tree(self.E, self.st)
        self.repo = repo

    def fn(self, m, f, *args):
        return self.E.call(self.E.fn(self.repo.mod(m).funcs[f]), list(args), {}, self.st)

    def call(self, o, m, *x):
        return self.E.call(self.E.getattr(o, m, self.st), list(x), {}, self.st)

    def tup(self, l):
        return mk('Tup', tuple(l))


def read_condition(repo, l, width=2):
    C = Ctl(repo)
    m = M if width == 2 else M1
    try:
        r = C.fn(TR, 'walkCondlist', C.tup([C.T.build(x) for x in l]), C.T.name('s'), K(width))
    except RaiseSig as x:
        return 'it raises %s' % show(x.exc, 3), set(C.E.called)
    nodes = states(C.T, C.E.snap(r, C.st))
    names = set(['s'])
    for x in l:
        names |= D.leaves(x)
    for e in envs(m, names):
        try:
            want = all([m.truth(x, e) for x in l])
        except Bad:
            continue
        try:
            have = any((an or any(lo <= e['s'] <= hi for lo, hi in rs)) and (t is None or m.truth(t, e)) for an, rs, t in nodes)
        except (Bad, KeyError) as x:
            return 'a transition condition has no value (%s)' % x, set(C.E.called)
        if have != want:
            return 'the states and conditions %s %s hold%s' % (describe(nodes), 'also' if have else 'do not', D.at(e)), set(C.E.called)
    for an, rs, t in nodes:
        for lo, hi in rs:
            if not 0 <= lo <= hi < 1 << width:
                return 'the range %d to %d is not one of states' % (lo, hi), set(C.E.called)
    return None, set(C.E.called)


def describe(nodes):
    return '; '.join('%s if %s' % ('any' if an else ','.join('%d-%d' % x for x in rs) or 'none', D.text(t)) for an, rs, t in nodes) or 'nothing'


def trees(tier):
    leaf = [v(0), v(1), a, s, None, op('Plus', s, v(1))]
    conds = [b, op('Eq', s, v(1)), op('And', a, v(2)), un('Ulnot', c)]
    out = []
    for x, y in itertools.product(leaf, repeat=2):
        if x is None and y is None:
            continue
        out.append(br(conds[0], x, y))
    inner = [br(conds[1], v(1), v(2)), br(conds[1], None, v(3)), br(conds[2], a, None)]
    for x, y in itertools.product(inner + leaf, repeat=2):
        out.append(br(conds[0], x, y))
        out.append(br(conds[3], br(conds[0], x, v(1)), y))
    if tier == 'thorough':
        for x, y, z in itertools.product(inner + leaf[:5], repeat=3):
            out.append(br(conds[1], br(conds[0], x, y), br(conds[2], z, y)))
    return [t for t in dict.fromkeys(out) if not hollow(t)]


def hollow(t):
    """A branch without values, which no program has."""
    return isinstance(t, tuple) and (t[:1] == ('?',) and t[2] is None and t[3] is None or any(hollow(x) for x in t))


def read_dict(C, d):
    out = []
    for kk, x in entries(C.E, d, C.st):
        kk = C.E.snap(C.E.thaw(kk, C.st), C.st)
        out.append(([C.T.df(y) for y in items(kk)], C.T.df(C.E.snap(x, C.st))))
    return out


def read_split(repo, t):
    C = Ctl(repo)
    try:
        got = read_dict(C, C.fn(SP, 'split', C.T.build(t)))
    except RaiseSig as x:
        return 'it raises %s' % show(x.exc, 3), set(C.E.called)
    names = D.leaves(t)
    for x, y in got:
        names |= D.leaves(y)
        for z in x:
            names |= D.leaves(z)
    if names - D.leaves(t):
        return 'it names %s' % ', '.join(sorted(names - D.leaves(t))), set(C.E.called)
    for e in envs(M, names):
        want = M.spine(t, e)
        have = [y for x, y in got if all(M.truth(z, e) for z in x)]
        if want is None and not have:
            continue
        if have != [want]:
            return 'the parts under the conditions that hold are %s instead of %s%s' % (', '.join(D.text(x) for x in have) or 'none', D.text(want), D.at(e)), set(C.E.called)
    return None, set(C.E.called)


def filters(repo):
    """remove_reset_condition and filter on condition lists."""
    rst = ('T', 'rst')
    out = []
    x, y = op('Eq', s, v(1)), b
    cases = [('reset first', [([rst], v(0)), ([un('Ulnot', rst), x], v(1)), ([un('Ulnot', rst), un('Ulnot', x)], s)], [([x], v(1)), ([un('Ulnot', x)], s)]),
             ('low reset', [([un('Ulnot', rst)], v(0)), ([un('Ulnot', un('Ulnot', rst)), x], v(2))], [([x], v(2))]),
             ('no reset', [([x], v(1)), ([un('Ulnot', x), y], v(2))], [([x], v(1)), ([un('Ulnot', x), y], v(2))]),
             ('only reset', [([rst], v(0))], [([], v(0))]),
             ('always after reset', [([rst], v(0)), ([un('Ulnot', rst)], v(1))], [([], v(1))]),
             ('reset in the middle', [([y, rst, x], v(3))], [([y, x], v(3))]),
             ('nothing', [], [])]
    for key, before, after in cases:
        C = Ctl(repo)
        d = C.E.new_ref(C.st, Rec('dict', None, {}))
        for l, t in before:
            C.E.setitem(d, C.tup([C.T.build(z) for z in l]), C.T.build(t), C.st)
        try:
            got = read_dict(C, C.fn(SP, 'remove_reset_condition', d))
            m = None if sorted(got, key=repr) == sorted(after, key=repr) else 'it leaves %s' % '; '.join('%s under (%s)' % (D.text(t), ', '.join(D.text(z) for z in l)) for l, t in got)
        except RaiseSig as e:
            m = 'it raises %s' % show(e.exc, 3)
        out.append(('reset', key, m, set(C.E.called)))
    funcs = [([x], v(0)), ([y], v(1)), ([x, y], v(2)), ([c], s), ([un('Ulnot', c)], a), ([un('Ulnot', b)], op('Plus', s, v(1)))]
    for cond, want in (('active_constant', [v(1), v(2)]), ('active_modify', [v(0), v(1), v(2), a, op('Plus', s, v(1))]), ('active_unmodify', [s]), (None, [v(1), v(2)])):
        C = Ctl(repo)
        d = C.E.new_ref(C.st, Rec('dict', None, {}))
        for l, t in funcs:
            C.E.setitem(d, C.tup([C.T.build(z) for z in l]), C.T.build(t), C.st)
        try:
            args = [d, C.T.name('s')] + ([] if cond is None else [C.E.fn(repo.mod(SP).funcs[cond])])
            got = read_dict(C, C.fn(SP, 'filter', *args))
            after = [(l, t) for l, t in funcs if t in want]
            m = None if sorted(got, key=repr) == sorted(after, key=repr) else 'it keeps %s' % '; '.join('%s under (%s)' % (D.text(t), ', '.join(D.text(z) for z in l)) for l, t in got)
        except RaiseSig as e:
            m = 'it raises %s' % show(e.exc, 3)
        out.append(('filter', cond or 'default', m, set(C.E.called)))
    return out


def cycles(g):
    """Simple cycles of {node: set of nodes}, starting at their smallest node."""
    out = set()

    def go(path):
        for n in g.get(path[-1], ()):
            if n == path[0]:
                out.add(tuple(path))
            elif n > path[0] and n not in path:
                go(path + [n])
    for n in g:
        go([n])
    return out


def graphs(tier):
    out = []
    for bits in range(1 << 9):
        out.append(dict((i, [j for j in range(3) if bits >> (3 * i + j) & 1]) for i in range(3)))
    step = 97 if tier == 'quick' else 7
    for bits in range(0, 1 << 16, step):
        out.append(dict((i, [j for j in range(4) if bits >> (4 * i + j) & 1]) for i in range(4)))
    out.append({0: [1, 2], 1: [2, 3], 2: [1, 4], 3: [0], 4: [0]})
    out.append({0: [1], 1: [2, 0], 2: [3, 1], 3: [4, 2], 4: [5, 3], 5: [0, 4]})
    out.append({3: [7], 7: [3, 12], 12: [12, 3]})
    out.append(dict((i, [(i + 1) % 60]) for i in range(60)))
    out.append(dict((i, [j for j in range(5) if j != i]) for i in range(5)))
    return out


def loops(repo, g):
    C = Ctl(repo)
    T, E, st = C.T, C.E, C.st
    F = E.call(E.cls_term(repo.cls(CA + 'FiniteStateMachine')), [K('TOP.s')], {}, st)
    try:
        for i, js in g.items():
            for n, j in enumerate(js):
                cond = NONE if len(js) == 1 else T.build(op('Eq', a, v(n)))
                C.call(F, 'add', mk('Tup', (K(i), K(i))), K(j), cond)
        got = E.snap(C.call(F, 'get_loop'), st)
    except RaiseSig as x:
        return 'it raises %s' % show(x.exc, 3), set(E.called)
    got = [tuple(py(y) for y in items(x)) for x in items(got)]
    can = lambda p: p[p.index(min(p)):] + p[:p.index(min(p))]
    want = cycles(g)
    have = set(can(p) for p in got)
    if len(have) != len(got):
        return 'a loop is reported twice', set(E.called)
    if have != want:
        return 'the loops %s instead of %s' % (sorted(have), sorted(want)) if len(want) < 20 else '%d loops instead of %d' % (len(have), len(want)), set(E.called)
    return None, set(E.called)


def machines():
    """(name, [(range, destination, condition)], [(destination, condition)])"""
    x, y = op('Eq', a, v(1)), b
    return [('one', [((0, 0), 1, None)], []), ('range', [((0, 2), 3, x), ((3, 3), 0, None)], []), ('two ways', [((1, 1), 2, x), ((1, 1), 3, un('Ulnot', x))], []),
            ('same destination', [((1, 1), 2, op('Land', x, y)), ((1, 1), 2, op('Land', un('Ulnot', x), c)), ((1, 1), 0, op('Land', x, un('Ulnot', y)))], []),
            ('same destination always', [((1, 1), 2, y), ((1, 1), 2, None)], []), ('always, then a condition', [((1, 1), 2, None), ((1, 1), 2, y)], []),
            ('complementary', [((0, 1), 2, y), ((0, 1), 2, un('Ulnot', y))], []), ('never', [((0, 0), 1, op('Land', y, v(0)))], []), ('constant', [((0, 0), 1, v(1))], []), ('zero', [((0, 0), 1, v(0)), ((0, 0), 2, None)], []),
            ('three', [((2, 2), 1, x), ((2, 2), 1, y), ((2, 2), 1, c)], []), ('any', [((1, 1), 2, x)], [(0, y)]), ('any twice', [], [(0, y), (1, op('Land', un('Ulnot', y), c))]), ('overlapping', [((0, 2), 1, y), ((1, 3), 2, un('Ulnot', y))], []),
            ('empty', [], [])]


def read_fsm(E, st, R, F):
    """({src: [(cond, dst)]}, [(cond, dst)])"""
    f = {}
    for kk, x in entries(E, E.getattr(F, 'fsm', st), st):
        f[py(E.snap(E.thaw(kk, st), st))] = [(R.df(E.snap(E.thaw(q, st), st)), py(E.snap(y, st))) for q, y in entries(E, x, st)]
    an = [(R.df(E.snap(E.thaw(q, st), st)), py(E.snap(y, st))) for q, y in entries(E, E.getattr(F, 'any', st), st)]
    return f, an


def machine(repo, m):
    name, trans, anys = m
    C = Ctl(repo)
    T, E, st = C.T, C.E, C.st
    from .c17 import Setup
    S = Setup(repo, SIG, {})
    E, st, T = S.E, S.st, S.T
    C.E, C.st, C.T = E, st, T
    node = lambda rs, t, an: E.call(E.cls_term(repo.cls(TR + '.StateNode')), [], {'range_pairs': mk('Tup', tuple(mk('Tup', (K(x), K(y))) for x, y in rs)), 'transcond': T.build(t), 'maxvalue': K(3), 'isany': K(an)}, st)
    F = E.call(E.cls_term(repo.cls(CA + 'FiniteStateMachine')), [K('TOP.s')], {}, st)
    try:
        for rs, d, t in trans:
            C.call(F, 'construct', K(d), node([rs], t, False))
        for d, t in anys:
            C.call(F, 'construct', K(d), node([], t, True))
        before = read_fsm(E, st, T, F)
        size = py(E.snap(C.call(F, 'size'), st))
        C.call(F, 'resolve', S.O)
        after = read_fsm(E, st, T, F)
        lr = tuple(py(x) for x in items(E.snap(C.call(F, 'label_range'), st)))
    except RaiseSig as x:
        return 'it raises %s' % show(x.exc, 3), set(E.called)
    srcs = set(i for (lo, hi), _, _ in trans for i in range(lo, hi + 1))
    for stage, (f, an) in (('recorded', before), ('resolved', after)):
        if sorted(an, key=repr) != sorted([(t, d) for d, t in anys], key=repr):
            return 'the transitions from any state are %s as %s' % ([(D.text(t), d) for t, d in an], stage), set(E.called)
        if set(i for i in f if f[i]) - srcs:
            return 'states %s have transitions as %s' % (sorted(f), stage), set(E.called)
        for e in envs(M, ['a', 'b', 'c']):
            hold = lambda t: t is None or M.truth(t, e)
            for i in srcs:
                want = set(d for (lo, hi), d, t in trans if lo <= i <= hi and hold(t))
                have = set(d for t, d in f.get(i, ()) if hold(t))
                if want != have:
                    return 'state %d goes to %s instead of %s as %s%s' % (i, sorted(have), sorted(want), stage, D.at(e)), set(E.called)
    for i, l in after[0].items():
        ds = [d for _, d in l]
        if len(set(ds)) != len(ds):
            return 'state %d has two transitions to one state' % i, set(E.called)
    want = (sum(len(l) for l in before[0].values()) + len(before[0]) * len(before[1]))
    if size != want:
        return 'its size is %s instead of %s' % (size, want), set(E.called)
    used = [x for i, l in after[0].items() for x in [i] + [d for _, d in l]]
    wl = (min(used), max(used)) if used else (None, None)
    if lr != wl:
        return 'its labels range over %s instead of %s' % (lr, wl), set(E.called)
    return None, set(E.called)


# ---- programs

def judge(regs, none=(), top='TOP', limit=1 << 14, reset=None, delay=None):
    """regs: the state registers expected among the machines; reset: (name, inactive value)."""
    def j(run):
        E, st = run.E, run.st
        consts, rterms, rbinds = resolved(run)
        tab = Table(run, run.terms, run.binddict)
        call = lambda o, m, *x: E.call(E.getattr(o, m, st), list(x), {}, st)
        m = Sig(dict((n, bounds(tab, n)) for n in tab.terms))
        m.arrays = {}
        R = Full(E, st)
        try:
            W = E.call(E.cls_term(E.repo.cls(CA + 'VerilogControlflowAnalyzer')), [K(top), run.terms, run.binddict, rterms, rbinds, consts], {}, st)
            ms = call(W, 'getFiniteStateMachines')
            lp = call(W, 'getLoops')
            got = {}
            for kk, x in entries(E, ms, st):
                got[chain(kk)] = read_fsm(E, st, R, x) + (py(E.snap(E.getattr(x, 'delaycnt', st), st)),)
            trees = {}
            for n, key in tab.keys:
                if tab.binds.get(n):
                    trees[n] = R.read(call(W, 'getTree', E.thaw(key, st)))
            lps = {}
            for kk, x in entries(E, E.as_items(E.simp(lp, st), st)[0], st):
                lps[chain(kk)] = set(tuple(py(y) for y in items(z)) for z in items(E.snap(x, st)))
            consts_ = dict((chain(x), R.df(E.snap(y, st))) for x, y in entries(E, consts, st))
        except RaiseSig as x:
            raise Failed(x.exc)
        run.funcs |= set(E.called)
        want = set('TOP.' + n for n in regs)
        if set(got) != want:
            return 'the state machines are those of %s' % (', '.join(sorted(got)) or 'nothing')
        spec = Spec(tab, trees, m, top)
        for n in sorted(got):
            r = transitions(n, got[n], spec, m, trees, reset, consts_)
            if r:
                return r
            g = dict((i, set(d for _, d in l)) for i, l in got[n][0].items())
            if lps.get(n, set()) != cycles(g):
                return 'the loops of %s are %s instead of %s' % (n, sorted(lps.get(n, ())), sorted(cycles(g)))
        return None
    return j


def transitions(n, got, spec, m, trees, reset, consts):
    f, an, _ = got
    want = fold_consts(spec.expand(spec.held(n, trees[n]), 0, frozenset()), consts)
    from .c18 import strip
    flat = spine_sig(want)
    names = set([n]) | D.leaves(strip(flat))
    for l in list(f.values()) + [an]:
        for t, _ in l:
            if t is not None:
                names |= D.leaves(t)
    free = sorted(x for x in names if x not in consts and not (reset and x == 'TOP.' + reset[0]))
    bad = [x for x in free if x not in m.sig]
    if bad:
        return 'a condition of %s names %s' % (n, bad[0])
    total = 1
    for x in free:
        total <<= m.sig[x][1]
    if total > 1 << 16:
        raise Opaque('too many inputs')
    for vals in itertools.product(*[range(1 << m.sig[x][1]) for x in free]):
        e = dict(zip(free, vals))
        if reset:
            e['TOP.' + reset[0]] = reset[1]
        for x, t in consts.items():
            if t[0] == 'V':
                e[x] = t[1]
        leaf = spine(flat, m, e)
        hold = lambda t: t is None or m.truth(t, e)
        have = set(d for t, d in f.get(e[n], ()) if hold(t)) | set(d for t, d in an if hold(t))
        x = leaf
        nxt = constant(x)
        if nxt is None:
            if have:
                return '%s goes to %s, which no branch of the program assigns%s' % (n, sorted(have), D.at(e))
        elif have != set([nxt]):
            return '%s goes to %s instead of %d%s' % (n, sorted(have) or 'no state', nxt, D.at(e))
    return None


def fold_consts(t, consts):
    if isinstance(t, tuple):
        if t[:1] == ('T',) and t[1] in consts:
            return consts[t[1]]
        return tuple(fold_consts(x, consts) for x in t)
    return t


def spine_sig(t):
    """Signals at the root replaced by what they stand for."""
    while t is not None and t[0] == 'sig':
        t = t[2]
    if t is not None and t[0] == '?':
        return ('?', t[1], spine_sig(t[2]), spine_sig(t[3]))
    return t


def spine(t, m, e):
    while t is not None and t[0] == '?':
        t = t[2] if m.truth(t[1], e) else t[3]
    return t


def constant(t):
    if t is None or D.leaves(t) or t[0] not in ('V', 'K', 'op'):
        return None
    try:
        return Meaning({}).ev(t, {})[0]
    except Exception:
        return None


HEAD = 'module TOP(input CLK, input RST, input [1:0] a, input b, input c, output reg o);\n'


def programs():
    """(name, text, state registers, reset)"""
    S = lambda body, *mods: HEAD + body + 'endmodule\n' + ''.join(mods)
    P = []
    add = lambda n, t, regs=('state',), reset=('RST', 0): P.append((n, t, tuple(regs), reset))
    R = 'reg [1:0] state;\nalways @(posedge CLK) begin if (RST) state <= 0; else begin %s end end\n'
    add('if chain', S(R % 'if (state == 0) begin if (b) state <= 1; end else if (state == 1) state <= 2; else if (state == 2) state <= c ? 3 : 0; else state <= 0;'))
    add('case', S(R % 'case (state) 0: if (b) state <= 1; 1: begin if (c) state <= 2; else state <= 0; end 2: state <= 3; default: state <= 0; endcase'))
    add('case with a list', S(R % 'case (state) 0, 1: state <= 2; 2: if (a == 1) state <= 0; else if (a == 2) state <= 1; 3: state <= 0; endcase'))
    add('parameters', S('localparam IDLE = 0; localparam RUN = 2; parameter STOP = 3;\n' + R % 'case (state) IDLE: if (b) state <= RUN; RUN: if (c && a == 3) state <= STOP; STOP: state <= IDLE; endcase'))
    add('low reset', S('reg [1:0] state;\nalways @(posedge CLK or negedge rst_n) if (!rst_n) state <= 0; else case (state) 0: state <= 1; 1: if (b) state <= 2; 2: state <= 0; endcase\n').replace('input RST', 'input rst_n'), reset=('rst_n', 1))
    add('no reset', S('reg [1:0] state;\nalways @(posedge CLK) case (state) 0: state <= 1; 1: if (b) state <= 2; 2: state <= 0; endcase\n'), reset=None)
    add('ranges', S(R % 'if (state < 2) state <= 3; else if (state > 2 && b) state <= 1; else if (state >= 2) state <= 0;'))
    add('less or equal', S(R % 'if (state <= 1) state <= 2; else if (3 <= state) state <= 0; else if (2 > state) state <= 3;'))
    add('negations', S(R % 'if (state != 2) begin if (!(b && c)) state <= 2; end else if (!b) state <= 0; else if (!(state == 1)) state <= 3;'))
    add('or of states', S(R % 'if (state == 0 || state == 2) state <= 1; else if ((state == 1 && b) || (state == 3 && c)) state <= 0; else state <= 3;'))
    add('contradiction', S(R % 'if (state == 1) begin if (state == 2) state <= 3; else state <= 0; end else if (state == 0) state <= 1;'))
    add('contradiction, then a condition', S(R % 'if (state == 1 && state == 2) begin if (b) state <= 3; end else if (state == 0) state <= 1;'))
    add('any state', S(R % 'if (b) state <= 0; else case (state) 0: state <= 1; 1: state <= 2; endcase'))
    add('compared with an input', S(R % 'if (state == a) state <= 1; else if (state == 0 && a > 1) state <= 2;'))
    add('wide conditions', S(R % 'if (state == 0) begin if (a & 2) state <= 1; else if (~a) state <= 2; end else if (state == 1) begin if (&a) state <= 3; else if (^a) state <= 0; end'))
    add('bitwise conditions', S(R % 'if ((state == 0) & b) state <= 1; else if ((state == 1) & (a == 2) | (state == 2) & c) state <= 3; else if (~(state == 3)) state <= 0;'))
    add('state bits', S(R % 'if (state & 1) state <= 2; else if (state[1]) state <= 1; else if (b && state == 0) state <= 3;'))
    add('bare state', S(R % 'if (state) state <= 0; else state <= 2;'))
    add('not the state', S(R % 'if (!state) state <= 2; else if (b) state <= 0;'))
    add('one bit', S('reg state;\nalways @(posedge CLK) if (RST) state <= 0; else if (state) state <= 0; else if (b) state <= 1;\n'))
    add('counter', S('reg [1:0] count;\nalways @(posedge CLK) if (RST) count <= 0; else if (count == 2) count <= 0; else if (b) count <= count + 1;\n'), regs=('count',))
    add('next state logic', S('reg [1:0] state, nxt;\nalways @(posedge CLK) if (RST) state <= 0; else state <= nxt;\nalways @* begin nxt = state; case (state) 0: if (b) nxt = 1; 1: nxt = c ? 2 : 0; 2: nxt = 0; endcase end\n'))
    add('next state by assign', S('reg [1:0] state; wire [1:0] nxt;\nassign nxt = state == 0 ? (b ? 1 : 0) : state == 1 ? 2 : 0;\nalways @(posedge CLK) if (RST) state <= 0; else state <= nxt;\n'))
    add('condition wires', S('reg [1:0] state; wire go, idle;\nassign go = b & c; assign idle = state == 0;\nalways @(posedge CLK) if (RST) state <= 0; else if (idle && go) state <= 1; else if (!idle && a == 2) state <= 0;\n'))
    add('two machines', S('reg [1:0] state; reg [1:0] mode;\nalways @(posedge CLK) if (RST) begin state <= 0; mode <= 0; end else begin if (mode == 1 && state == 0) state <= 1; else if (state == 1) state <= 0; if (state == 1) mode <= 2; else if (mode == 2) mode <= 1; end\n'), regs=('state', 'mode'))
    add('constant data only', S('reg [1:0] state; reg [1:0] data;\nalways @(posedge CLK) if (RST) begin state <= 0; data <= 0; end else begin if (state == 0) state <= 1; else state <= 0; if (b) data <= 1; else data <= a; end\n'))
    add('data states', S(R % 'if (b) state <= a; else if (state == 1) state <= 3;'))
    add('self loops', S(R % 'case (state) 0: if (b) state <= 0; else state <= 1; 1: state <= 1; endcase'))
    add('sum conditions', S(R % 'if (a + b == 2) state <= 1; else if (state == 1) begin if (a - 1) state <= 2; end'))
    add('nested', S(R % 'if (b) begin if (state == 0) begin if (c) state <= 1; else state <= 2; end else if (state == 1) begin if (a == 0) state <= 3; end end else if (c) begin if (state == 3) state <= 0; end'))
    add('wide constants', S(R % "if (state == 9) state <= 1; else if (state < 9) begin if (b) state <= 2'b10; end"))
    add('instance', S('wire t; sub u(CLK, RST, b, t);\n', 'module sub(input CLK, input RST, input b, output t);\nreg [1:0] state; assign t = state == 2;\nalways @(posedge CLK) if (RST) state <= 0; else if (state == 0 && b) state <= 1; else if (state == 1) state <= 2; else if (b) state <= 0;\nendmodule\n'), regs=('u.state',))
    return P


def judge_active(sig, machine, reset=('RST', 0), kind=None):
    """The states and conditions under which a signal is active (constant above 0; changed; unchanged)."""
    def j(run):
        E, st = run.E, run.st
        consts, rterms, rbinds = resolved(run)
        tab = Table(run, run.terms, run.binddict)
        call = lambda o, m, *x: E.call(E.getattr(o, m, st), list(x), {}, st)
        m = Sig(dict((n, bounds(tab, n)) for n in tab.terms))
        m.arrays = {}
        R = Full(E, st)
        n, f = 'TOP.' + sig, 'TOP.' + machine
        try:
            W = E.call(E.cls_term(E.repo.cls(AA)), [K('TOP'), run.terms, run.binddict, rterms, rbinds, consts], {}, st)
            key = [E.thaw(x, st) for y, x in tab.keys if y == n][0]
            args = [key] + ([] if kind is None else [E.fn(E.repo.mod(SP).funcs[kind])])
            got = dict((chain(x), [tuple(items(z)) for z in items(E.snap(y, st))]) for x, y in entries(E, call(W, 'getActiveConditions', *args), st))
            trees = dict((y, R.read(call(W, 'getTree', E.thaw(x, st)))) for y, x in tab.keys if tab.binds.get(y))
            cs = dict((chain(x), R.df(E.snap(y, st))) for x, y in entries(E, consts, st))
        except RaiseSig as x:
            raise Failed(x.exc)
        run.funcs |= set(E.called)
        if set(got) != set([f]):
            return 'the conditions are given for %s instead of %s' % (', '.join(sorted(got)) or 'nothing', f)
        pairs = [(py(x), R.df(y)) for x, y in got[f]]
        spec = Spec(tab, trees, m, 'TOP')
        from .c18 import strip
        flat = spine_sig(fold_consts(spec.expand(spec.held(n, trees[n]), 0, frozenset()), cs))
        names = set([f]) | D.leaves(strip(flat))
        for _, t in pairs:
            names |= D.leaves(t)
        free = sorted(x for x in names if x not in cs and x != 'TOP.' + reset[0])
        for vals in itertools.product(*[range(1 << m.sig[x][1]) for x in free]):
            e = dict(zip(free, vals))
            e['TOP.' + reset[0]] = reset[1]
            leaf = spine(flat, m, e)
            x = constant(leaf)
            same = leaf is None or strip(leaf) == ('T', n)
            want = {'active_modify': not same, 'active_unmodify': same}.get(kind, x is not None and x > 0)
            have = any(q == e[f] and (t is None or m.truth(t, e)) for q, t in pairs)
            if want != have:
                return '%s is %sactive%s, which is %sreported' % (n, '' if want else 'not ', D.at(e), 'not ' if want else '')
        return None
    return j


def active_programs():
    S = lambda body: HEAD + body + 'endmodule\n'
    F = 'reg [1:0] state;\nalways @(posedge CLK) if (RST) state <= 0; else case (state) 0: if (b) state <= 1; 1: if (c) state <= 2; else state <= 3; 2: state <= 0; 3: state <= 0; endcase\n'
    P = []
    add = lambda n, t, sig='o', kind=None, machine='state': P.append((n, S(t), sig, machine, kind))
    add('register', F + 'always @(posedge CLK) if (RST) o <= 0; else if (state == 2) o <= 1; else o <= 0;\n')
    add('register with condition', F + 'always @(posedge CLK) if (RST) o <= 0; else begin if (state == 1 && a == 2) o <= 1; else if (state == 3) begin if (!b) o <= 1; else o <= 0; end else if (state == 0) o <= 0; end\n')
    add('wire', F + 'wire w; assign w = state == 1 ? 1 : 0;\n', 'w')
    add('wire with conditions', F + 'wire w; assign w = state == 1 ? (b ? 1 : 0) : state == 2 ? (a[0] & c ? 0 : 1) : 0;\n', 'w')
    add('range', F + 'always @(posedge CLK) if (RST) o <= 0; else if (state > 1) o <= 1; else o <= 0;\n')
    add('changed', F + 'reg [1:0] d; always @(posedge CLK) if (RST) d <= 0; else if (state == 2) d <= a; else if (state == 1 && b) d <= 3;\n', 'd', 'active_modify')
    add('unchanged', F + 'reg [1:0] d; always @(posedge CLK) if (RST) d <= 0; else if (state == 2) d <= a; else if (state == 1) begin if (b) d <= 3; end else if (state == 0) d <= 1; else if (state == 3) d <= d;\n', 'd', 'active_unmodify')
    return P


def check(ctx):
    tier, repo = ctx.tier, ctx.repo
    groups = lambda l, n: [l[i:i + n] for i in range(0, len(l), n)]

    def sweep(rule, jobs, f, where, what, n):
        def one(g):
            out = []
            for key, x in g:
                try:
                    m, fs = f(x)
                    out.append((key, m, sorted(fs), False))
                except (Undecided, Budget, Opaque, RecursionError, KeyError, AttributeError, TypeError, ValueError) as e:
                    out.append((key, '%s %s' % (type(e).__name__, str(e)[:120]), [], True))
            return out
        gs = groups(jobs, n)
        for g, res in zip(gs, pmap(one, gs)):
            if res is None:
                for key, _ in g:
                    ctx.unknown(rule, key, 'worker ended')
                continue
            for key, m, fs, unk in res:
                ctx.functions.update(fs)
                if unk:
                    ctx.unknown(rule, key, m)
                elif m is None:
                    ctx.ok(rule, key)
                else:
                    ctx.bad(rule, key, what, locate(repo, *where), '%s: %s' % (key, m))
    sweep('condition', conditions(tier), lambda l: read_condition(repo, l), [TR + '.walkCondlist'], 'the states and the condition read from these conditions are not those under which they hold', 40)
    one = [op('Eq', s, v(1)), op('Eq', s, v(0)), op('LessThan', s, v(1)), s, un('Unot', s), un('Ulnot', s), op('And', s, b), op('And', s, op('Eq', b, v(1))), op('GreaterEq', s, v(1)), op('Eq', s, v(2)), op('NotEq', s, v(2))]
    sweep('condition', [('one bit: ' + D.text(x), [x]) for x in one] + [('one bit: %s, %s' % (D.text(x), D.text(y)), [x, y]) for x in one for y in one], lambda l: read_condition(repo, l, 1), [TR + '.walkCondlist'],
          'the states and the condition read from these conditions are not those under which they hold', 40)
    sweep('split', [(D.text(t), t) for t in trees(tier)], lambda t: read_split(repo, t), [SP + '.split'], 'the parts of a tree and their conditions are not those of the tree', 40)
    sweep('loop', [(str(sorted((i, tuple(x)) for i, x in g.items())) if len(g) < 10 else '%d states in a ring' % len(g), g) for g in graphs(tier)], lambda g: loops(repo, g), [CA + 'FiniteStateMachine.get_loop'], 'the loops of a machine are not the cycles of its transitions', 60)
    sweep('machine', [(m[0], m) for m in machines()], lambda m: machine(repo, m), [CA + 'FiniteStateMachine.resolve'], 'a state machine does not hold the transitions given to it', 4)
    try:
        for rule, key, m, fs in filters(repo):
            ctx.functions.update(fs)
            if m is None:
                ctx.ok(rule, key)
            else:
                ctx.bad(rule, key, 'the parts kept are not those asked for', locate(repo, SP + '.' + ('remove_reset_condition' if rule == 'reset' else 'filter')), '%s: %s' % (key, m))
    except (Undecided, Budget, Opaque, RecursionError) as e:
        ctx.unknown('filter', 'filters', str(e)[:120])
    P = pipeline(ctx)
    where = locate(repo, CA + 'VerilogControlflowAnalyzer.getFiniteStateMachine')
    run_all(ctx, P, [Shape('machine of', n, t, judge(regs, reset=reset), where, 'the transitions reported for a state register are not those of the program') for n, t, regs, reset in programs()])
    where = locate(repo, AA + '.getActiveConditions')
    run_all(ctx, P, [Shape('active', n, t, judge_active(sig, mach, kind=kind), where, 'the conditions under which a signal is active are not those of the program') for n, t, sig, mach, kind in active_programs()])
