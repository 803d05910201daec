"""The rewriting rules applied to dataflow trees (constant folding, merging of operands, concatenations, parts and branches, and the
lifting of branches) are interpreted from source on tree shapes covering every rule's pattern and its near misses; the rewritten
tree must have the value of the original for every assignment of its terminals."""
import itertools
import random

from .. import dftree as D
from ..dfrun import Undecided, hook
from ..dftree import BOOL, COMPARE, Meaning, Tree, differ
from ..engine import Budget, Engine, K, NONE, RaiseSig, Rec, St, show
from ..dfshape import Opaque
from ..par import pmap
from ..repo import AnalysisBroken
from ..shapes import locate, short

ASSUMPTIONS = ['Terminals are unsigned words of small fixed widths; arithmetic is on unbounded integers and bitwise complement within the operand width, as '
               'the optimizer folds them.', 'An operand of && || ! and a branch condition matter only as zero or not zero.']
OPT = 'dataflow.optimizer.VerilogOptimizer'
SIG = {'a': (0, 2), 'b': (0, 2), 'c': (0, 1), 'd': (0, 1), 'e': (0, 1), 'w': (0, 4), 'r': (2, 3), 'p': (0, 4)}
CONST = {'p': 5}
BIN = ('Power', 'Times', 'Divide', 'Mod', 'Plus', 'Minus', 'Sll', 'Srl', 'Sla', 'Sra') + COMPARE + ('And', 'Xor', 'Xnor', 'Or', 'Land', 'Lor')
UN = ('Uplus', 'Uminus', 'Ulnot', 'Unot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
a, b, c, d, e, w, r, p = [('T', n) for n in 'abcdewrp']
k = lambda s: ('K', str(s))
op = lambda o, *x: ('op', o) + x
part = lambda v, m, l: ('[:]', v, k(m), k(l))
bit = lambda v, i: ('[:]', v, k(i), k(i))
br = lambda x, y, z: ('?', x, y, z)
cat = lambda *x: ('cat',) + x
un = lambda o, x: ('op', o, x)


def engine(repo, budget=3000000):
    E = Engine(repo, budget=budget)
    E.on_raw = hook(None)
    E.recurse = True
    E.strict = True
    E.max_depth = 400
    return E


class Setup(object):
    """An engine with an optimizer over the terminals."""

    def __init__(self, repo, sig=SIG, const=CONST, budget=3000000):
        E = self.E = engine(repo, budget)
        st = self.st = St()
        self.T = Tree(E, st)
        self.terms = E.new_ref(st, Rec('dict', None, {}))
        self.consts = E.new_ref(st, Rec('dict', None, {}))
        for n in sorted(sig):
            lo, wd = sig[n]
            t = self.T.new(D.D + 'Term', [], {'name': self.T.name(n), 'msb': self.T.build(k(lo + wd - 1)), 'lsb': self.T.build(k(lo))})
            E.setitem(self.terms, self.T.name(n), t, st)
        for n, v in sorted(const.items()):
            E.setitem(self.consts, self.T.name(n), self.T.build(('V', v, 32)), st)
        self.O = E.call(E.cls_term(repo.cls(OPT)), [self.terms, self.consts], {}, st)

    def method(self, name, *args):
        return self.E.call(self.E.getattr(self.O, name, self.st), list(args), {}, self.st)

    def function(self, name, *args):
        m, _, f = name.rpartition('.')
        return self.E.call(self.E.fn(self.E.repo.mod(m).funcs[f]), list(args), {}, self.st)


def is_truth(t):
    return t is not None and t[0] == 'op' and t[1] in ('Land', 'Lor')


def mixed(t, boolean=True):
    """A && or || with a wide operand whose value (not truth) matters somewhere in t."""
    if not isinstance(t, tuple) or not t or t[0] in ('T', 'K', 'V'):
        return False
    if t[0] == 'op':
        if t[1] in ('Land', 'Lor') and not boolean:
            m = Meaning(SIG, CONST)
            if any(m.width(x) != 1 for x in t[2:]):
                return True
        # a nested && or || inherits its parent's context: operands of the same operator are merged
        return any(mixed(x, boolean if t[1] in ('Land', 'Lor') and is_truth(x) else t[1] in BOOL) for x in t[2:])
    if t[0] == '?':
        return mixed(t[1], True) or any(mixed(x, False) for x in t[2:])
    return any(mixed(x, False) for x in t[1:])


def operators():
    out = []
    consts = [k(0), k(1), k(2), k(3), k(4), k("1'b0"), k("1'b1"), k("2'd3"), k("4'd0"), k("2'd0")]
    for o in BIN:
        for x, y in itertools.product([a, b, c], [a, b, c]):
            out.append(op(o, x, y))
        for x in (a, c, w):
            for y in consts:
                if o == 'Power' and y == k(4):
                    continue
                out += [op(o, x, y), op(o, y, x)]
        out += [op(o, p, a), op(o, a, p), op(o, p, k(2)), op(o, p, p)]
        for x in (a, c):
            for u in ('Unot', 'Ulnot', 'Uminus', 'Uor'):
                out += [op(o, un(u, x), x), op(o, x, un(u, x)), op(o, un(u, x), un(u, x))]
    for n in (2 ** 29, 2 ** 31, 2 ** 49 - 1, 2 ** 53 - 1, 2 ** 53 + 1, 2 ** 60, 6, 7, 8, 9):
        out += [op('Times', a, k(n)), op('Times', k(n), a), op('Divide', w, k(n))]
    for u in UN:
        out += [un(u, x) for x in (a, c, w, k(0), k("4'd9"), k("2'd3"), k("3'b000"), p, cat(a, c))]
        for v in UN:
            out += [un(u, un(v, a)), un(u, un(v, c))]
    return out


def equalities():
    """Terms x == k, in both orders, negated or not, under && and ||."""
    eqs = []
    for x in (a, b):
        for n in (1, 2):
            eqs += [op('Eq', x, k(n)), op('Eq', k(n), x)]
    eqs += [op('NotEq', a, k(1)), op('Eql', a, k(1)), op('Eq', a, b), op('GreaterThan', a, k(1))]
    n = lambda x: un('Ulnot', x)
    out = []
    for x, y in itertools.product(eqs, eqs):
        for o in ('Land', 'Lor'):
            out += [op(o, x, y), op(o, n(x), y), op(o, x, n(y))]
            if x is y or x[1] == 'Eq' and x[2] == a:
                out.append(op(o, n(x), n(y)))
    return out


def boolean(tier):
    n = lambda x: un('Ulnot', x)
    out = []
    for o, q in (('Lor', 'Land'), ('Land', 'Lor'), ('Or', 'And'), ('Lor', 'And'), ('Lor', 'Lor'), ('Land', 'Land')):
        for x, y, z in ((c, d, d), (c, d, e), (a, b, b), (a, c, c), (c, a, a), (c, d, c)):
            for f in (n, lambda t: un('Unot', t)):
                for l in (op(q, f(x), y), op(q, y, f(x))):
                    for m in (op(q, x, z), op(q, z, x)):
                        out += [op(o, l, m), op(o, m, l)]
    R = random.Random(17)
    lits = [c, d, e, n(c), n(d), n(e), un('Ulnot', n(c)), op('Eq', a, k(1)), op('Eq', a, k(2)), op('NotEq', a, k(1)), un('Unot', c), k("1'b1"), k(0), a, n(a), un('Uor', a)]

    def rnd(depth):
        if depth == 0 or R.random() < 0.15:
            return R.choice(lits)
        if R.random() < 0.15:
            return n(rnd(depth - 1))
        return op(R.choice(['Land', 'Lor']), rnd(depth - 1), rnd(depth - 1))
    for i in range(250 if tier == 'quick' else 3000):
        out.append(rnd(2 + i % 2))
    for i in range(60 if tier == 'quick' else 600):
        out.append(br(rnd(2), R.choice([a, b, w]), R.choice([a, b, k(1)])))
        out.append(op(R.choice(['And', 'Or', 'Xor', 'Eq']), rnd(1), R.choice([c, d])))
    return [t for t in out if not mixed(t)]


def structure(tier):
    out = []
    und = lambda n: ('U', n)
    hi = lambda n: ('H', n)
    pieces = [a, c, part(w, 3, 2), part(w, 1, 0), bit(w, 2), k("2'd1"), k("1'b0"), und(1), und(2), br(c, a, b), br(c, b, k("2'd3")), br(d, a, b), part(r, 4, 3), bit(r, 2), hi(1),
              cat(c, d), cat(a, k("1'b1")), bit(w, 3), part(w, 2, 1), br(c, a, None), br(c, None, a), ('[:]', w, c, c), op('And', a, b), un('Uor', a), part(w, 3, 0), ('[]', w, k(1))]
    for x, y in itertools.product(pieces, pieces):
        out.append(cat(x, y))
    R = random.Random(18)
    for i in range(250 if tier == 'quick' else 2500):
        out.append(cat(*[R.choice(pieces) for _ in range(R.randint(3, 4))]))
    adj = [cat(part(w, 3, 1), bit(w, 0)), cat(bit(w, 3), bit(w, 2), bit(w, 1), bit(w, 0)), cat(bit(w, 2), bit(w, 1)), cat(bit(w, 0), bit(w, 1)), cat(part(w, 1, 0), part(w, 3, 2)),
           cat(part(r, 4, 4), part(r, 3, 2)), cat(bit(r, 4), bit(r, 3), bit(r, 2)), cat(bit(w, 1), bit(r, 2)), cat(part(w, 3, 2), part(w, 2, 0)), cat(part(w, 3, 3), part(w, 1, 0)),
           cat(part(w, 3, 2), part(w, 1, 0), part(w, 3, 2), part(w, 1, 0)), cat(c, part(w, 3, 2), part(w, 1, 0), d), cat(part(a, 1, 1), part(a, 0, 0), k("1'b1"), k("1'b1")),
           cat(k("1'b1"), k("2'b10"), c, k("1'b0"), k("1'b1")), cat(und(1), und(2), c, und(1)), cat(a), cat(part(w, 1, 0)), cat(bit(w, 3), k("1'b0"), bit(w, 2)),
           cat(br(c, a, b), br(c, b, a), br(c, a, a)), cat(br(c, a, None), br(c, None, a), br(d, a, b)), cat(br(op('Eq', a, k(1)), c, d), br(op('Eq', a, k(1)), d, e))]
    out += adj
    whole = [cat(a, b), cat(c, w), cat(w, c, a), cat(k("2'd2"), a, c), cat(r, d), cat(part(w, 2, 1), br(c, a, b)), cat(und(2), a), cat(op('And', a, b), c, k("3'd5"))]
    m = Meaning(SIG, CONST)
    for x in whole + [a, w, p, k("4'd10"), k(6)]:
        n = min(m.width(x), 7)
        for lo, hi_ in itertools.combinations_with_replacement(range(n), 2):
            out.append(part(x, hi_, lo))
        for i in range(n):
            out.append(bit(x, i))
            if x[0] in ('T', 'cat'):
                out.append(('[]', x, k(i)))
        if x in whole:
            out += [part(x, n, 0), part(x, n, n - 1), part(x, n + 1, n), part(x, n + 2, 1), bit(x, n + 3)]
    out += [part(r, h, l) for h in (2, 3, 4) for l in (2, 3, 4) if h >= l]
    out += [part(op('And', a, b), 1, 0), part(op('And', a, b), 0, 0), part(br(c, a, b), 1, 0), part(br(c, a, b), 1, 1),
            part(part(w, 2, 1), 1, 0), part(part(w, 3, 1), 1, 0), ('[:]', w, op('Plus', c, k(1)), op('Plus', c, k(1))), ('[:]', w, op('Plus', k(1), k(2)), op('Minus', k(1), k(1))),
            part(k("4'd9"), 3, 2), part(p, 2, 1), ('[]', p, k(2)), ('[:]', w, c, c), part(cat(a, part(w, 3, 2)), 2, 1), part(cat(w, w), 5, 2)]
    out += [cat(k("2'd1"), un('Uminus', k("2'd3"))), cat(c, k("1'b1"), un('Unot', k("2'd1")), d), cat(un('Uminus', k("1'b1")), op('Minus', k("2'd1"), k("2'd2"))), cat(p, c), cat(p, k("2'd2")),
            ('[:]', p, c, c), ('[:]', k("4'd10"), c, c), ('[:]', p, op('Plus', c, k(1)), op('Plus', c, k(1))), ('[]', p, c)]
    like = [part(w, 1, 0), part(w, 2, 1), part(w, 2, 0), part(w, 1, 1), part(r, 3, 2), bit(w, 0), ('[]', w, k(1)), ('[]', w, k(2)), ('[]', w, c), ('[]', w, a), ('[:]', w, c, c), ('[]', r, k(2)),
            cat(c, d), cat(d, c), cat(c, d, e), cat(a, c), br(c, a, b), br(c, b, a), br(d, a, b), br(c, a, w), br(c, w, b), op('And', a, b), op('Or', a, b), op('And', b, a), op('Minus', a, b),
            op('Minus', b, a), un('Uor', a), un('Uand', a), un('Uor', b), a, b]
    for x, y in itertools.product(like, like):
        if like.index(x) < like.index(y):
            out += [op('Eq', x, y), br(e, y, x), op('Or', x, y), op('Or', un('Unot', x), y), cat(br(x, c, d), br(y, d, e))]
    for x in (a, k(1), br(d, a, b), cat(c, d), None):
        for y in (a, b, k(1), br(d, b, a), br(c, a, b), None):
            for z in (c, k(1), k(0), k("2'd2"), op('Eq', a, a), un('Ulnot', c), p):
                out.append(br(z, x, y))
    return out


def lifts(tier):
    """For reorder: branches in every operand position."""
    B1, B2, B3 = br(c, a, b), br(d, b, k("2'd1")), br(c, br(d, a, b), a)
    cond = br(c, d, e)
    out = []
    for o in ('Plus', 'Minus', 'And', 'LessThan', 'Sll', 'Eq', 'Divide', 'Land'):
        for x, y in itertools.product([a, w, B1, B2, B3], repeat=2):
            out.append(op(o, x, y))
    out += [un(o, x) for o in UN for x in (B1, B3, a)]
    for x in itertools.product([a, B1, B2, k("2'd1")], repeat=3):
        out.append(cat(*x))
    out += [cat(B1), cat(B3, B1)]
    for x in (br(c, w, cat(a, b)), w, br(d, br(c, w, cat(b, a)), w)):
        out += [part(x, 2, 1), bit(x, 3), ('[:]', x, a, a), ('[]', x, k(2)), ('[]', x, c)]
    out += [('[]', w, B1), ('[]', br(c, w, cat(a, b)), B2), ('[]', w, B3)]
    for x in (cond, br(c, br(d, e, c), d), un('Ulnot', cond), op('Land', cond, d), op('Eq', B1, b)):
        for y in (a, B2, None):
            for z in (b, B1, None):
                out.append(br(x, y, z))
    out += [op('Plus', op('Times', B1, a), op('Minus', b, B2)), cat(op('And', B1, b), part(br(c, w, cat(a, b)), 1, 0)), part(cat(B1, B2), 2, 1), un('Uminus', op('Plus', B1, k(1))),
            ('delay', a), ('delay', B1), cat(br(c, a, None), b), part(br(c, w, None), 1, 0), ('[]', br(c, w, None), k(1))]
    R = random.Random(19)

    def rnd(n):
        if n == 0 or R.random() < 0.15:
            return R.choice([a, b, w, c, k("2'd2")])
        z = R.random()
        if z < 0.45:
            return br(R.choice([c, d, rnd(n - 1)]), rnd(n - 1), rnd(n - 1))
        if z < 0.75:
            return op(R.choice(['Plus', 'And', 'Xor', 'Eq', 'Minus']), rnd(n - 1), rnd(n - 1))
        if z < 0.9:
            return cat(rnd(n - 1), rnd(n - 1))
        return un(R.choice(['Unot', 'Uor', 'Ulnot']), rnd(n - 1))
    for i in range(120 if tier == 'quick' else 1500):
        out.append(rnd(3))
    return [t for t in out if even(t)]


def even(t, inner=False):
    """Branches below another operation have sides of one width: lifting takes each side at its own width."""
    if not isinstance(t, tuple) or not t or t[0] in ('T', 'K', 'V', 'U', 'H'):
        return True
    if t[0] == '?':
        if inner and (None in t or len(set(Meaning(SIG, CONST).width(x) for x in t[2:])) > 1):
            return False
        return even(t[1], True) and all(even(x, inner) for x in t[2:])
    return all(even(x, True) for x in t[1:])


def unsized(t):
    return isinstance(t, tuple) and (t[0] == 'K' and "'" not in t[1] or any(unsized(x) for x in t[1:]))


def cases(tier):
    """(transformation, tree)"""
    out = []
    seen = set()

    def add(f, ts):
        for t in ts:
            if (f, t) not in seen:
                seen.add((f, t))
                out.append((f, t))
    rest = operators() + structure(tier)
    logic = equalities() + boolean(tier)
    add('optimize', rest + logic)
    wrap = [t for t in operators() + boolean(tier)[::6] + structure(tier)[::4] if not unsized(t)]
    add('optimize', [t for t in [cat(x, d) for x in wrap if x[0] != '?' or None not in x] if not mixed(t)])
    add('optimizeConstant', operators()[::3] + structure(tier)[::5])
    add('optimizeHierarchy', structure(tier)[::2] + logic[::4])
    add('reorder', lifts(tier))
    # defects recorded in known_findings.txt
    add('optimize', [cat(op('Land', a, a), d)])
    add('reorder', [cat(b, br(c, a, d)), un('Unot', br(c, a, d))])
    return out


def transform(S, f, t):
    x = S.T.build(t)
    if f == 'reorder':
        return S.function('dataflow.reorder.reorder', x)
    return S.method(f, x)


def check(ctx):
    repo = ctx.repo
    repo.cls(OPT)
    if 'reorder' not in repo.mod('dataflow.reorder').funcs:
        raise AnalysisBroken('dataflow.reorder.reorder vanished')
    todo = cases(ctx.tier)
    M = Meaning(SIG, CONST)
    sent = set()
    where = {'reorder': repo.mod('dataflow.reorder').funcs['reorder'].where()}
    for f in ('optimize', 'optimizeConstant', 'optimizeHierarchy'):
        where[f] = locate(repo, OPT + '.' + f)
    n = 16
    groups = [todo[i::n * 4] for i in range(n * 4)]

    def one(g):
        return [single(f, t) for f, t in g], sent_list()

    def sent_list():
        return sorted(sent)

    def single(f, t):
        try:
            S = Setup(repo)
            y = transform(S, f, t)
            sent.update(S.E.called)
            z = S.T.read(y)
        except RaiseSig as x:
            return ('bad', 'raises %s' % show(x.exc)[:120])
        except (Undecided, Budget, Opaque) as x:
            return ('unknown', '%s %s' % (type(x).__name__, str(x)[:120]))
        m = differ(M, t, z, is_truth(t) or is_truth(z))
        return ('ok', '') if m is None else ('bad', 'becomes %s: %s' % (D.text(z), m))
    res = pmap(one, groups)
    for g, r in zip(groups, res):
        if r is None:
            ctx.unknown('rewrite', 'group', 'worker ended')
            continue
        ctx.functions.update(r[1])
        for (f, t), (v, m) in zip(g, r[0]):
            key = short('%s %s' % (f, D.text(t)), 130)
            if v == 'ok':
                ctx.ok('rewrite', key)
            elif v == 'unknown':
                ctx.unknown('rewrite', key, m)
            else:
                ctx.bad('rewrite', key, 'a rewritten dataflow tree has another value', where[f], '%s %s' % (D.text(t), m))
    ctx.floor('rewrite', 1500)
