"""Equality / hashing obligations over abstract instances, shared by the syntax-tree and dataflow checks."""
from .engine import (Budget, Engine, FALSE, Info, K, NONE, RaiseSig, St, Sym, TRUE, mk, show, subterms)

IMPRECISE = ('Unk', 'LoopSeq', 'Popped', 'PopRest', 'Insert', 'Fold', 'LastOr', 'Last', 'Global', 'NoName')


def val(E, name, kind, how):
    """how: 'one' (present), 'none', 'two', 'short' (prefix of 'two'), 'long'."""
    def s(n, **kw):
        t = Sym(n)
        E.info[t] = Info(truth=True, **kw)
        return t
    if how == 'none':
        return mk('Tup', ()) if kind == 'l' else NONE
    if kind == 'l':
        n = {'one': 2, 'two': 2, 'short': 1, 'long': 3}[how]
        return mk('Tup', tuple(s('%s#%d' % (name, i)) for i in range(n)))
    if kind == 's':
        return s(name, isstr=True)
    return s(name)


class EqCase(object):
    """One class under test: build(E, st, {field: value}, lineno_symbol) -> Ref."""

    def __init__(self, name, fields, build, where='', slots=(), required=()):
        self.required = required
        self.name = name
        self.fields = fields
        self.build = build
        self.where = where
        self.slots = slots       # optional slots whose occupants could be confused


def ask(E, a, b, st, meth='__eq__'):
    return E.call(E.getattr(a, meth, st), [b], {}, st)


def run(ctx, rule, case, other_cases, same_shape):
    """All obligations of one class."""
    def verdict(tag, fa, fb, expect, msg, assume=(), ln=('la', 'la'), other=None, meth='__eq__', swap=True):
        for order in ((0, 1), (1, 0)) if swap else ((0, 1),):
            E = Engine(ctx.repo)
            st = St()
            try:
                va = dict((n, val(E, n, k, fa.get(n, 'one')) if not isinstance(fa.get(n), tuple)
                           else val(E, *fa[n])) for n, k in case.fields)
                oc = other or case
                vb = dict((n, val(E, n, k, fb.get(n, 'one')) if not isinstance(fb.get(n), tuple)
                           else val(E, *fb[n])) for n, k in oc.fields)
                a = case.build(E, st, va, Sym(ln[0]))
                b = oc.build(E, st, vb, Sym(ln[1]))
                for x, y in assume:
                    p, q = (x, y) if x.n <= y.n else (y, x)
                    st.asm[mk('Eq', p, q)] = False
                pair = (a, b)
                v = ask(E, pair[order[0]], pair[order[1]], st, meth)
                v = E.snap(v, st)
            except RaiseSig as r:
                ctx.bad(rule, '%s.%s' % (case.name, tag), 'comparing two %s nodes (%s) raises %s' % (
                    case.name, msg, show(r.exc)), case.where)
                return
            except Budget:
                ctx.unknown(rule, '%s.%s' % (case.name, tag), 'budget')
                return
            ctx.functions |= E.called
            bad_attr = [t for k, t, w in E.alarms if k in ('attr', 'name')]
            if bad_attr:
                ctx.bad(rule, '%s.%s' % (case.name, tag), 'comparing two %s nodes: %s' % (case.name, bad_attr[0]),
                        case.where)
                return
            if v is expect:
                ctx.ok(rule, '%s %s' % (case.name, msg))
            elif v.k == 'K':
                ctx.bad(rule, '%s.%s' % (case.name, tag), 'two %s nodes (%s) compare %s' % (
                    case.name, msg, 'equal' if (v is TRUE) == (meth == '__eq__') else 'different'), case.where)
                return
            elif any(t.k in IMPRECISE for t in subterms(v)):
                ctx.unknown(rule, '%s.%s' % (case.name, tag), show(v)[:160])
            else:
                ctx.bad(rule, '%s.%s' % (case.name, tag), 'two %s nodes (%s): result depends on %s, expected %s' % (
                    case.name, msg, show(v)[:200], show(expect)), case.where)
                return

    verdict('same', {}, {}, TRUE, 'all fields equal, line numbers differing', ln=('la', 'lb'))
    verdict('same-ne', {}, {}, FALSE, 'inequality of equal nodes', ln=('la', 'lb'), meth='__ne__')
    none = dict((n, 'none') for n, k in case.fields if k in 'nol')
    verdict('same-empty', none, none, TRUE, 'all fields equal, optional ones absent', ln=('la', 'lb'))
    for n, k in case.fields:
        if k == 'l':
            x = dict([(n, ('other_' + n, k, 'one'))])
            verdict(n, {}, x, FALSE, 'an element of %s differs' % n,
                    [(Sym('%s#%d' % (n, i)), Sym('other_%s#%d' % (n, i))) for i in range(2)]
                    + [(mk('Tup', tuple(Sym('%s#%d' % (n, i)) for i in range(2))),
                        mk('Tup', tuple(Sym('other_%s#%d' % (n, i)) for i in range(2))))])
            verdict(n + '.length', {n: 'two'}, {n: 'short'}, FALSE, '%s has an extra last element' % n)
            verdict(n + '.length', {n: 'long'}, {n: 'two'}, FALSE, '%s has an extra last element' % n)
            verdict(n + '.absent', {n: 'two'}, {n: 'none'}, FALSE, '%s empty in one of them' % n)
        else:
            x = dict([(n, ('other_' + n, k, 'one'))])
            verdict(n, {}, x, FALSE, '%s differs' % n, [(Sym(n), Sym('other_' + n))])
            verdict(n + '-ne', {}, x, TRUE, 'inequality when %s differs' % n, [(Sym(n), Sym('other_' + n))],
                    meth='__ne__')
            if k in 'nos?' and n not in case.required:
                verdict(n + '.absent', {}, {n: 'none'}, FALSE, '%s absent in one of them' % n)
    for x, y in case.slots:
        e = dict(none)
        fa, fb = dict(e), dict(e)
        fa[x] = ('occupant', 'o', 'one')
        fb[y] = ('occupant', 'o', 'one')
        verdict('slot.%s-%s' % (x, y), fa, fb, FALSE, 'same sub-tree as %s in one and as %s in the other' % (x, y))
    for o in other_cases:
        if len(o.fields) == len(case.fields):
            m = dict((n2, (n1, k1, 'one')) for (n1, k1), (n2, _) in zip(case.fields, o.fields))
            verdict('kind.' + o.name, {}, m, FALSE, 'the other one being a %s with the same contents' % o.name,
                    other=o)
    # not a node at all
    for w, x in (('None', NONE), ('a string', K('x'))):
        E = Engine(ctx.repo)
        st = St()
        try:
            a = case.build(E, st, dict((n, val(E, n, k, 'one')) for n, k in case.fields), Sym('la'))
            v = ask(E, a, x, st)
            if v is FALSE:
                ctx.ok(rule, '%s vs %s' % (case.name, w))
            elif v is TRUE:
                ctx.bad(rule, '%s.foreign' % case.name, '%s compares equal to %s' % (case.name, w), case.where)
            else:
                ctx.unknown(rule, '%s.foreign' % case.name, show(v)[:100])
        except RaiseSig as r:
            ctx.bad(rule, '%s.foreign' % case.name, 'comparing %s with %s raises %s' % (case.name, w, show(r.exc)),
                    case.where)
        except Budget:
            ctx.unknown(rule, case.name + '.foreign', 'budget')


def run_hash(ctx, rule, case, unhashable=()):
    c_hash = []
    for ln in ('la', 'lb'):
        E = Engine(ctx.repo)
        st = St()
        try:
            a = case.build(E, st, dict((n, val(E, n, k, 'one')) for n, k in case.fields), Sym(ln))
            f = E.getattr(a, '__hash__', st)
            v = E.call(f, [], {}, st)
            v = E.snap(v, st)
        except RaiseSig as r:
            ctx.bad(rule, case.name, 'hashing a %s raises %s' % (case.name, show(r.exc)), case.where)
            return
        except Budget:
            ctx.unknown(rule, case.name, 'budget')
            return
        ctx.functions |= E.called
        al = [t for k, t, w in E.alarms if k in ('attr', 'name')]
        if al:
            ctx.bad(rule, case.name, 'hashing a %s: %s' % (case.name, al[0]), case.where)
            return
        c_hash.append(v)
    v = c_hash[0]
    def is_fun(t, n):
        return t.k == 'Fun' and t.a[0] == n or t.k == 'Call' and t.a[0].k == 'Bi' and t.a[0].a[0] == n

    bad = []
    for t in subterms(v):
        if is_fun(t, 'hash'):
            for y in t.a[1]:
                for x in ((y,) if y.k != 'Tup' else (y,) + y.a[0]):
                    if x.k in ('List', 'Set', 'Dict'):
                        bad.append(t)
    if bad:
        ctx.bad(rule, case.name, 'hashing a %s fails: %s holds an unhashable container' % (
            case.name, show(bad[0])[:160]), case.where)
        return
    if c_hash[0] is not c_hash[1]:
        ctx.bad(rule, case.name, 'equal %s nodes on different lines hash differently' % case.name, case.where)
        return
    if any(is_fun(t, 'id') for t in subterms(v)):
        ctx.bad(rule, case.name, 'the hash of a %s depends on object identity while equality does not' % case.name,
                case.where)
        return
    ctx.ok(rule, '%s -> %s' % (case.name, show(v)[:120]))


def class_pairs(ctx, rule, modules):
    """A class with its own equality has its own hash (Python 3 drops the inherited one)."""
    for m in modules:
        for c in m.classes.values():
            if '__eq__' in c.methods:
                if '__hash__' in c.methods or '__hash__' in getattr(c, 'attrs', {}):
                    ctx.ok(rule, c.qual)
                else:
                    ctx.bad(rule, c.name, '%s defines equality but no hash: its instances are unhashable' % c.name,
                            m.relpath)
