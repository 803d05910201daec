"""Two abstract instances of each dataflow node, signal term, binding, scope label and scope path are
compared by the class's own equality: equal contents must give exactly True, one differing or missing
field, a longer list, another kind or a foreign object exactly False; hashes may depend only on what
equality compares and only on hashable values; a class with its own equality must have its own hash."""
from ..engine import (Engine, FALSE, Info, K, NONE, RaiseSig, St, Sym, TRUE, Budget, mk, show, subterms)
from ..eqhelp import EqCase, ask, class_pairs, run, run_hash, val
from ..repo import AnalysisBroken
from ..spec_df import DF

ASSUMPTIONS = ['Operands are opaque: equality of an operand is the induction hypothesis.']
DMOD = 'dataflow.dataflow'
SMOD = 'utils.scope'

OTHER = {
    'Term': (DMOD, [('name', 's'), ('termtype', 'S'), ('msb', 'n'), ('lsb', 'n'), ('dims', 's')]),
    'Bind': (DMOD, [('tree', 'n'), ('dest', 's'), ('msb', 'n'), ('lsb', 'n'), ('ptr', 'n'), ('alwaysinfo', 's'),
                    ('parameterinfo', 's')]),
    'ScopeLabel': (SMOD, [('scopename', 's'), ('scopeloop', 's')]),
    'ScopeChain': (SMOD, [('scopechain', 'l')]),
}


def builder(R, mod, cname, fields):
    c = R.mod(mod).classes.get(cname)
    if c is None:
        raise AnalysisBroken('class %s vanished' % cname)

    def build(E, st, vals, ln):
        kw = {}
        for n, k in fields:
            v = vals[n]
            if v.k == 'Tup' and v.a[0]:
                v = E.new_list(st, v.a[0])
            if v is NONE and (cname, n) == ('Bind', 'dest'):
                v = Sym('some_dest')        # a binding always has a destination
            kw[n] = v
        return E.instantiate(c, [], kw, st)
    return build


def labels(ctx):
    """Scope labels of different scope types are different, unless one of them is the wildcard type."""
    R = ctx.repo
    c = R.cls(SMOD + '.ScopeLabel')
    types = R.mod(SMOD)
    names = ('module', 'block', 'signal', 'functioncall', 'generate', 'always', 'function', 'task', 'taskcall',
             'initial', 'for', 'while', 'if', 'any')
    f = R.find_method(c, '__eq__')
    for a in names:
        for b in names:
            E = Engine(R)
            st = St()
            n = Sym('n')
            E.info[n] = Info(isstr=True, truth=True)
            try:
                x = E.instantiate(c, [n, K(a), Sym('l')], {}, st)
                y = E.instantiate(c, [n, K(b), Sym('l')], {}, st)
                v = E.snap(ask(E, x, y, st), st)
                hx = E.snap(E.call(E.getattr(x, '__hash__', st), [], {}, st), st)
                hy = E.snap(E.call(E.getattr(y, '__hash__', st), [], {}, st), st)
            except RaiseSig as r:
                ctx.bad('label', '%s-%s' % (a, b), 'a scope label of type %s cannot be built or compared with one of '
                        'type %s: %s' % (a, b, show(r.exc)), c.module.relpath)
                continue
            exp = TRUE if a == b or 'any' in (a, b) else FALSE
            if v is exp:
                ctx.ok('label', '%s/%s' % (a, b))
            elif v.k == 'K':
                ctx.bad('label', '%s-%s' % (a, b), 'labels of type %s and %s with equal names compare %s' % (
                    a, b, show(v)), f.where())
            else:
                ctx.unknown('label', '%s-%s' % (a, b), show(v)[:100])
            if exp is TRUE:
                if hx is hy:
                    ctx.ok('label-hash', '%s/%s' % (a, b))
                else:
                    ctx.bad('label-hash', '%s-%s' % (a, b), 'labels of type %s and %s are equal but hash differently' % (
                        a, b), f.where())


def check(ctx):
    R = ctx.repo
    cases = {}
    for cname, fs in DF.items():
        c = R.cls(DMOD + '.' + cname)
        f = R.find_method(c, '__eq__')
        cases[cname] = EqCase(cname, fs, builder(R, DMOD, cname, fs), f.where() if f else '')
    for cname, (mod, fs) in OTHER.items():
        c = R.cls(mod + '.' + cname)
        f = R.find_method(c, '__eq__')
        fs2 = [(n, 's' if k == 'S' else k) for n, k in fs]
        cases[cname] = EqCase(cname, fs2, builder(R, mod, cname, fs2), f.where() if f else '',
                              required=('dest',))
    for n in cases:
        same = [m for m in cases if m != n and [k for _, k in cases[m].fields] == [k for _, k in cases[n].fields]]
        run(ctx, 'eq', cases[n], [cases[m] for m in same], None)
    for n in cases:
        case = cases[n]
        if n == 'Term':
            b0 = case.build

            def build(E, st, vals, ln, b0=b0):
                vals = dict(vals)
                from ..engine import Rec
                vals['termtype'] = E.new_ref(st, Rec('set', None, (K('Wire'),)))
                return b0(E, st, vals, ln)
            case = EqCase(n, case.fields, build, case.where)
        run_hash(ctx, 'hash', case)
    labels(ctx)
    class_pairs(ctx, 'eq-hash', [R.mod(DMOD), R.mod(SMOD)])
    ctx.floor('eq', 250)
    ctx.floor('hash', 15)
    ctx.floor('label', 150)
