"""Value-graph analysis of every syntax-tree class: the list of sub-trees a node reports, computed
from the source for every presence/absence combination of its fields (each alone absent, each alone
present, all, none), must hold exactly the sub-tree fields; the textual dump and the generic
visitors must recurse into every one of them in order."""
from ..asthelp import AMOD, make
from ..engine import Engine, Info, K, NONE, RaiseSig, St, Sym, Budget, contains, mk, show, subterms
from ..spec_ast import AST
from ..repo import AnalysisBroken, Class

ASSUMPTIONS = ['The node vocabulary and the kind of each field (sub-tree, list of sub-trees, text) is the table in '
               'vstat/spec_ast.py.']

IMPRECISE = ('Unk', 'LoopSeq', 'Popped', 'PopRest', 'Insert', 'Fold', 'LastOr', 'Last', 'Global', 'NoName')


def imprecise(v):
    return any(t.k in IMPRECISE for t in subterms(v))


def scenarios(cname, thorough=False):
    fs = [n for n, k in AST[cname] if k in 'nol']
    opt = fs
    out = [dict((f, True) for f in fs), dict((f, False) for f in fs)]
    for f in opt:
        d = dict((g, True) for g in fs)
        d[f] = False
        out.append(d)
        d = dict((g, False) for g in fs)
        d[f] = True
        out.append(d)
    if thorough:
        import itertools
        out = [dict(zip(fs, b)) for b in itertools.product((True, False), repeat=len(fs))]
    seen, res = set(), []
    for d in out:
        k = tuple(sorted(d.items()))
        if k not in seen:
            seen.add(k)
            res.append(d)
    return res


def expected_children(cname, sc):
    out = []
    for n, k in AST[cname]:
        if k in 'no' and sc.get(n):
            out.append(Sym(n))
        elif k == 'l' and sc.get(n):
            out.append(mk('Spread', Sym(n)))
    return out


def check_children(ctx):
    R = ctx.repo
    m = R.mod(AMOD)
    for cname in AST:
        c = m.classes.get(cname)
        if c is None:
            ctx.bad('children', cname, 'syntax-tree class %s no longer exists' % cname, m.relpath)
            continue
        for sc in scenarios(cname, ctx.tier == 'thorough'):
            E = Engine(R)
            st = St()
            lab = ','.join(sorted(f for f in sc if sc[f])) or 'none'
            try:
                ref, _ = make(E, st, cname, sc)
                v = E.call(E.getattr(ref, 'children', st), [], {}, st)
                v = E.snap(v, st)
            except RaiseSig as r:
                ctx.bad('children', cname, 'listing the sub-trees of %s raises %s when present={%s}' % (
                    cname, show(r.exc), lab), f_where(R, c, 'children'))
                continue
            except Budget:
                ctx.unknown('children', cname, 'budget')
                continue
            ctx.functions |= E.called
            items = E.as_items(v, st)
            exp = expected_children(cname, sc)
            if sorted(x.n for x in items) == sorted(x.n for x in exp):
                ctx.ok('children', '%s present={%s} -> %s' % (cname, lab, show(v)))
            elif imprecise(v) or v.k not in ('Tup', 'List'):
                ctx.unknown('children', cname, show(v)[:120])
            else:
                miss = [show(x) for x in exp if x not in items]
                extra = [show(x) for x in items if x not in exp]
                ctx.bad('children', cname, '%s with present={%s} lists sub-trees %s: missing %s, unexpected %s' % (
                    cname, lab, show(v), miss, extra), f_where(R, c, 'children'))


def f_where(R, c, name):
    f = R.find_method(c, name)
    return f.where() if f else c.module.relpath


def flat(evs, out=None, guards=()):
    """Events with their guards: (guards, loop sources, event)."""
    if out is None:
        out = []
    for e in evs:
        if e.k == 'Opt':
            flat(e.a[1], out, guards + (('if', e.a[0]),))
            flat(e.a[2], out, guards + (('ifnot', e.a[0]),))
        elif e.k == 'Star':
            flat(e.a[1], out, guards + (('for', e.a[0]),))
        else:
            out.append((guards, e))
    return out


def recursion_targets(evs, pred):
    """Ordered receivers/arguments of the recursive calls, Spread for those made once per list element."""
    out = []
    for g, e in flat(evs):
        if e.a[0] != 'call':
            continue
        x = pred(e.a[1])
        if x is None:
            continue
        conds = [a for a in g if a[0] != 'for']
        loops = [a[1] for a in g if a[0] == 'for']
        out.append((x, loops, conds))
    return out


def seq_of(targets):
    """Turn recursion targets into a comparable item sequence; None when conditional."""
    out = []
    for x, loops, conds in targets:
        if conds:
            out.append(('cond', x))
            continue
        if not loops:
            out.append(('one', x))
        else:
            src = loops[-1]
            if x.k == 'Elem' and x.a[0] is src:
                out.append(('each', src))
            else:
                out.append(('loop', x))
    return out


def check_show(ctx):
    R = ctx.repo
    for cname in AST:
        full = dict((n, True) for n, k in AST[cname])
        E = Engine(R)
        st = St()
        try:
            ref, vals = make(E, st, cname, full)
            buf = Sym('buf')
            st.ev = ()
            E.call(E.getattr(ref, 'show', st), [buf], {'offset': Sym('offset')}, st)
        except RaiseSig as r:
            ctx.bad('dump', cname, 'dumping a %s node raises %s' % (cname, show(r.exc)), '')
            continue
        except Budget:
            ctx.unknown('dump', cname, 'budget')
            continue
        ctx.functions |= E.called
        for kind, txt, w in E.alarms:
            if kind in ('attr', 'name'):
                ctx.bad('dump-attr', cname, 'dumping a %s node: %s' % (cname, txt), 'line %s' % w)
        tg = recursion_targets(st.ev, lambda c: c.a[0].a[0] if c.a[0].k == 'Attr' and c.a[0].a[1] == 'show' else None)
        got = seq_of(tg)
        exp = []
        for n, k in AST[cname]:
            if k in 'no':
                exp.append(('one', Sym(n)))
            elif k == 'l':
                exp.append(('each', Sym(n)))
        key = lambda q: sorted((a, b.n) for a, b in q)
        written = [e for g, e in flat(st.ev) if e.a[0] == 'call' and e.a[1].a[0].k == 'Attr'
                   and e.a[1].a[0].a[1] == 'write']
        if key(got) == key(exp):
            ctx.ok('dump', '%s recurses into %s' % (cname, ' '.join(show(x) for _, x in got)))
        elif any(a in ('loop',) for a, _ in got):
            ctx.unknown('dump', cname, 'recursion not understood')
        else:
            ctx.bad('dump', cname, 'the dump of a %s node recurses into [%s], expected [%s]' % (
                cname, ', '.join(a + ' ' + show(b) for a, b in got), ', '.join(a + ' ' + show(b) for a, b in exp)),
                R.func(AMOD + '.Node.show').where())
        # the class name and every text attribute are printed
        text = [t for e in written for t in subterms(e)]
        if not any(t.k == 'K' and t.a[0] == 'str' and cname in t.a[1] for t in text):
            ctx.bad('dump-text', cname + '.class', 'the dump of a %s node does not print the node kind' % cname, '')
        for n, k in AST[cname]:
            if k == 's':
                if not any(t is Sym(n) for t in text):
                    ctx.bad('dump-text', '%s.%s' % (cname, n),
                            'the dump of a %s node does not print its %s' % (cname, n),
                            f_where(R, R.cls(AMOD + '.' + cname), 'show'))
                else:
                    ctx.ok('dump-text', '%s.%s' % (cname, n))
        if not any(t is Sym('lineno') for t in text):
            ctx.bad('dump-text', cname + '.lineno', 'the dump of a %s node does not print its line number' % cname, '')


VISITORS = ('dataflow.visit.NodeVisitor', 'ast_code_generator.codegen.ConvertVisitor',
            'utils.identifiervisitor.IdentifierVisitor')


def check_generic(ctx):
    """Generic visitors recurse into every child; a node without its own handler is not swallowed."""
    R = ctx.repo
    for vq in VISITORS:
        vc = R.cls(vq)
        for cname in AST:
            if R.find_method(vc, 'visit_' + cname) is not None:
                continue
            E = Engine(R)
            st = St()
            full = dict((n, True) for n, k in AST[cname])
            vref = E.new_inst(st, vc, open_=Sym('visitor'))
            try:
                ref, _ = make(E, st, cname, full)
                st.ev = ()
                E.call(E.getattr(vref, 'visit', st), [ref], {}, st)
            except (RaiseSig, Budget):
                ctx.unknown('visit-all', vc.name + '.' + cname, 'raises')
                continue
            ctx.functions |= E.called

            def pred(c):
                if c.a[0].k == 'FnName' and c.a[0].a[0].endswith('.visit') and len(c.a[1]) >= 2:
                    return c.a[1][1]
                return None
            got = seq_of(recursion_targets(st.ev, pred))
            exp = []
            for n, k in AST[cname]:
                if k in 'no':
                    exp.append(('one', Sym(n)))
                elif k == 'l':
                    exp.append(('each', Sym(n)))
            key = lambda q: sorted((a, b.n) for a, b in q)
            if key(got) == key(exp):
                ctx.ok('visit-all', '%s on %s' % (vc.name, cname))
            elif any(a == 'loop' for a, _ in got):
                ctx.unknown('visit-all', vc.name + '.' + cname, 'recursion not understood')
            else:
                ctx.bad('visit-all', vc.name + '.' + cname,
                        '%s without a handler for %s visits [%s], expected [%s]' % (
                            vc.name, cname, ', '.join(a + ' ' + show(b) for a, b in got),
                            ', '.join(a + ' ' + show(b) for a, b in exp)), R.find_method(vc, 'visit').where())


def check(ctx):
    check_children(ctx)
    check_show(ctx)
    check_generic(ctx)
    ctx.floor('children', 300)
    ctx.floor('dump', 100)
    ctx.floor('visit-all', 100)
