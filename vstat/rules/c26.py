"""The graph generator is interpreted from source with the drawing library replaced by a recorder.  On trees of every node kind
in every operand position the recorded graph, followed from the root, must be the tree: one node per tree node with its label,
one edge per operand with its role, terminals shared by name or, on request, drawn once per use.  On program shapes the graph of
a signal must be the graph of its dataflow tree, traced or not, reordered or not, as the analysis functions themselves give it; it is drawn to the file that was asked for."""
from ..dfrun import Failed, Pipeline, Undecided, hook
from ..dfshape import Opaque
from ..dftree import Tree
from .. import dftree as D
from ..engine import Budget, FALSE, K, NONE, RaiseSig, Rec, St, TRUE, isK, kv, mk, show
from ..par import pmap
from ..repo import AnalysisBroken
from ..shapes import Shape, locate, run_all
from . import c18
from .c17 import a, b, c, e, engine, op, un
from .c19 import resolved
from .c20 import Table

ASSUMPTIONS = ['The drawing library keeps the nodes and edges it is given, under their names.']
GG = 'dataflow.graphgen.VerilogGraphGenerator'
ROLES = {'[:]': ('VAR', 'MSB', 'LSB'), '[]': ('VAR', 'PTR'), '?': ('COND', 'TRUE', 'FALSE')}


class Recorder(object):
    def __init__(self, E, identical=False):
        self.nodes, self.edges, self.bad = {}, [], None
        base = hook(None)

        def raw(E2, target, args, kwargs, st):
            n = target.a[0] if target.k == 'Ext' else None
            if n == 'pygraphviz.AGraph':
                return mk('Ext', 'the_graph')
            if n is not None and n.startswith('the_graph.'):
                vs = [E2.simp(x, st) for x in args]
                kw = {k: E2.simp(v, st) for k, v in kwargs.items()}
                if not all(isK(x) for x in vs) or not all(isK(x) for x in kw.values()):
                    raise Undecided('a name that is not known: %s' % [show(x, 3) for x in vs])
                vs, kw = [kv(x) for x in vs], {k: kv(x) for k, x in kw.items()}
                if n == 'the_graph.add_node':
                    if kw.get('color', 'black') != 'black':
                        self.bad = 'node %s has the colour %s without colours' % (vs[0], kw['color'])
                    lab = kw.get('label', vs[0])
                    if self.nodes.setdefault(vs[0], lab) != lab:
                        self.bad = 'two nodes are both called %s' % vs[0]
                    return NONE
                if n == 'the_graph.add_edge':
                    self.edges.append((vs[0], vs[1], kw.get('label')))
                    return NONE
                raise Undecided(n)
            return base(E2, target, args, kwargs, st)
        E.on_raw = raw

    def unfold(self, name, seen=()):
        if name in seen or len(seen) > 60:
            return ('cycle', name)
        out = sorted([(l or '', self.unfold(t, seen + (name,))) for s, t, l in self.edges if s == name], key=repr)
        return (self.nodes.get(name, '(no node %s)' % name), tuple(out))


def wanted(T, call, t):
    """Label and sorted (role, subtree) of a tree."""
    v = T.E.simp(call(T.build(t), 'tolabel'), T.st)
    if not isK(v):
        raise Undecided('label %s' % show(v, 3))
    kids = []
    if t[0] in ('op', 'sys', 'cat', 'delay', '[:]', '[]', '?'):
        xs = t[2 if t[0] in ('op', 'sys') else 1:]
        roles = ROLES.get(t[0], ('',) * len(xs))
        kids = [(r, wanted(T, call, x)) for r, x in zip(roles, xs) if x is not None]
    return (kv(v), tuple(sorted(kids, key=repr)))


def text(g):
    return g[0] + ('' if not g[1] else '(%s)' % ', '.join((r + ':' if r else '') + (text(x) if isinstance(x, tuple) else str(x)) for r, x in g[1]))


def generator(E, st, five, call):
    return E.call(E.cls_term(E.repo.cls(GG)), list(five) + [K('out.png')], {}, st)


def one(repo, t, identical):
    E = engine(repo)
    G = Recorder(E)
    st = St()
    T = Tree(E, st)
    call = lambda o, m, *x, **kw: E.call(E.getattr(o, m, st), list(x), kw, st)
    d0 = lambda: E.new_ref(st, Rec('dict', None, {}))
    try:
        g = generator(E, st, [K('TOP'), d0(), d0(), d0(), d0(), d0()], call)
        E.setattr(g, 'identical', K(identical), st)
        call(g, 'visit', T.build(t), K('root'))
    except RaiseSig as x:
        return 'drawing %s raises %s' % (D.text(t), show(x.exc, 3)), E.called
    want = wanted(T, call, t)
    if G.bad:
        return '%s: %s' % (D.text(t), G.bad), E.called
    have = G.unfold('root')[1]
    if have != (('', want),):
        return '%s is drawn as %s instead of %s' % (D.text(t), ', '.join(text(x) if isinstance(x, tuple) else str(x) for _, x in have), text(want)), E.called
    if identical:
        ts = [s for s in G.edges]
        if len({x[1] for x in ts}) != len(ts):
            return '%s: a leaf is shared although every use was to be drawn' % D.text(t), E.called
    return None, E.called


def trees(deep):
    out = []
    ks, cs = c18.kinds(), c18.contexts()
    for n, t in ks:
        for m, f in cs:
            out.append(('%s %s' % (n, m), f(t)))
    out += [('same operand twice', op('Plus', op('Plus', a, b), op('Plus', a, b))), ('terminal in two places', op('Land', un('Ulnot', a), a))]
    if deep:
        for n, t in ks:
            for m, f in cs:
                for q, g in cs:
                    out.append(('%s %s %s' % (n, m, q), g(f(t))))
    return out


def T_keys(run):
    T = Table(run, run.terms, run.binddict)
    return [(n, k) for n, k in T.keys if T.binds.get(n)]


def drawn(name, walk, step, reorder, twice=False):
    def j(run):
        E, st = run.E, run.st
        consts, rterms, rbinds = resolved(run)
        G = Recorder(E)
        call = lambda o, m, *x, **kw: E.call(E.getattr(o, m, st), list(x), kw, st)
        five = [K('TOP'), run.terms, run.binddict, rterms, rbinds, consts]
        fn = lambda m, f: E.fn(E.repo.mod(m).funcs[f])
        T = Tree(E, st)
        R = Full(E, st)
        sig = 'TOP.' + name
        try:
            W = E.call(E.cls_term(E.repo.cls('dataflow.walker.VerilogDataflowWalker')), list(five), {}, st)
            tn = E.call(fn('utils.util', 'toTermname'), [K(sig)], {}, st)
            none = E.simp(call(W, 'getTree', tn), st) is NONE
            g = generator(E, st, five, call)

            def tree_of(s):
                W = E.call(E.cls_term(E.repo.cls('dataflow.walker.VerilogDataflowWalker')), list(five), {}, st)
                O = E.call(E.cls_term(E.repo.cls('dataflow.optimizer.VerilogOptimizer')), [run.terms, consts], {}, st)
                tn = E.call(fn('utils.util', 'toTermname'), [K(s)], {}, st)
                t = call(W, 'getTree', tn)
                if walk:
                    t = call(W, 'walkTree', t, visited=E.new_ref(st, Rec('set', None, ())), step=K(step))
                    if reorder:
                        t = E.call(fn('dataflow.reorder', 'reorder'), [t], {}, st)
                t = call(O, 'optimize', t)
                if reorder:
                    t = E.call(fn('dataflow.reorder', 'reorder'), [t], {}, st)
                t = E.call(fn('dataflow.replace', 'replaceUndefined'), [t, tn], {}, st)
                return want_ref(E, st, t)
            if none:
                try:
                    call(g, 'generate', K(sig), walk=K(walk), step=K(step), do_reorder=K(reorder))
                except RaiseSig as x:
                    if 'verror.DefinitionError' in show(x.exc, 3):
                        return None
                    raise
                return 'a signal without a tree is drawn'
            others = [n for n in sorted(set(n for n, _ in T_keys(run))) if n != sig]
            order = [sig] + others[:1] + [sig] if twice else [sig]
            wants = []
            for s in order:
                try:
                    wants.append((s, tree_of(s)))
                except RaiseSig:
                    if s == sig:
                        raise
                    continue
                call(g, 'generate', K(s), walk=K(walk), step=K(step), do_reorder=K(reorder))
        except RaiseSig as x:
            raise Failed(x.exc)
        run.funcs |= set(E.called)
        if G.bad:
            return G.bad
        if not G.edges:
            return 'nothing is drawn for %s' % sig
        roots = sorted(set(s for s, _, _ in G.edges) - set(x for _, x, _ in G.edges))
        have = sorted((G.nodes.get(x), G.unfold(x)[1]) for x in roots)
        want = sorted((s, (('', w),)) for s, w in wants)
        if [n for n, _ in have] != [n for n, _ in want]:
            return 'the graph of %s starts at %s' % (' and '.join(s for s, _ in wants), [n for n, _ in have])
        for (n, x), (_, y) in zip(have, want):
            if x != y:
                return 'the graph of %s is %s instead of %s' % (n, ', '.join(text(z) for _, z in x), text(y[0][1]))
        return None
    return j


FIELDS = {'DFPartselect': (('var', 'VAR'), ('msb', 'MSB'), ('lsb', 'LSB')), 'DFPointer': (('var', 'VAR'), ('ptr', 'PTR')),
          'DFBranch': (('condnode', 'COND'), ('truenode', 'TRUE'), ('falsenode', 'FALSE')), 'DFDelay': (('nextnode', ''),)}


def want_ref(E, st, v):
    v = E.simp(v, st)
    r = st.heap[v.a[0]] if v.k == 'Ref' else None
    if r is None or r.kind != 'inst':
        raise Undecided('a tree that is not closed: %s' % show(v, 3))
    lab = E.simp(E.call(E.getattr(v, 'tolabel', st), [], {}, st), st)
    if not isK(lab):
        raise Undecided('label %s' % show(lab, 3))
    kids = []
    if r.cls.name in FIELDS:
        xs = [(role, r.data[f]) for f, role in FIELDS[r.cls.name]]
    elif 'nextnodes' in r.data:
        xs = [('', x) for x in E.as_items(r.data['nextnodes'], st)]
    else:
        xs = []
    for role, x in xs:
        if E.simp(x, st) is not NONE:
            kids.append((role, want_ref(E, st, x)))
    return (kv(lab), tuple(sorted(kids, key=repr)))


class Full(object):
    def __init__(self, E, st):
        pass


def check(ctx):
    R = ctx.repo
    deep = ctx.tier == 'thorough'
    w = locate(R, GG + '.visit', GG + '.generate')
    if R.mod('dataflow.graphgen').classes.get('VerilogGraphGenerator') is None:
        raise AnalysisBroken('VerilogGraphGenerator no longer exists')
    jobs = [(n, t, i) for n, t in trees(deep) for i in ((False, True))]

    def run(j):
        n, t, i = j
        try:
            m, fs = one(R, t, i)
            return ('ok' if m is None else 'bad', m, sorted(fs))
        except (Undecided, Budget, Opaque) as x:
            return ('unknown', '%s %s' % (type(x).__name__, str(x)[:160]), [])
        except RecursionError:
            return ('unknown', 'recursion', [])
    for (n, t, i), (v, m, fs) in zip(jobs, pmap(run, jobs)):
        rule = 'each use' if i else 'shared'
        ctx.functions |= set(fs)
        if v == 'ok':
            ctx.ok(rule, n)
        elif v == 'unknown':
            ctx.unknown(rule, n, m)
        else:
            ctx.bad(rule, n, m, w)
    for given in (None, 'other.dot', 'dir/graph.pdf'):
        from .c27 import Drawing
        E = engine(R)
        G = Drawing(E)
        st = St()
        d0 = lambda: E.new_ref(st, Rec('dict', None, {}))
        try:
            g = generator(E, st, [K('TOP'), d0(), d0(), d0(), d0(), d0()], None)
            E.call(E.getattr(g, 'draw', st), [] if given is None else [K(given)], {}, st)
            want = [given or 'out.png']
            ctx.functions |= set(E.called)
            if G.files == want:
                ctx.ok('file', 'drawn to %s' % want[0])
            else:
                ctx.bad('file', str(given), 'the graph is drawn to %s instead of %s' % (G.files, want[0]), locate(R, GG + '.draw'))
        except RaiseSig as x:
            ctx.bad('file', str(given), 'drawing raises %s' % show(x.exc, 3), locate(R, GG + '.draw'))
        except (Undecided, Budget, Opaque) as x:
            ctx.unknown('file', str(given), str(x)[:160])
    out = []
    for n, t, q in c18.programs():
        for name, step in q if deep else q[:2]:
            for walk, reorder in ((True, False), (False, False), (True, True), (False, True)) if deep else ((True, False), (False, True)):
                key = '%s %s%s%s%s' % (n, name, ' step %d' % step if step else '', '' if walk else ' own tree', ' reordered' if reorder else '')
                out.append(Shape('signal', key, t, drawn(name, walk, step, reorder, deep or not reorder), w, 'the graph is not the tree of the signal'))
    run_all(ctx, Pipeline(R), out)
    ctx.floor('shared', 200)
    ctx.floor('each use', 200)
    ctx.floor('signal', 40)
