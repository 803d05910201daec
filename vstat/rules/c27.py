"""State machines, built transition by transition and found in program shapes, are printed and drawn by the interpreted source
functions.  The printed lines must be the transitions, one line each with source, condition and destination; the drawn graph, recorded
in place of the drawing library, must have the states as nodes and the transitions as edges, those from any state leaving every state,
with the condition or, on request, no label, and be drawn to the named file.  Neither may change the machine."""
from ..dfrun import Failed, Pipeline, Undecided, hook
from ..dfshape import Opaque, chain, entries, py
from ..dftree import Tree
from .. import dftree as D
from ..engine import Budget, K, NONE, RaiseSig, St, isK, kv, mk, show
from ..par import pmap
from ..repo import AnalysisBroken
from ..shapes import Shape, locate, run_all
from . import c21
from .c21 import a, b, c
from .c17 import op, un
from .c20 import Full

ASSUMPTIONS = ['The drawing library keeps the nodes and edges it is given.', 'Printed text is the text handed to print or the standard output.']
FSM = 'controlflow.controlflow_analyzer.FiniteStateMachine'


class Drawing(object):
    """Stands for the drawing library."""

    def __init__(self, E):
        self.nodes, self.edges, self.files, self.made, self.wrong = {}, [], [], 0, None
        base = hook(None)

        def raw(E2, target, args, kwargs, st):
            n = target.a[0] if target.k == 'Ext' else None
            if n == 'pygraphviz.AGraph':
                self.made += 1
                if not isK(E2.simp(kwargs.get('directed', K(False)), st), True):
                    self.wrong = 'the graph has no directions'
                return mk('Ext', 'the_graph')
            if n is None or not n.startswith('the_graph.'):
                return base(E2, target, args, kwargs, st)
            vs = [E2.simp(x, st) for x in args]
            kw = {k: E2.simp(v, st) for k, v in kwargs.items()}
            if not all(isK(x) for x in vs) or not all(isK(x) for x in kw.values()):
                raise Undecided('%s of something not known: %s' % (n, [show(x, 3) for x in vs]))
            vs, kw = [kv(x) for x in vs], {k: kv(x) for k, x in kw.items()}
            m = n[len('the_graph.'):]
            if m == 'add_node':
                lab = kw.get('label', vs[0])
                if self.nodes.setdefault(str(vs[0]), str(lab)) != str(lab):
                    self.wrong = 'the state %s is labelled %s' % (vs[0], lab)
            elif m == 'add_edge':
                for x in vs[:2]:
                    self.nodes.setdefault(str(x), str(x))
                self.edges.append((str(vs[0]), str(vs[1]), kw.get('label', '')))
            elif m == 'draw':
                self.files.append(vs[0] if vs else kw.get('path'))
            elif m not in ('write', 'layout'):
                raise Undecided(n)
            return NONE
        E.on_raw = raw


def lines(E, st, since):
    """What has been printed since."""
    out = []
    for e in st.ev[since:]:
        if e.k == 'Ev' and e.a[0] == 'print':
            if not all(isK(x) for x in e.a[1]):
                raise Undecided('printed: %s' % show(e, 4))
            out.append(' '.join(str(kv(x)) for x in e.a[1]))
        elif e.k in ('Gam', 'If', 'Loop', 'Rep'):
            raise Undecided('printing under a condition')
    return [l for x in out for l in x.split('\n') if l.strip()]


def conds(E, st, F):
    """[(source or None, condition reference, destination)]"""
    out = []
    for kk, x in entries(E, E.getattr(F, 'fsm', st), st):
        for q, y in entries(E, x, st):
            out.append((py(E.snap(E.thaw(kk, st), st)), E.thaw(q, st), py(E.snap(y, st))))
    for q, y in entries(E, E.getattr(F, 'any', st), st):
        out.append((None, E.thaw(q, st), py(E.snap(y, st))))
    return out


def texts(E, st, r):
    """(the code of a condition, its other accepted texts)"""
    if E.simp(r, st) is NONE:
        return 'None', ('None', '')
    code = E.simp(E.call(E.getattr(r, 'tocode', st), [], {}, st), st)
    rep = E.simp(E.call(mk('Bi', 'str'), [r], {}, st), st)
    if not isK(code):
        raise Undecided('the code of a condition: %s' % show(code, 3))
    return kv(code), (kv(code),) + ((kv(rep),) if isK(rep) else ())


def presented(E, st, F, G, read, nolabel=False, filename='machine.png'):
    """Prints and draws one machine; None or what differs."""
    call = lambda m, *x, **kw: E.call(E.getattr(F, m, st), list(x), kw, st)
    before = read()
    ts = conds(E, st, F)
    want = sorted('%s -- %s --> %s' % ('any' if s is None else s, texts(E, st, r)[0], d) for s, r, d in ts)
    n = len(st.ev)
    call('view')
    flat = lambda l: l.replace(' ', '')
    have = lines(E, st, n)
    if sorted(map(flat, have)) != sorted(map(flat, want)):
        return 'the printed machine is %s instead of %s' % (' / '.join(sorted(have)), ' / '.join(want))
    G.nodes, G.edges, G.files, G.wrong = {}, [], [], None
    call('tograph', filename=K(filename), nolabel=K(nolabel))
    if G.wrong:
        return G.wrong
    srcs = sorted(set(s for s, _, _ in ts if s is not None) | set(before[0]))
    edges = []
    for s, r, d in ts:
        for x in (srcs if s is None else [s]):
            edges.append((str(x), str(d), ('',) if nolabel else texts(E, st, r)[1]))
    left = list(G.edges)
    for s, d, ls in edges:
        hit = [e for e in left if e[:2] == (s, d) and e[2] in ls]
        if not hit:
            return 'the transition %s -- %s --> %s is not drawn%s' % (s, ls[0], d, '' if not left else ' (but %s)' % ', '.join('%s -- %s --> %s' % (x, z, y) for x, y, z in left[:3]))
        left.remove(hit[0])
    if left:
        return 'the edge %s -- %s --> %s is drawn, which is no transition' % (left[0][0], left[0][2], left[0][1])
    states = set(str(x) for x in srcs) | set(d for _, d, _ in edges)
    if set(G.nodes) != states:
        return 'the states drawn are %s instead of %s' % (sorted(G.nodes), sorted(states))
    for x, l in G.nodes.items():
        if x != l:
            return 'the state %s is labelled %s' % (x, l)
    if G.files != [filename]:
        return 'it is drawn to %s instead of %s' % (G.files, filename)
    if read() != before:
        return 'printing or drawing changes the machine'
    return None


def extra():
    x, y = op('Eq', a, c21.v(1)), b
    return [('self loop', [((1, 1), 1, x), ((1, 1), 2, un('Ulnot', x))], []), ('ring', [((0, 0), 1, None), ((1, 1), 2, y), ((2, 2), 0, None)], []),
            ('wide range', [((3, 7), 9, y)], []), ('destination without source', [((0, 0), 12, x)], []), ('same pair twice', [((1, 1), 2, y), ((1, 1), 2, c)], []),
            ('any beside', [((1, 1), 2, x), ((2, 2), 1, None)], [(2, y), (0, c)]), ('any without a condition', [((1, 1), 2, x)], [(0, None)]),
            ('two sources', [((0, 0), 5, x), ((4, 4), 5, x), ((5, 5), 0, un('Ulnot', x))], [])]


def one(repo, m, resolve, nolabel):
    from .c17 import Setup
    name, trans, anys = m
    S = Setup(repo, c21.SIG, {})
    E, st, T = S.E, S.st, S.T
    G = Drawing(E)
    F = E.call(E.cls_term(repo.cls(FSM)), [K('TOP.s')], {}, st)
    node = lambda rs, t, an: E.call(E.cls_term(repo.cls(c21.TR + '.StateNode')), [], {
        'range_pairs': mk('Tup', tuple(mk('Tup', (K(x), K(y))) for x, y in rs)), 'transcond': NONE if t is None else T.build(t), 'maxvalue': K(3), 'isany': K(an)}, st)
    call = lambda m, *x: E.call(E.getattr(F, m, st), list(x), {}, st)
    try:
        for rs, d, t in trans:
            call('construct', K(d), node([rs], t, False))
        for d, t in anys:
            call('construct', K(d), node([], t, True))
        if resolve:
            call('resolve', S.O)
        m = presented(E, st, F, G, lambda: c21.read_fsm(E, st, T, F), nolabel, 'out/%s.png' % name.replace(' ', '_'))
    except RaiseSig as x:
        return 'it raises %s' % show(x.exc, 3), set(E.called)
    return m, set(E.called)


def judge(run):
    E, st = run.E, run.st
    from .c19 import resolved
    consts, rterms, rbinds = resolved(run)
    G = Drawing(E)
    R = Full(E, st)
    try:
        W = E.call(E.cls_term(E.repo.cls('controlflow.controlflow_analyzer.VerilogControlflowAnalyzer')),
                   [K('TOP'), run.terms, run.binddict, rterms, rbinds, consts], {}, st)
        ms = E.call(E.getattr(W, 'getFiniteStateMachines', st), [], {}, st)
        for kk, x in entries(E, ms, st):
            x = E.thaw(x, st)
            m = presented(E, st, x, G, lambda: c21.read_fsm(E, st, R, x))
            if m:
                return 'machine %s: %s' % (chain(kk), m)
    except RaiseSig as x:
        raise Failed(x.exc)
    run.funcs |= set(E.called)
    return None


def check(ctx):
    R = ctx.repo
    deep = ctx.tier == 'thorough'
    cl = R.cls(FSM)
    if R.find_method(cl, 'view') is None or R.find_method(cl, 'tograph') is None:
        raise AnalysisBroken('a state machine can no longer be printed or drawn')
    jobs = [(m, r, n) for m in c21.machines() + extra() for r in (False, True) for n in (False, True)]

    def go(j):
        try:
            m, fs = one(R, *j)
            return ('ok' if m is None else 'bad', m, sorted(fs))
        except (Undecided, Budget, Opaque) as x:
            return ('unknown', '%s %s' % (type(x).__name__, str(x)[:200]), [])
        except RecursionError:
            return ('unknown', 'recursion', [])
    w = locate(R, FSM + '.tograph', FSM + '.view')
    for (m, r, n), (v, x, fs) in zip(jobs, pmap(go, jobs)):
        key = '%s%s%s' % (m[0], ' resolved' if r else '', ' without labels' if n else '')
        ctx.functions |= set(fs)
        if v == 'ok':
            ctx.ok('machine', key)
        elif v == 'unknown':
            ctx.unknown('machine', key, x)
        else:
            ctx.bad('machine', key, 'a state machine is not printed or drawn as it is', w, '%s: %s' % (key, x))
    out = []
    for p in c21.programs():
        out.append(Shape('program', p[0], p[1], judge, w, 'a state machine is not printed or drawn as it is'))
    run_all(ctx, Pipeline(R), out)
    ctx.floor('machine', 60)
    ctx.floor('program', 15)
