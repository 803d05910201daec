"""The same input gives the same output every time.  The order in which Python hands out the elements of a set differs
from run to run (hash seed, object addresses).  Every program shape is carried through analysis, resolution, walking,
code generation, state machines, loops and active conditions twice or more, the elements of every set in another order
each time: every answer, including the order of its parts, must be the same.  No function may read a random number, a
clock, a hash or the process number, or list a directory in its own order."""
import ast

from ..dfrun import Failed, Pipeline, Undecided
from ..dfshape import Opaque, entries
from ..engine import Budget, K, RaiseSig, T, isK, kv, mk, show
from ..repo import walk_own
from ..shapes import Shape, locate, run_all
from . import c18, c20, c21
from .c22 import ACT, CFA, WK, Stages, c19_resolved, diff

ASSUMPTIONS = ['Dictionaries and lists are ordered by insertion; only sets and addresses differ between runs.']

REV = lambda xs: tuple(reversed(xs))
ROT = lambda xs: tuple(xs[1:]) + tuple(xs[:1])
MIX = lambda xs: tuple(xs[1::2]) + tuple(xs[::2])


def canon(t, memo):
    """The elements of sets that are part of an answer, in one order."""
    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(i) for i in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            a = tuple(rec(i) for i in x.a)
            if x.k in ('Set', 'FSet'):
                a = (tuple(sorted(a[0], key=lambda i: show(i, 12))),)
            r = memo[x] = mk(x.k, *a)
        return r
    return rec(t)


def machine(E, st, f):
    ks = ('fsm', 'any', 'name', 'delaycnt', 'resetval')
    out = []
    for k in ks:
        try:
            out.append(E.snap(E.getattr(f, k, st), st))
        except RaiseSig:
            pass
    return mk('Tup', tuple(out))


def answers(run, targets, signals, machines, clock='CLK', reset='RST_X'):
    E, st = run.E, run.st
    S = Stages(run, [])
    out, memo = [], {}

    def add(n, f):
        try:
            v = f()
        except RaiseSig as x:
            v = mk('Raises', x.exc)
        out.append((n, canon(E.snap(v, st), memo)))
    add('the instances', lambda: S.call(run.an, 'getInstances'))
    add('the signals', lambda: run.terms)
    add('the bindings', lambda: run.binddict)
    for k, t in entries(E, run.terms, st):
        add('the text of the signal %s' % show(k, 3), lambda: S.call(E.thaw(t, st), 'tostr'))
        add('the code of the signal %s' % show(k, 3), lambda: S.call(E.thaw(t, st), 'tocode'))
    for k, bs in entries(E, run.binddict, st):
        for b in E.as_items(bs, st):
            add('the text of a binding of %s' % show(k, 3), lambda: S.call(E.thaw(b, st), 'tostr'))
    consts, rterms, rbinds = c19_resolved(run)
    add('the constants', lambda: consts)
    add('the resolved signals', lambda: rterms)
    add('the resolved bindings', lambda: rbinds)
    five = [K('TOP'), run.terms, run.binddict, rterms, rbinds, consts]
    W = S.new(WK, *five)
    T_ = c20.Table(run, run.terms, run.binddict)
    keys = [(n, k) for n, k in T_.keys if T_.binds.get(n)]
    for n, k in keys[:12]:
        add('walkBind(%s)' % n, lambda: S.call(W, 'walkBind', K(n)))
        add('getTree(%s)' % n, lambda: S.call(W, 'getTree', E.thaw(k, st)))
    every = tuple(n for n, k in keys)
    for tg in list(targets) + ([every[1:] + every[:1]] if len(every) > 1 else []):
        def code():
            G = S.new(c20.GEN, *five)
            S.call(G, 'set_clock_info', K(clock), K('posedge'))
            S.call(G, 'set_reset_info', K(reset), K('negedge'))
            return S.call(G, 'generateCode', E.new_list(st, [K(t) for t in tg]))
        add('the code for %s' % (' '.join(tg) or 'everything'), code)
    if machines:
        def fsms():
            c = S.new(CFA, *five)
            return mk('Tup', tuple(mk('Tup', (k, machine(E, st, f))) for k, f in entries(E, S.call(c, 'getFiniteStateMachines'), st)))
        add('the state machines', fsms)
        add('the loops', lambda: S.call(S.new(CFA, *five), 'getLoops'))
        for n, k in keys:
            if n in signals:
                add('getActiveConditions(%s)' % n, lambda: S.call(S.new(ACT, *five), 'getActiveConditions', E.thaw(k, st)))
                add('getActiveModifiers/changes(%s)' % n, lambda: S.call(S.new(ACT, *five), 'getChangeConditions', E.thaw(k, st)))
    run.funcs |= set(E.called)
    return out


def judge(P, text, orders, *args, **kw):
    def j(run):
        first = answers(run, *args, **kw)
        for o in orders:
            P.set_order = o
            try:
                again = P.run(text)
                second = answers(again, *args, **kw)
            finally:
                P.set_order = None
            if [n for n, _ in first] != [n for n, _ in second]:
                a, b = [n for n, _ in first], [n for n, _ in second]
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                return 'the order of signals or bindings depends on the order of a set: %s or %s' % (a[k:k + 1], b[k:k + 1])
            for (n, x), (_, y) in zip(first, second):
                if x is not y:
                    return '%s depends on the order of a set%s' % (n, diff(x, y))
        return None
    return j


def shapes(ctx):
    P = Pipeline(ctx.repo)
    deep = ctx.tier == 'thorough'
    orders = (REV, ROT, MIX) if deep else (REV,)
    out = []
    w = locate(ctx.repo, 'dataflow.dataflow_analyzer.VerilogDataflowAnalyzer.generate')

    def add(n, t, *args, **kw):
        out.append(Shape('order', n, t, judge(P, t, orders, *args, **kw), w, 'the answer differs between runs'))
    for n, t, targets, kw in c20.programs():
        kw = {k: v for k, v in kw.items() if k != 'default'}
        add(n, t, targets if deep else targets[:3], (), False, **kw)
    for n, t, q in c18.programs():
        if deep:
            add('walked ' + n, t, [()], (), False)
    for n, t, regs, reset in c21.programs():
        add('machine ' + n, t, [()], set('TOP.' + r for r in regs), True, reset=reset[0] if reset else 'RST')
    for n, t, sig, m, kind in c21.active_programs():
        add('active ' + n, t, [()], set(['TOP.' + sig]), True, reset='RST')
    run_all(ctx, P, out)
    ctx.floor('order', 50)


# ------------------------------------------------------------------ what differs between runs
SOURCES = {'random': None, 'uuid': None, 'secrets': None, 'time': None, 'datetime': None,
           'os': ('getpid', 'urandom', 'listdir', 'scandir', 'walk', 'times', 'getppid'), 'glob': None,
           'builtins': ('hash',)}


def lint(ctx):
    R = ctx.repo
    for m in R.modules.values():
        names = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    names[(a.asname or a.name).split('.')[0]] = (a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(n, ast.ImportFrom) and not n.level:
                for a in n.names:
                    names[a.asname or a.name] = (n.module, a.name)
        fs = [f for f in m.funcs.values()] + [f for c in m.classes.values() for f in c.methods.values()]
        for f in fs:
            if f.name in ('__hash__', '__eq__', '__ne__'):
                continue
            bad = None
            for n in walk_own(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in names:
                    mod, attr = names[n.value.id]
                    if mod in SOURCES and attr is None and (SOURCES[mod] is None or n.attr in SOURCES[mod]):
                        bad = n
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if n.id in names:
                        mod, attr = names[n.id]
                        if mod in SOURCES and attr and (SOURCES[mod] is None or attr in SOURCES[mod]):
                            bad = n
                    elif n.id in SOURCES['builtins'] and n.id not in m.funcs and n.id not in local(f):
                        bad = n
            if bad is None:
                ctx.ok('sources', f.qual)
            elif sorted_around(f, bad):
                ctx.ok('sources', f.qual)
            else:
                ctx.bad('sources', '%s:%s' % (f.qual, ast.unparse(bad)), '%s uses %s, which differs between runs' % (f.qual, ast.unparse(bad)),
                        '%s:%d' % (m.relpath, bad.lineno))
    ctx.floor('sources', 500)


def local(f):
    return {n.id for n in walk_own(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in ast.walk(f.node.args) if isinstance(a, ast.arg)}


def sorted_around(f, x):
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'len', 'set') and any(y is x for y in ast.walk(n)):
            return True
    return False


def check(ctx):
    lint(ctx)
    shapes(ctx)
