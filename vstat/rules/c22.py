"""Runs do not influence each other.  (a) A parser object is interpreted over two texts, every token rule having run in
between: the second parse must find the lexer as the first did, and the directives already handed out must stay.  (b) All
mutable objects that outlive a call (module variables, class attributes, parameter defaults, cached results) are followed
through the package; no function may change one, or rebind a module or class name.  (c) On program shapes the later stages
(resolution, walking, subsets, code generation, state machines, active conditions) must leave the syntax tree, the signals,
the bindings and the resolved tables as they were, and a question asked again, on the same object after other questions or
on a fresh one, must get the same answer.  (d) The code generator stores nothing in the nodes it visits."""
import ast
import re

from ..dfrun import Failed, Pipeline, Undecided
from ..dfshape import Opaque, chain, entries
from ..engine import Budget, K, NONE, RaiseSig, Rec, Sym, isK, kv, mk, show
from ..lexmodel import LexModel
from ..persist import MUTATORS, Persist
from ..repo import AnalysisBroken, walk_own
from ..shapes import Shape, locate, run_all
from ..world import World
from . import c18, c20, c21

ASSUMPTIONS = ['ply starts every parse with fresh stacks and a fresh position; nothing else of it survives a parse.',
               'Mutable objects are followed by name (attributes field-based); elements of containers are not followed.']

SAMPLES = ['`default_nettype none\n', '`timescale 1ns / 1ps\n', '`define A\n', '// c\n', '/* a\n b */', '\n\n', 'x1', 'module',
           '12', "4'b01", '"s"', '1.5', '+', '&&', '[']


# ------------------------------------------------------------------ a parser used twice
def lexing(repo, L):
    """Every token rule runs on the samples its expression matches."""
    def f(E, lx, st):
        v = E.simp(lx, st)
        ply = E.getattr(v, 'lexer', st)
        for r in L.rules:
            if r.func is None:
                continue
            for s in SAMPLES:
                if not re.fullmatch(r.regex, s):
                    continue
                t = E.new_ref(st, Rec('inst', None, {'value': K(s), 'type': K(r.token), 'lineno': K(1), 'lexpos': K(0),
                                                     'lexer': ply}))
                E.call_func(r.func, [t], {}, st, recv=v)
    return f


def reuse(ctx):
    R = ctx.repo
    L = LexModel(R)
    where = locate(R, 'vparser.parser.VerilogParser.parse')
    PC = R.cls('vparser.parser.VerilogParser')

    def world():
        W = World(R)
        W.on_parse = lexing(R, L)
        return W

    def texts(name, go):
        W = world()
        try:
            go(W)
        except RaiseSig as x:
            ctx.bad('reuse', name + '-raises', '%s: raises %s' % (name, show(x.exc, 3)), where)
            return None
        except (Undecided, Budget) as x:
            ctx.unknown('reuse', name, str(x)[:120])
            return None
        ctx.functions.update(W.E.called)
        if len(W.parses) < 2:
            ctx.bad('reuse', name + '-parses', '%s: %d texts are parsed' % (name, len(W.parses)), where)
            return None
        a, b = W.parses[0]['state'], W.parses[-1]['state']
        bad = False
        for k in sorted(set(a) | set(b)):
            if a.get(k) is not b.get(k):
                bad = True
                ctx.bad('reuse', '%s-%s' % (name, '.'.join(k)), '%s: the second text is read with %s = %s, the first with %s' % (
                    name, '.'.join(k), show(b[k], 4) if k in b else 'nothing', show(a[k], 4) if k in a else 'nothing'), where)
        if not bad:
            ctx.ok('reuse', name)
        return W

    def same_object(W):
        E, st = W.E, W.st
        p = E.call(E.cls_term(PC), [], {}, st)
        W.p = p
        parse = E.getattr(p, 'parse', st)
        W.result = [E.call(parse, [Sym('text 1')], {}, st)]
        W.dirs = [E.call(E.getattr(p, 'get_directives', st), [], {}, st)]
        W.dirs0 = E.snap(W.dirs[0], st)
        W.result.append(E.call(E.getattr(p, 'parse', st), [Sym('text 2')], {}, st))
        W.dirs.append(E.call(E.getattr(p, 'get_directives', st), [], {}, st))

    def two_objects(W):
        E, st = W.E, W.st
        for i in (1, 2):
            p = E.call(E.cls_term(PC), [], {}, st)
            E.call(E.getattr(p, 'parse', st), [Sym('text %d' % i)], {}, st)

    def two_functions(W):
        E, st = W.E, W.st
        for i in (1, 2):
            W.files['a.v'] = Sym('a')
            E.call(E.fn(R.func('vparser.parser.parse')), [E.new_list(st, [K('a.v')])], {}, st)

    W = texts('one parser', same_object)
    texts('two parsers', two_objects)
    texts('parse twice', two_functions)
    if W is not None:
        E, st = W.E, W.st
        if E.snap(W.dirs[0], st) is not W.dirs0:
            ctx.bad('reuse', 'directives-alias', 'the directives handed out after the first parse change with the second', where)
        elif E.snap(W.dirs[1], st) is not W.dirs0:
            ctx.bad('reuse', 'directives-kept', 'after the second parse of equal text the directives are %s, after the first %s' % (
                show(E.snap(W.dirs[1], st), 4), show(W.dirs0, 4)), where)
        else:
            ctx.ok('reuse', 'directives')
        first = W.parses[0]['state']
        exp = {('lexer', 'lineno'): K(1), ('default_nettype',): K('wire'), ('directives',): mk('Tup', ())}
        for k, v in exp.items():
            if k not in first:
                ctx.unknown('reuse', 'initial ' + '.'.join(k), 'no such attribute')
            elif first[k] is not v:
                ctx.bad('reuse', 'initial-' + '.'.join(k), 'a text is read with %s = %s at its start' % ('.'.join(k), show(first[k], 3)), where)
            else:
                ctx.ok('reuse', 'initial ' + '.'.join(k))
    ctx.floor('reuse', 4)


# ------------------------------------------------------------------ state that outlives a call
def state(ctx):
    P = Persist(ctx.repo)
    if len(P.funcs) < 800:
        raise AnalysisBroken('only %d functions found' % len(P.funcs))
    hit = {}
    for o, what, where in P.violations():
        hit.setdefault(id(o), []).append((what, where))
    for o in P.objs:
        if id(o) in hit:
            what, where = hit[id(o)][0]
            ctx.bad('state', o.name, 'the %s %s is changed by a function (%s)' % (o.kind, o.name, what), where, 'bound at %s' % o.where)
        else:
            ctx.ok('state', '%s %s' % (o.kind, o.name))
    for n, w in P.rebinds:
        ctx.bad('state', 'rebind-' + n, '%s is rebound while the program runs' % n, w)
    for f in P.funcs:
        ctx.ok('effects', f.qual)
    ctx.functions.update(f.qual for f in P.funcs)


def visiting(ctx):
    """The code generator changes no node."""
    m = ctx.repo.mod('ast_code_generator.codegen')
    fs = list(m.funcs.values()) + [f for c in m.classes.values() for f in c.methods.values()]
    for f in fs:
        ps = [a.arg for a in f.args.args + f.args.kwonlyargs]
        if f.cls is not None and ps:
            ps = ps[1:]
        own = set()
        for n in walk_own(f.node):       # parameters that are rebound are the function's own from then on
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                own.add(n.id)
        ps = set(ps) - own

        def root(e):
            while isinstance(e, (ast.Attribute, ast.Subscript)):
                e = e.value
            return e.id if isinstance(e, ast.Name) else None
        bad = None
        for n in walk_own(f.node):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, ast.AugAssign) else []
            for t in ts:
                if isinstance(t, (ast.Attribute, ast.Subscript)) and root(t) in ps:
                    bad = n
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS \
                    and isinstance(n.func.value, (ast.Attribute, ast.Subscript)) and root(n.func.value) in ps:
                bad = n
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args \
                    and root(n.args[0]) in ps:
                bad = n
        if bad is not None:
            ctx.bad('visit', f.qual, '%s changes the node it is given: %s' % (f.qual, ast.unparse(bad)[:80]), '%s:%d' % (m.relpath, bad.lineno))
        else:
            ctx.ok('visit', f.qual)


# ------------------------------------------------------------------ stages do not change what they read
DFA, OPT = 'dataflow.dataflow_analyzer.VerilogDataflowAnalyzer', 'dataflow.optimizer.VerilogDataflowOptimizer'
WK, SUB, MRG = 'dataflow.walker.VerilogDataflowWalker', 'dataflow.subset.VerilogSubset', 'dataflow.merge.VerilogDataflowMerge'
CFA, ACT = 'controlflow.controlflow_analyzer.VerilogControlflowAnalyzer', 'controlflow.active_analyzer.VerilogActiveConditionAnalyzer'


class Differs(Exception):
    pass


class Stages(object):
    def __init__(self, run, tables):
        self.run, self.E, self.st = run, run.E, run.st
        self.keep = {}
        for n, v in tables:
            self.watch(n, v)
        self.skipped = []

    def watch(self, n, v):
        self.keep[n] = (v, self.E.snap(v, self.st))

    def new(self, q, *args):
        return self.E.call(self.E.cls_term(self.E.repo.cls(q)), list(args), {}, self.st)

    def call(self, o, m, *args):
        return self.E.call(self.E.getattr(o, m, self.st), list(args), {}, self.st)

    def verify(self, what):
        for n, (v, s) in self.keep.items():
            now = self.E.snap(v, self.st)
            if now is not s:
                raise Differs('%s changes %s%s' % (what, n, diff(s, now)))

    def ask(self, what, f, fresh):
        """f(object) twice on one object, once on a fresh one after the questions before."""
        try:
            o = fresh()
            a = self.E.snap(f(o), self.st)
            self.verify(what)
            b = self.E.snap(f(o), self.st)
            self.verify(what + ' again')
        except RaiseSig as x:
            self.skipped.append('%s: %s' % (what, show(x.exc, 3)))
            return None
        if a is not b:
            raise Differs('%s gives another answer when asked again%s' % (what, diff(a, b)))
        return a


def diff(a, b):
    """The first place where two terms differ."""
    def rec(x, y, d):
        if x is y or d > 40:
            return None
        if not hasattr(x, 'k') or not hasattr(y, 'k') or x.k != y.k:
            return (x, y)
        xs, ys = list(x.a), list(y.a)
        fx, fy = [], []
        for s, t in ((xs, fx), (ys, fy)):
            for i in s:
                t.extend(i if isinstance(i, tuple) else [i])
        ex, ey = [], []
        for s, t in ((fx, ex), (fy, ey)):
            for i in s:
                t.extend(i if isinstance(i, tuple) else [i])
        if len(ex) != len(ey):
            return (x, y)
        for i, j in zip(ex, ey):
            if hasattr(i, 'k') or hasattr(j, 'k'):
                r = rec(i, j, d + 1)
                if r:
                    return r
            elif i != j:
                return (x, y)
        return None
    r = rec(a, b, 0)
    if r is None:
        return ''
    sh = lambda t: show(t, 3)[:120] if hasattr(t, 'k') else str(t)[:120]
    return ': %s becomes %s' % (sh(r[0]), sh(r[1]))


def judge(targets, signals, machines, clock='CLK', reset='RST_X'):
    def j(run):
        E, st = run.E, run.st
        if run.tree0 is not None and E.snap(run.tree, st) is not run.tree0:
            return 'the analysis changes the syntax tree%s' % diff(run.tree0, E.snap(run.tree, st))
        S = Stages(run, [('the syntax tree', run.tree), ('the signals', run.terms), ('the bindings', run.binddict),
                         ('the frame table', run.frametable)])
        try:
            an = S.new(DFA, E.new_list(st, [K('shape.v')]), K('TOP'))
            S.call(an, 'generate')
            S.verify('a second analysis of the same tree')
            for n, m, v in (('signals', 'getTerms', run.terms), ('bindings', 'getBinddict', run.binddict)):
                again = E.snap(S.call(an, m), st)
                if again is not E.snap(v, st):
                    return 'a second analysis of the same tree finds other %s%s' % (n, diff(E.snap(v, st), again))
            consts, rterms, rbinds = c19_resolved(run)
            S.verify('resolving constants')
            for n, v in (('the constants', consts), ('the resolved signals', rterms), ('the resolved bindings', rbinds)):
                S.watch(n, v)
            c2, t2, b2 = c19_resolved(run)
            S.verify('resolving constants again')
            for n, x, y in (('constants', consts, c2), ('signals', rterms, t2), ('bindings', rbinds, b2)):
                if E.snap(x, st) is not E.snap(y, st):
                    return 'resolving again gives other %s%s' % (n, diff(E.snap(x, st), E.snap(y, st)))
            five = [K('TOP'), run.terms, run.binddict, rterms, rbinds, consts]
            T = c20.Table(run, run.terms, run.binddict)
            keys = [(n, k) for n, k in T.keys if T.binds.get(n)]
            walk = lambda: S.new(WK, *five)
            W = walk()
            for n, k in keys[:10]:
                S.ask('getTree(%s)' % n, lambda o: S.call(o, 'getTree', E.thaw(k, st)), walk)
                for step in (1, 0, 2):
                    q = lambda o: S.call(o, 'walkBind', K(n), K(step))
                    a = S.ask('walkBind(%s, %d)' % (n, step), q, lambda: W)
                    b = S.ask('walkBind(%s, %d)' % (n, step), q, walk)
                    if a is not b and None not in (a, b):
                        return 'walkBind(%s, %d) depends on the questions asked before%s' % (n, step, diff(b, a))

            def gen():
                G = S.new(c20.GEN, *five)
                S.call(G, 'set_clock_info', K(clock), K('posedge'))
                S.call(G, 'set_reset_info', K(reset), K('negedge'))
                return G
            G = gen()
            out = {}
            for tg in targets:
                ask = lambda o: S.call(o, 'generateCode', E.new_list(st, [K(t) for t in tg]))
                out[tg] = S.ask('generateCode(%s)' % ' '.join(tg), ask, gen)
                b = S.ask('generateCode(%s)' % ' '.join(tg), ask, lambda: G)
                if out[tg] is not b and None not in (out[tg], b):
                    return 'generateCode(%s) depends on the questions asked before%s' % (' '.join(tg), diff(out[tg], b))
            if machines:
                ca = lambda: S.new(CFA, *five)
                S.ask('getFiniteStateMachines', lambda o: fsms(E, st, S.call(o, 'getFiniteStateMachines')), ca)
                S.ask('getLoops', lambda o: S.call(o, 'getLoops'), ca)
                for n, k in keys:
                    if n in signals:
                        S.ask('getActiveConditions(%s)' % n, lambda o: S.call(o, 'getActiveConditions', E.thaw(k, st)), lambda: S.new(ACT, *five))
        except Differs as x:
            return str(x)
        except RaiseSig as x:
            raise Failed(x.exc)
        run.funcs |= set(E.called)
        return None
    return j


def fsms(E, st, v):
    out = []
    for k, f in entries(E, v, st):
        out.append(mk('Tup', (k, E.snap(E.getattr(f, 'fsm', st), st), E.snap(E.getattr(f, 'any', st), st))))
    return mk('Tup', tuple(out))


def c19_resolved(run):
    from .c19 import resolved
    return resolved(run)


def shapes(ctx):
    P = Pipeline(ctx.repo)
    P.keep_tree = True
    out = []
    w = locate(ctx.repo, OPT + '.resolveConstant')
    for n, t, targets, kw in c20.programs():
        kw = {k: v for k, v in kw.items() if k != 'default'}
        out.append(Shape('inputs', n, t, judge(targets if ctx.tier == 'thorough' else targets[:3], (), False, **kw), w, 'a stage changes what it reads or answers differently'))
    deep = ctx.tier == 'thorough'
    for n, t, q in c18.programs():
        if deep:
            out.append(Shape('inputs', 'walked ' + n, t, judge([()], (), False), w, 'a stage changes what it reads or answers differently'))
    for n, t, regs, reset in c21.programs():
        out.append(Shape('inputs', 'machine ' + n, t, judge([()], set('TOP.' + r for r in regs), True, reset=reset[0] if reset else 'RST'), w, 'a stage changes what it reads or answers differently'))
    for n, t, sig, m, kind in c21.active_programs():
        out.append(Shape('inputs', 'active ' + n, t, judge([()], set(['TOP.' + sig]), True, reset='RST'), w, 'a stage changes what it reads or answers differently'))
    run_all(ctx, P, out)
    ctx.floor('inputs', 50)


def check(ctx):
    reuse(ctx)
    state(ctx)
    visiting(ctx)
    shapes(ctx)
