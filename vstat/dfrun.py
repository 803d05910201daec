"""Abstract evaluation of the dataflow pipeline on program shapes whose identifiers are uninterpreted words.

The program's syntax tree is composed from the parser's actions; the visitors of the analyzer are interpreted from
source over that heap.  What the analysis stores (terms, bindings, frames) is read back as value terms."""
import re

from .deriv import compose
from .engine import Budget, K, NONE, RaiseSig, Rec, isK, kv, mk, show
from .printer import Undecided
from .roundtrip import tokenize
from .sentence import Sentences
from .termspec import imprecise


class Failed(Exception):
    """The analyzer raises on the shape."""

    def __init__(self, exc):
        Exception.__init__(self, show(exc, 4) if not isinstance(exc, str) else exc)
        self.exc = exc


def hook(old):
    def f(E, target, args, kwargs, st):
        if target.k == 'Ext':
            n = target.a[0]
            if n in ('copy.deepcopy', 'copy.copy') and args:
                return deep(E, args[0], st) if n == 'copy.deepcopy' else shallow(E, args[0], st)
            if n in ('collections.OrderedDict', 'collections.defaultdict') and n.endswith('OrderedDict'):
                r = Rec('dict', None, {})
                d = E.new_ref(st, r)
                if args:
                    v = E.simp(args[0], st)
                    if v.k == 'Ref' and st.heap[v.a[0]].kind == 'dict':
                        E.call(E.getattr(d, 'update', st), [v], {}, st)
                    else:
                        for x in E.as_items(v, st):
                            if x.k not in ('Tup', 'Ref', 'List'):
                                raise Undecided('OrderedDict of %s' % show(x, 3))
                            ks = E.as_items(x, st)
                            E.setitem(d, ks[0], ks[1], st)
                return d
            if n == 're.sub' and len(args) == 3 and args[0].k == 'K' and args[1].k != 'K' and E.simp(args[2], st).k == 'K':
                def repl(mt):
                    v = E.simp(E.call(args[1], [mk('ReMatch', K((mt.group(),) + mt.groups()))], {}, st), st)
                    if not isK(v):
                        raise Undecided('replacement %s' % show(v, 3))
                    return kv(v)
                return K(re.sub(kv(args[0]), repl, kv(E.simp(args[2], st))))
            if n in ('re.search', 're.match', 're.sub', 're.split', 're.findall') and all(a.k == 'K' for a in args):
                r = getattr(re, n[3:])(*[kv(a) for a in args])
                if n in ('re.search', 're.match'):
                    return NONE if r is None else mk('ReMatch', K((r.group(),) + r.groups()))
                return K(r) if isinstance(r, str) else E.new_list(st, [K(x) for x in r])
            if n in ('sys.setrecursionlimit', 'sys.stderr.write', 'sys.stdout.write', 'warnings.warn'):
                return NONE
        if old is not None:
            return old(E, target, args, kwargs, st)
        return NotImplemented
    return f


def deep(E, v, st, memo=None):
    memo = {} if memo is None else memo
    v = E.simp(v, st)
    if v.k == 'Ref':
        if v.a[0] in memo:
            return memo[v.a[0]]
        r = st.heap[v.a[0]]
        n = E.new_ref(st, r)
        memo[v.a[0]] = n
        if r.kind == 'inst':
            st.heap[n.a[0]] = r.copy(dict((k, deep(E, x, st, memo)) for k, x in r.data.items()))
        elif r.kind == 'dict':
            st.heap[n.a[0]] = r.copy(dict((k, deep(E, x, st, memo)) for k, x in r.data.items()))
        else:
            st.heap[n.a[0]] = r.copy(tuple(deep(E, x, st, memo) for x in r.data))
        return n
    if v.k == 'Tup':
        return mk('Tup', tuple(deep(E, x, st, memo) for x in v.a[0]))
    if v.k == 'Gam':
        return mk('Gam', v.a[0], deep(E, v.a[1], st, memo), deep(E, v.a[2], st, memo))
    return v


def shallow(E, v, st):
    v = E.simp(v, st)
    if v.k == 'Ref':
        r = st.heap[v.a[0]]
        return E.new_ref(st, r.copy(dict(r.data) if isinstance(r.data, dict) else r.data))
    return v


class Run(object):
    """Result of one shape."""
    __slots__ = ('E', 'st', 'an', 'tree', 'frametable', 'terms', 'binddict', 'funcs', 'tree0')


class Pipeline(object):
    def __init__(self, repo, budget=20000000):
        self.repo = repo
        self.S = Sentences(repo)
        self.L = self.S.lalr
        self.budget = budget
        self.keep_tree = False      # keep the tree's contents before the analysis, to compare

    def tree(self, text):
        tk, rest = tokenize(' '.join(text.split()))
        if tk is None:
            raise Undecided('illegal text in shape: %s' % rest)
        types = [a for a, _ in tk]
        t = self.L.parse(types)
        if t is None:
            raise Undecided('shape not accepted near %s' % ' '.join(b for _, b in tk[max(0, self.L.errpos - 3):self.L.errpos + 3]))
        c = compose(self.repo, self.S.G.cls, t, [K(b) for _, b in tk], [K(1)] * len(tk), budget=self.budget)
        if c.raises is not None:
            raise Undecided('the parser raises on the shape')
        return c

    set_order = None

    def engine(self, c):
        E = c.E
        E.intercept = None
        E.on_opaque = None
        E.on_raw = hook(None)
        E.recurse = True
        E.strict = True
        E.set_order = self.set_order
        E.max_depth = 400
        E.budget = self.budget + E.steps
        return E

    def run(self, text, top='TOP', noreorder=False, nettype=None):
        """The analyzer's own driver with parse() replaced by the composed tree.  nettype: module -> default net type in
        force at its definition (the lexer's state, which a derivation does not have)."""
        c = self.tree(text)
        E, st = self.engine(c), c.st
        for i, rec in list(st.heap.items()):
            if rec.kind == 'inst' and 'default_nettype' in rec.data and 'portlist' in rec.data:
                n = E.simp(rec.data['name'], st)
                st.heap[i] = rec.copy(dict(rec.data, default_nettype=K((nettype or {}).get(kv(n) if isK(n) else None, 'wire'))))
        cls = self.repo.cls('dataflow.dataflow_analyzer.VerilogDataflowAnalyzer')
        r = Run()
        r.E, r.st, r.tree = E, st, c.ref
        r.tree0 = E.snap(c.ref, st) if self.keep_tree else None
        try:
            def intercept(E2, func, recv, args, kwargs, s):
                if func.module.short.startswith('vparser'):
                    if func.name == 'parse':
                        return c.ref
                    if func.name == '__init__' and func.cls is not None and func.cls.module.short.startswith('vparser.p'):
                        return NONE
                return NotImplemented
            E.intercept = intercept
            an = E.call(E.cls_term(cls), [E.new_list(st, [K('shape.v')]), K(top)],
                        {'noreorder': K(noreorder)}, st)
            E.call(E.getattr(an, 'generate', st), [], {}, st)
            r.an = an
            r.frametable = E.getattr(an, 'frametable', st)
            r.terms = E.call(E.getattr(an, 'getTerms', st), [], {}, st)
            r.binddict = E.call(E.getattr(an, 'getBinddict', st), [], {}, st)
        except RaiseSig as x:
            raise Failed(x.exc)
        r.funcs = set(E.called)
        return r
