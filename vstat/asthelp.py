"""Abstract syntax-tree nodes for scenario-driven analysis."""
from .engine import Info, K, NONE, Rec, St, Sym, mk
from .repo import AnalysisBroken
from .spec_ast import AST

AMOD = 'vparser.ast'


def sub(E, name):
    """An opaque, present sub-tree."""
    s = Sym(name)
    E.info[s] = Info(truth=True, cls=None)
    return s


def field_value(E, st, name, kind, present, prefix=''):
    """Abstract value of a field: an opaque sub-tree, a list of opaque sub-trees, a text, or its absence."""
    n = prefix + name
    if kind in ('n', 'o'):
        if present:
            s = Sym(n)
            E.info[s] = Info(truth=True)
            return s
        return NONE
    if kind == 'l':
        if present == 'two':
            a, b = Sym(n + '#0'), Sym(n + '#1')
            E.info[a] = Info(truth=True)
            E.info[b] = Info(truth=True)
            return mk('Tup', (a, b))
        if present:
            s = Sym(n)
            E.info[s] = Info(truth=True, isseq=True)
            return s
        return mk('Tup', ())
    if present:
        s = Sym(n)
        E.info[s] = Info(truth=True, isstr=True)
        return s
    return NONE


def make(E, st, cname, present, prefix='', overrides=None):
    """Instance of an AST class, built by its own constructor from abstract fields.

    present: dict field -> True/False/'two' (default True)."""
    c = E.repo.cls(AMOD + '.' + cname)
    kw = {}
    f = E.repo.find_method(c, '__init__')
    if f is None:
        raise AnalysisBroken('%s has no constructor' % cname)
    params = [a.arg for a in f.node.args.args[1:]]
    vals = {}
    for name, kind in AST[cname]:
        v = field_value(E, st, name, kind, present.get(name, True), prefix)
        if overrides and name in overrides:
            v = overrides[name]
        vals[name] = v
        if name in params:
            kw[name] = v
    if 'lineno' in params:
        ln = Sym(prefix + 'lineno')
        E.info[ln] = Info(isint=True)
        kw['lineno'] = ln
    for a in params:
        if a not in kw:
            d = len(params) - len(f.node.args.defaults)
            if params.index(a) < d:
                kw[a] = Sym(prefix + a)
    ref = E.instantiate(c, [], kw, st)
    return ref, vals
