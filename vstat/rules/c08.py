"""Two abstract instances of each syntax-tree class are compared by the class's own equality, built by
its own constructor: equal contents (line numbers differing) must give exactly True, one differing
field, one missing field, a longer list, another node kind or a foreign object must give exactly
False; the hash may depend only on what equality compares."""
from ..asthelp import AMOD
from ..engine import Sym
from ..eqhelp import EqCase, class_pairs, run, run_hash
from ..repo import AnalysisBroken
from ..spec_ast import AST

ASSUMPTIONS = ['Sub-trees are opaque: equality of a sub-tree is the induction hypothesis.',
               'The node vocabulary is the table in vstat/spec_ast.py.']

# optional slots of the same syntactic category
SLOTS = {'IfStatement': [('true_statement', 'false_statement')], 'Assign': [('ldelay', 'rdelay')],
         'BlockingSubstitution': [('ldelay', 'rdelay')], 'NonblockingSubstitution': [('ldelay', 'rdelay')],
         'ForStatement': [('pre', 'post')]}


def builder(R, cname, fields):
    c = R.mod(AMOD).classes.get(cname)
    if c is None:
        raise AnalysisBroken('class %s vanished' % cname)
    f = R.find_method(c, '__init__')
    params = [a.arg for a in f.node.args.args[1:]]

    def build(E, st, vals, ln):
        kw = dict((n, v) for n, v in vals.items() if n in params)
        if 'lineno' in params:
            kw['lineno'] = ln
        nd = len(params) - len(f.node.args.defaults)
        for i, p in enumerate(params):
            if p not in kw and i < nd:
                kw[p] = Sym('extra_' + p)
        return E.instantiate(c, [], kw, st)
    return build


def check(ctx):
    R = ctx.repo
    cases = {}
    for cname, fs in AST.items():
        fields = [(n, k) for n, k in fs if k != '?']
        c = R.mod(AMOD).classes.get(cname)
        if c is None:
            ctx.bad('eq', cname, 'syntax-tree class %s no longer exists' % cname, '')
            continue
        f = R.find_method(c, '__eq__')
        cases[cname] = EqCase(cname, fields, builder(R, cname, fields), f.where() if f else '', SLOTS.get(cname, ()))
    names = list(cases)
    for i, n in enumerate(names):
        same = [m for m in names if m != n and [k for _, k in cases[m].fields] == [k for _, k in cases[n].fields]]
        if ctx.tier != 'thorough':
            j = [m for m in same if names.index(m) > i][:1] or same[:1]
            rel = [m for m in same if R.mod(AMOD).classes[m] in R.mro(R.mod(AMOD).classes[n])
                   or R.mod(AMOD).classes[n] in R.mro(R.mod(AMOD).classes[m])]
            same = list(dict.fromkeys(j + rel))
        run(ctx, 'eq', cases[n], [cases[m] for m in same], None)
        run_hash(ctx, 'hash', cases[n])
    class_pairs(ctx, 'eq-hash', [R.mod(AMOD)])
    ctx.floor('eq', 1000)
    ctx.floor('hash', 90)
