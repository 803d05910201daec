"""Parse fidelity.  The grammar is extracted from the parser's docstrings; every sentential form of a
table written from the Verilog grammar is derived in it (all parses), the semantic actions are composed
along each derivation as value graphs over symbolic leaves, and the resulting syntax-tree term is compared,
field by field, with the tree the form denotes.  Forms that are not derivable, build another tree, raise,
or leave part of their leaves out are violations.  Nothing is parsed or executed."""
from ..engine import contains, show
from ..sentence import Sentences
from ..spec_grammar import DROPS, FORMS, parse_forms
from ..spec_lists import TEXT as LISTS
from ..termspec import Mismatch, imprecise, match, parse

ASSUMPTIONS = [
    'the form table in vstat/spec_grammar.py is the reference for what each Verilog construct denotes',
    'PLY builds the LALR automaton of the docstring grammar and calls one action per reduction',
    'leaf sub-trees are arbitrary trees of the classes their nonterminal can build',
]


def form_name(start, form):
    return '%s=>%s' % (start, '_'.join(s for s, _ in form))


def judge(S, ctx, rule, start, form, want, where_of):
    key = form_name(start, form)
    low, up = S.missing(form)
    if start not in S.G.nts:
        ctx.unknown(rule, key, 'nonterminal %s not in the grammar' % start)
        return
    if low:
        ctx.unknown(rule, key, 'nonterminal %s not in the grammar' % low[0])
        return
    res, env, vals, lines = S.compose(start, form)
    text = ' '.join(s for s, _ in form)
    if not res:
        if want == 'REJECT':
            ctx.ok(rule, key)
            return
        ctx.bad(rule, key, 'the form "%s" is no longer derivable from %s' % (text, start), 'pyverilog/vparser/parser.py')
        return
    if not S.accepted and want != 'REJECT':
        ctx.bad(rule, key, 'the parser rejects "%s": a grammar conflict is resolved against it' % text,
                'pyverilog/vparser/parser.py')
        return
    if not S.accepted:
        ctx.ok(rule, key)
        return
    verdicts = []
    for c in res:
        if c is None:
            verdicts.append((None, 'analysis budget', ''))
            continue
        w = where_of(c)
        if want == 'REJECT':
            if c.raises is not None:
                verdicts.append((True, '', w))
            else:
                verdicts.append((None if imprecise(c.value) else False,
                                 'illegal "%s" is accepted as %s' % (text, show(c.value, 6)), w))
            continue
        if c.raises is not None:
            bad = not imprecise(c.raises)
            verdicts.append((False if bad else None, '"%s" raises %s' % (text, show(c.raises)), w))
            continue
        try:
            match(want, c.value, env)
            verdicts.append((True, '', w))
        except Mismatch as m:
            verdicts.append((False if m.sure else None, '"%s": %s' % (text, m), w))
    if all(v[0] is True for v in verdicts):
        ctx.ok(rule, key)
    elif any(v[0] is True for v in verdicts) or any(v[0] is None for v in verdicts):
        # an ambiguous form: the automaton's choice decides which tree is built
        ctx.unknown(rule, key, '; '.join(v[1] for v in verdicts if v[1])[:300])
    else:
        ctx.bad(rule, key, verdicts[0][1][:600], verdicts[0][2])


def where_of(c):
    t = c.tree
    while t.prod is not None and len(t.kids) == 1 and t.kids[0].prod is not None:
        t = t.kids[0]
    f = t.prod.func if t.prod is not None else None
    return '%s (%s)' % (f.where(), f.qual) if f is not None else ''


def check(ctx):
    S = Sentences(ctx.repo)
    for start, form, want in parse_forms(FORMS):
        w = want if want == 'REJECT' else parse(want)
        judge(S, ctx, 'form', start, form, w, where_of)
    for start, form, want in parse_forms(LISTS):
        judge(S, ctx, 'list', start, form, parse(want), where_of)
    for start, form, want in parse_forms(DROPS):
        lab = want.split()[1]
        key = form_name(start, form)
        low, up = S.missing(form)
        if low or start not in S.G.nts:
            ctx.unknown('keeps', key, 'nonterminals missing')
            continue
        res, env, vals, lines = S.compose(start, form)
        for c in res:
            if c is None or c.raises is not None or imprecise(c.value):
                ctx.unknown('keeps', key, 'not decided')
            elif contains(c.value, env[lab]):
                ctx.ok('keeps', key)
            else:
                ctx.bad('keeps', key, 'the tree of "%s" does not contain its delay' % ' '.join(s for s, _ in form),
                        where_of(c))
            break
    # every production takes part in at least one form, so no part of the grammar is out of view
    unused = [p.name for p in S.G.prods if p.name not in S.used]
    ctx.notes.append('%d of %d productions covered by the forms of this check' % (
        len(S.G.prods) - len(unused), len(S.G.prods)))
    ctx.notes += unused[:15]
    for p in S.G.prods:
        ctx.functions.add(p.func.qual)
    ctx.floor('form', 200)
    ctx.floor('list', 300)
