"""Newline accounting of the token rules (used by the source-line check)."""
import re

from .engine import K, contains, isK, kv, mk, show, subterms, Sym
from .lexmodel import LexModel
from .regexlang import Unsupported, compile_rules, language_has
from .termspec import imprecise


def flat(evs):
    for e in evs:
        if e.k == 'Opt':
            for x, _ in flat(e.a[1]):
                yield x, True
            for x, _ in flat(e.a[2]):
                yield x, True
        else:
            yield e, False


def is_lexer(t):
    return t.k == 'Attr' and t.a[1] == 'lexer'


def delta(v, target):
    """What an assignment adds to the line counter: a term, or None."""
    if v.k in ('Add', 'Plus') and len(v.a) == 2:
        a, b = v.a
        if a.k == 'Attr' and a.a[1] == 'lineno' and is_lexer(a.a[0]):
            return b
        if b.k == 'Attr' and b.a[1] == 'lineno' and is_lexer(b.a[0]):
            return a
    return None


def check(ctx):
    L = LexModel(ctx.repo)
    text = mk('Attr', Sym('t'), 'value')
    for r in L.rules:
        try:
            ns = compile_rules([(r.name, r.regex)], re.VERBOSE)
            nl = language_has(ns, r.name, '\n')
            only = True
            for nd in ns[0].nodes:
                if nd[0] == 'char' and nd[1] != frozenset('\n'):
                    only = False
        except (Unsupported, re.error) as e:
            ctx.unknown('newline', r.name, str(e))
            continue
        if r.func is None:
            if nl:
                ctx.bad('newline', r.name, 'token rule %s can contain a newline but cannot count it' % r.name,
                        'pyverilog/vparser/lexer.py')
            else:
                ctx.ok('newline', r.name)
            continue
        ctx.functions.add(r.func.qual)
        v, evs, raised, E = L.effect(r)
        moved = [(e, c) for e, c in flat(evs) if e.k == 'Ev' and e.a[0] == 'setattr' and e.a[2] == 'lineno'
                 and is_lexer(e.a[1])]
        where = r.func.where()
        if not nl:
            if moved:
                ctx.bad('newline', r.name, 'token rule %s matches no newline but moves the line counter' % r.name, where)
            else:
                ctx.ok('newline', r.name)
            continue
        if not moved:
            if any(e.k == 'Ev' and e.a[0] == 'call' for e, _ in flat(evs)) and any(
                    'lineno' in show(e) or 'newline' in show(e).lower() for e, _ in flat(evs)):
                ctx.unknown('newline', r.name, 'the counter is moved by an unresolved call')
            else:
                ctx.bad('newline', r.name, 'the text of %s can contain newlines that are not counted' % r.name, where)
            continue
        if len(moved) > 1 or moved[0][1]:
            ctx.unknown('newline', r.name, 'conditional or repeated counting')
            continue
        d = delta(moved[0][0].a[3], text)
        good = d is not None and (
            (d.k == 'Fun' and d.a[0] == 'str.count' and d.a[1][0] is text and isK(d.a[1][1], '\n'))
            or (d.k == 'Len' and d.a[0] is text and only)
            or (d.k == 'Fun' and d.a[0] == 'len' and only)
            or (isK(d, 1) and one_newline(ns)))
        if good:
            ctx.ok('newline', r.name)
        elif d is None and not imprecise(moved[0][0]) or (d is not None and (d.k == 'K' or d.k in ('Fun', 'Len'))):
            ctx.bad('newline', r.name, 'the line counter moves by %s on the text of %s' % (
                show(d) if d is not None else show(moved[0][0].a[3]), r.name), where)
        else:
            ctx.unknown('newline', r.name, 'counter expression %s' % show(moved[0][0].a[3]))
    ctx.floor('newline', 30)


def one_newline(ns):
    """Every word has exactly one newline: a newline node leads only to the match, and is unavoidable."""
    nfa, start = ns
    nls = [i for i, nd in enumerate(nfa.nodes) if nd[0] == 'char' and '\n' in nd[1]]
    if len(nls) != 1 or nfa.nodes[nls[0]][1] != frozenset('\n'):
        return False
    nxt = nfa.nodes[nfa.nodes[nls[0]][2]]
    return nxt[0] == 'match'
