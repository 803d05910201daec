"""Tokens.  The ordered token rules (in the order the generator matches them) are turned into one labelled
automaton with leftmost-first semantics and compared, state by state over the character classes, with the
longest-match automaton of the lexical grammar: every disagreement is reported with a shortest text.  The
value graph of each rule function says whether the token is kept unchanged or its text skipped, which type
an identifier gets for every reserved word, what a compiler directive records, and that an illegal character
and a syntax error always end in a raised error."""
import ast
import re

from ..engine import Engine, Info, K, NONE, RaiseSig, St, Sym, isK, kv, mk, show, subterms
from ..grammar import Grammar
from ..lexlines import flat
from ..lexmodel import LexModel
from ..regexlang import Longest, Priority, Unsupported, charset_classes, compare, compile_rules
from ..repo import AnalysisBroken
from ..spec_lex import KEYWORDS, TOKENS
from ..termspec import imprecise

ASSUMPTIONS = [
    'PLY orders function rules by definition line and string rules by decreasing regular expression length, '
    'compiles them with re.VERBOSE, and takes the leftmost-first match at each position',
    'PLY drops a token whose rule function returns None, and stops at an error function that raises',
    'a compiler directive or line comment ends with a newline (the preprocessor output always does)',
]

WHERE = 'pyverilog/vparser/lexer.py'


def check(ctx):
    L = LexModel(ctx.repo)
    skip = {}
    texts(ctx, L, skip)
    automaton(ctx, L, skip)
    keywords(ctx, L)
    ignored(ctx, L)
    coverage(ctx, L, skip)
    directives(ctx, L)
    errors(ctx, L)
    ctx.floor('keep', 20)
    ctx.floor('keyword', 50)


# ---------------------------------------------------------------- rule functions
def texts(ctx, L, skip):
    """Each function either returns the token as matched, or nothing."""
    for r in L.rules:
        if r.func is None:
            ctx.ok('keep', r.name)
            continue
        ctx.functions.add(r.func.qual)
        v, evs, raised, E = L.effect(r)
        t = Sym('t')
        if raised is not None:
            if imprecise(raised):
                ctx.unknown('keep', r.name, 'may raise')
            else:
                ctx.bad('keep', r.name, 'the function of token rule %s raises %s' % (r.name, show(raised)), r.func.where())
            continue
        if v is not t and v.k == 'K' and v.a[0] == 'NoneType':
            skip[r.name] = True
            ctx.ok('keep', '%s (skipped)' % r.name)
            continue
        if v is not t and v.k != 'Sym':
            if imprecise(v) and v.k != 'Gam':
                ctx.unknown('keep', r.name, show(v))
                continue
            ctx.bad('keep', r.name, 'token rule %s returns %s instead of its token' % (r.name, show(v)), r.func.where())
            continue
        changed = [(e, c) for e, c in flat(evs) if e.k == 'Ev' and e.a[0] == 'setattr' and e.a[1] is t]
        bad = None
        for e, c in changed:
            if e.a[2] == 'type' and r.name == 't_ID':
                continue
            if e.a[2] == 'value' and e.a[3] is mk('Attr', t, 'value'):
                continue
            if e.a[2] in ('value', 'type', 'lineno', 'lexpos'):
                bad = e
        if bad is None:
            ctx.ok('keep', r.name)
        elif imprecise(bad.a[3]) and bad.a[3].k in ('Unk', 'Call'):
            ctx.unknown('keep', r.name, show(bad))
        else:
            ctx.bad('keep', r.name, 'token rule %s sets the %s of its token to %s' % (r.name, bad.a[2], show(bad.a[3])),
                    r.func.where())


def automaton(ctx, L, skip):
    def label(r):
        return '#' + r.token if r.name in skip else r.token
    try:
        na, sa = compile_rules([(label(r), r.regex) for r in L.rules], re.VERBOSE)
        nb, sb = compile_rules(TOKENS, re.VERBOSE)
        chars = charset_classes(na, nb)
        a = Priority(na, sa)
        b = Longest(nb, sb, [t for t, _ in TOKENS])
        diffs, n = compare(a, b, chars)
    except (Unsupported, re.error) as e:
        raise AnalysisBroken('token regular expressions: %s' % e)
    # skipped text has no identity: which rule skips it does not matter
    names = dict((label(r), r) for r in L.rules)
    bad = set()
    for w, la, lb in sorted(diffs, key=lambda d: (len(d[0]), d[0])):
        if la is not None and lb is not None and la.startswith('#') and lb.startswith('#'):
            continue
        key = '%s/%s' % (la, lb)
        bad.add(lb or la)
        r = names.get(lb) or names.get(la)
        where = r.func.where() if r is not None and r.func is not None else WHERE
        ctx.bad('token', key, 'the text %r is %s, should be %s' % (
            w, 'token ' + la if la else 'no token', 'token ' + lb if lb else 'no token'), where)
    for t, _ in TOKENS:
        if t not in bad:
            ctx.ok('token', '%s (product automaton: %d states, %d character classes)' % (t, n, len(chars)))
    ctx.notes.append('token automaton: %d product states over %d character classes' % (n, len(chars)))


# ---------------------------------------------------------------- identifiers
def instance(E, L, st):
    """A lexer as its constructor leaves it, with the class attributes evaluated in class scope."""
    try:
        ref = E.instantiate(L.cls, [Sym('error_func')], {}, st)
    except RaiseSig:
        ref = E.new_inst(st, L.cls)
    r = st.heap[ref.a[0]]
    d = dict(r.data)
    for n, v in L.env.items():
        if n not in d and n not in L.cls.methods and v.k in ('K', 'Tup', 'List', 'Dict', 'Set'):
            d[n] = E.thaw(v, st)
    # the lexer object is attached later by build()
    st.heap[ref.a[0]] = type(r)(r.kind, r.cls, d, Sym('self'), r.extra)
    st.ev = ()
    return ref


def token(E, text):
    t = Sym('t')
    E.info[t] = Info(truth=True)
    E.info[mk('Attr', t, 'value')] = Info(isstr=True, truth=True)
    return t


def keywords(ctx, L):
    f = L.cls.methods.get('t_ID')
    if f is None:
        raise AnalysisBroken('no rule for identifiers')
    words = sorted(set(KEYWORDS) | set(L.reserved or {}))
    for w in words + ['foo', 'Module', 'MODULE', '_end', 'sens_or', '\\module', 'type', 'value']:
        want = KEYWORDS.get(w, 'ID')
        E = Engine(ctx.repo)
        st = St()
        t = token(E, w)
        try:
            recv = instance(E, L, st)
            st.ov[(t, 'value')] = K(w)
            st.ov[(t, 'type')] = K('ID')
            E.call_func(f, [t], {}, st, recv=recv)
            got = E.getattr(t, 'type', st)
        except RaiseSig as x:
            got = mk('Raise', x.exc)
        if isK(got, want):
            ctx.ok('keyword', '%s -> %s' % (w, want))
        elif imprecise(got):
            ctx.unknown('keyword', w, show(got))
        else:
            ctx.bad('keyword', w, 'the identifier text %r gets token type %s, should be %s' % (
                w, show(got), want), f.where())


def ignored(ctx, L):
    ig = L.ignore
    if ig is None or not isinstance(ig, str):
        ctx.unknown('ignore', 't_ignore', 'not a constant')
        return
    for c, want in ((' ', True), ('\t', True), ('\n', False)):
        if (c in ig) == want:
            ctx.ok('ignore', repr(c))
        elif want:
            ctx.bad('ignore', repr(c), 'the blank character %r is not skipped between tokens' % c, WHERE)
        else:
            ctx.bad('ignore', repr(c), 'newlines are skipped without being counted', WHERE)
    other = sorted(c for c in ig if c not in ' \t\n\r\f\v')
    if other:
        ctx.bad('ignore', 'text', 'the characters %r are silently skipped' % ''.join(other), WHERE)
    else:
        ctx.ok('ignore', 'only blanks are skipped')


def coverage(ctx, L, skip):
    """Every terminal of the grammar is produced by a rule, and every token produced is declared."""
    G = Grammar(ctx.repo)
    made = set(r.token for r in L.rules if r.name not in skip) | set(KEYWORDS.values())
    terms = set(s for p in G.prods for s in p.rhs if s not in G.nts)
    for t in sorted(terms):
        if t in ('error',):
            continue
        if t in made or t in set((L.reserved or {}).values()):
            ctx.ok('terminal', t)
        else:
            ctx.bad('terminal', t, 'no token rule or reserved word produces the grammar terminal %s' % t, WHERE)
    if L.tokens is None:
        ctx.unknown('declared', 'tokens', 'not a constant')
        return
    for t in sorted(made):
        if t in L.tokens:
            ctx.ok('declared', t)
        else:
            ctx.bad('declared', t, 'token type %s is not declared in the token list' % t, WHERE)


# ---------------------------------------------------------------- directives
def directives(ctx, L):
    f = L.cls.methods.get('t_DIRECTIVE')
    if f is None:
        ctx.unknown('directive', 'rule', 'no t_DIRECTIVE')
        return
    E = Engine(ctx.repo)
    st = St()
    t = token(E, None)
    line = Sym('line')
    try:
        recv = instance(E, L, st)
        d = dict(st.heap[recv.a[0]].data)
        lx = Sym('lexobj')
        d['lexer'] = lx
        r = st.heap[recv.a[0]]
        st.heap[recv.a[0]] = r.copy(d)
        st.ov[(t, 'lexer')] = lx
        st.ov[(t, 'lineno')] = line
        st.ov[(lx, 'lineno')] = line
        E.call_func(f, [t], {}, st, recv=recv)
        g = L.cls.methods.get('get_directives')
        n = L.cls.methods.get('get_default_nettype')
        got = E.snap(E.call_func(g, [], {}, st, recv=recv), st)
        net = E.snap(E.call_func(n, [], {}, st, recv=recv), st)
    except RaiseSig as x:
        ctx.unknown('directive', 'record', 'raises %s' % show(x.exc))
        return
    want = (line, mk('Attr', t, 'value'))
    if got.k in ('Tup', 'List') and len(got.a[0]) == 1 and got.a[0][0].k == 'Tup' and got.a[0][0].a[0] == want:
        ctx.ok('directive', 'a directive is recorded once as (its line, its text)')
    elif imprecise(got) and got.k not in ('Tup', 'List'):
        ctx.unknown('directive', 'record', show(got))
    else:
        ctx.bad('directive', 'record', 'after one directive the directive list is %s, should be ((line, text),)' % show(got, 6),
                f.where())
    # default_nettype: the directive's own argument, else unchanged
    rx = None
    for x in subterms(net):
        if x.k == 'K' and x.a[0] == 'str' and 'default_nettype' in str(kv(x)):
            rx = kv(x)
    alts = []
    todo = [net]
    while todo:
        x = todo.pop()
        if x.k == 'Gam':
            todo += [x.a[1], x.a[2]]
        else:
            alts.append(x)
    if not any(isK(x, 'wire') for x in alts):
        ctx.bad('directive', 'nettype.keep', 'a directive that is no default_nettype changes the default net type to %s' %
                show(net), f.where())
    elif len(alts) == 1:
        ctx.bad('directive', 'nettype', 'default_nettype never takes effect', f.where())
    elif rx is None or not all(isK(x, 'wire') or (x.k in ('Call', 'Meth', 'Unk', 'Fun') or imprecise(x)) for x in alts):
        ctx.unknown('directive', 'nettype', show(net))
    else:
        m = re.compile(rx)
        bad = None
        for txt, want in (('`default_nettype none\n', True), ('`default_nettype   wire\n', True), ('`define default_nettype x\n', False),
                          ('`include "default_nettype"\n', False)):
            if bool(m.match(txt)) != want:
                bad = txt
        gi = [kv(y) for x in alts for y in subterms(x) if y.k == 'K' and y.a[0] == 'int']
        if bad is not None:
            ctx.bad('directive', 'nettype.regex', 'the pattern %r %s the directive %r' % (
                rx, 'misses' if not m.match(bad) else 'takes', bad), f.where())
        elif gi and gi != [1]:
            ctx.bad('directive', 'nettype.group', 'the default net type is group %s of the pattern' % gi, f.where())
        else:
            ctx.ok('directive', 'default_nettype takes the argument of its own directive')


# ---------------------------------------------------------------- errors
def errors(ctx, L):
    E = Engine(ctx.repo)
    st = St()
    f = L.cls.methods.get('t_error')
    if f is None:
        ctx.bad('error', 't_error', 'illegal characters have no handler', WHERE)
    else:
        t = token(E, None)
        recv = instance(E, L, st)
        raised = None
        try:
            E.call_func(f, [t], {}, st, recv=recv)
        except RaiseSig as x:
            raised = x.exc
        # the error function the parser hands over must be called with the token's line on every path
        calls = [(e, c) for e, c in flat(st.ev) if e.k == 'Ev' and e.a[0] == 'call' and e.a[1].k == 'Call'
                 and e.a[1].a[0] is Sym('error_func')]
        if raised is not None or any(not c for e, c in calls):
            ctx.ok('error', 'an illegal character reaches the error function')
            for e, c in calls:
                args = e.a[1].a[1]
                if not any(x.k == 'Attr' and x.a[1] == 'lineno' for y in args for x in subterms(y)):
                    ctx.bad('error', 't_error.line', 'the error of an illegal character does not carry its line: %s' % show(e),
                            f.where())
        elif any(imprecise(e) for e, _ in flat(st.ev)):
            ctx.unknown('error', 't_error', 'not decided')
        else:
            ctx.bad('error', 't_error', 'an illegal character does not reach the error function on every path', f.where())
    P = ctx.repo.cls('vparser.parser.VerilogParser')
    for name, arg in (('p_error', 'token'), ('p_error', 'end of input'), ('_lexer_error_func', 'illegal character')):
        f = P.methods.get(name)
        if f is None:
            if name == 'p_error':
                ctx.bad('error', '%s.%s' % (name, arg), 'the parser has no error function', 'pyverilog/vparser/parser.py')
            continue
        ctx.functions.add(f.qual)
        E = Engine(ctx.repo)
        st = St()
        recv = E.new_inst(st, P, open_=Sym('parser'))
        t = Sym('t')
        E.info[t] = Info(truth=True)
        args = {'token': [t], 'end of input': [NONE], 'illegal character': [Sym('msg'), Sym('line'), Sym('col')]}[arg]
        try:
            E.call_func(f, args, {}, st, recv=recv)
            ctx.bad('error', '%s.%s' % (name, arg), '%s at %s does not raise: the parser would recover and return a tree' % (
                name, arg), f.where())
            continue
        except RaiseSig as x:
            exc = x.exc
        text = show(exc, 8)
        if arg != 'end of input' and 'lineno' not in text and 'line' not in text:
            ctx.bad('error', '%s.%s' % (name, arg), 'the syntax error raised at %s carries no line: %s' % (arg, text), f.where())
        elif 'ParseError' in text:
            ctx.ok('error', '%s at %s' % (name, arg))
        else:
            ctx.bad('error', '%s.%s' % (name, arg), '%s at %s raises %s instead of a parse error' % (name, arg, text), f.where())
    init = P.methods['__init__']
    E = Engine(ctx.repo)
    st = St()
    try:
        ref = E.instantiate(P, [], {}, st)
        lx = E.getattr(ref, 'lexer', st)
        ef = E.snap(E.getattr(lx, 'error_func', st), st)
        if '_lexer_error_func' in show(ef, 8):
            ctx.ok('error', 'the parser installs its error function in the lexer')
        else:
            ctx.unknown('error', 'install', show(ef))
    except RaiseSig as x:
        ctx.unknown('error', 'install', show(x.exc))
