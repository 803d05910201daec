"""The functions that report an illegal character or a syntax error are interpreted from source on tokens at every position of texts
with lines of every length, blank and first lines among them: the message must be a parse error with the token's line, the column
counted from the start of that line, and the offending text; an unfinished text is reported as such."""
import re

from ..dfrun import Undecided
from ..engine import Budget, Info, K, NONE, RaiseSig, St, Sym, isK, kv, mk, show, subterms
from ..lexmodel import LexModel
from ..repo import AnalysisBroken
from ..shapes import locate
from .c04 import instance
from .c17 import engine

ASSUMPTIONS = ['PLY gives a token its offset in the text and the line number of the lexer, and an error token the rest of the text as its value.']
LEX = 'vparser.lexer.VerilogLexer'
PAR = 'vparser.parser.VerilogParser'
TEXTS = ['¢', 'ab¢', '\n¢', 'x\n¢', 'x\n  ¢', '\n\n¢', 'abc\n\n\tq¢r\n', '¢ \n ¢\n¢', 'a b ¢c\nde ¢f\n\n  g¢\n¢', '\n', ' ' * 30 + '¢', 'a\n' * 12 + 'bcd¢']


def token(E, st, text, pos, value=None):
    t = Sym('t')
    E.info[t] = Info(truth=True)
    st.ov[(t, 'value')] = K(text[pos:] if value is None else value)
    st.ov[(t, 'type')] = K('error')
    st.ov[(t, 'lexpos')] = K(pos)
    st.ov[(t, 'lineno')] = K(text.count('\n', 0, pos) + 1)
    return t


def message(exc):
    """The text of a raised error."""
    vs = [kv(x) for x in subterms(exc) if x.k == 'K' and isinstance(kv(x), str)]
    return max(vs, key=len) if vs else None


def setup(repo, text, pos):
    E = engine(repo)
    st = St()
    P = repo.cls(PAR)
    L = LexModel(repo)
    recv = instance(E, L, st)
    ply = Sym('ply')
    E.info[ply] = Info(truth=True)
    st.ov[(ply, 'lexdata')] = K(text)
    st.ov[(ply, 'lineno')] = K(text.count('\n', 0, pos) + 1)
    st.ov[(ply, 'lexpos')] = K(pos)
    E.setattr(recv, 'lexer', ply, st)
    par = E.new_inst(st, P, open_=Sym('parser'))
    E.setattr(par, 'lexer', recv, st)
    E.setattr(recv, 'filename', K(''), st)
    E.setattr(recv, 'error_func', E.getattr(par, '_lexer_error_func', st), st)
    return E, st, recv, par


def place(text, pos):
    return text.count('\n', 0, pos) + 1, pos - (text.rfind('\n', 0, pos) + 1) + 1


def numbers(msg, word):
    return [int(x) for x in re.findall(word + r'\D{0,3}(\d+)', msg)]


def illegal(repo, text, pos):
    E, st, recv, par = setup(repo, text, pos)
    try:
        E.call(E.getattr(recv, 't_error', st), [token(E, st, text, pos)], {}, st)
        return 'the illegal character is passed over', E.called
    except RaiseSig as x:
        if 'ParseError' not in show(x.exc, 3):
            return 'the error raises %s' % show(x.exc, 3), E.called
        m, exc = message(x.exc), x.exc
    if m is None or 'line' not in m:
        raise Undecided('the message is not known: %s' % show(exc, 6))
    line, col = place(text, pos)
    if numbers(m, 'line') != [line]:
        return 'the error is in line %d, column %d but is reported as "%s"' % (line, col, m), E.called
    if numbers(m, 'col[a-z]*') != [col]:
        return 'the error is in line %d, column %d but is reported as "%s"' % (line, col, m), E.called
    if repr(text[pos]) not in m and text[pos] not in m:
        return 'the error does not show the character: "%s"' % m, E.called
    return None, E.called


def syntax(repo, text, pos, value):
    E, st, recv, par = setup(repo, text, pos)
    t = NONE if value is None else token(E, st, text, pos, value)
    try:
        E.call(E.getattr(par, 'p_error', st), [t], {}, st)
        return 'the syntax error is passed over', E.called
    except RaiseSig as x:
        if 'ParseError' not in show(x.exc, 3):
            return 'the error raises %s' % show(x.exc, 3), E.called
        m, exc = message(x.exc), x.exc
    if m is None:
        raise Undecided('the message is not known: %s' % show(exc, 6))
    if value is None:
        return (None if 'end' in m and not numbers(m, 'line') else 'an unfinished text is reported as "%s"' % m), E.called
    if numbers(m.replace(value, ''), 'line') != [place(text, pos)[0]] or value not in m:
        return 'a syntax error at %s in line %d is reported as "%s"' % (value, place(text, pos)[0], m), E.called
    return None, E.called


def check(ctx):
    R = ctx.repo
    w = locate(R, LEX + '._find_tok_column', LEX + '.t_error')
    wp = locate(R, PAR + '._raise_error', PAR + '.p_error')
    if R.find_method(R.cls(PAR), 'p_error') is None or R.find_method(R.cls(LEX), 't_error') is None:
        raise AnalysisBroken('an error function vanished')

    def run(rule, key, what, where, fn, *args):
        try:
            m, fs = fn(R, *args)
        except (Undecided, Budget) as x:
            return ctx.unknown(rule, key, str(x)[:200])
        except RecursionError:
            return ctx.unknown(rule, key, 'recursion')
        ctx.functions |= set(fs)
        if m is None:
            ctx.ok(rule, key)
        else:
            ctx.bad(rule, key, what, where, m)
    deep = ctx.tier == 'thorough'
    for text in TEXTS + ([t * 3 for t in TEXTS] if deep else []):
        for pos, ch in enumerate(text):
            if ch == '¢' or deep and ch != '\n':
                run('illegal', '%r at %d' % (text if len(text) < 40 else text[:20] + '...', pos), 'an illegal character is reported at another place', w, illegal, text, pos)
    for text, value in (('foo', 'foo'), ('a\nfoo', 'foo'), ('module m;\n\n  foo = 3;\n', 'foo'), ('x\n\n\n\n\n\n\n\n\n\nend', 'end'), ('a "b"', '"b"'), ("w\n w 8'hff", "8'hff"), ('a\nb %', '%')):
        run('syntax', '%r' % text, 'a syntax error is reported at another place', wp, syntax, text, text.index(value), value)
    run('syntax', 'end of input', 'an unfinished text is reported otherwise', wp, syntax, 'module', 5, None)
    ctx.floor('illegal', 15)
    ctx.floor('syntax', 6)
