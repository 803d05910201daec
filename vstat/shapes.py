"""Runs lists of program shapes through the interpreted analyzer, in parallel, and turns outcomes into obligations."""
import hashlib
import re

from .dfrun import Failed, Pipeline, Undecided
from .dfshape import Opaque
from .engine import Budget
from .par import pmap
from .repo import AnalysisBroken


class Shape(object):
    """One obligation: a program text, a judge(run) -> None or a message, and where to report it."""
    __slots__ = ('rule', 'key', 'text', 'judge', 'where', 'kw', 'what', 'fails')

    def __init__(self, rule, key, text, judge, where='', what='', fails=None, **kw):
        self.fails = fails
        self.rule, self.key, self.text, self.judge, self.where, self.kw, self.what = rule, key, text, judge, where, kw, what


def short(s, n=90):
    s = re.sub(r'\s+', ' ', s).strip()
    if len(s) <= n:
        return s
    return '%s..%s' % (s[:n], hashlib.sha1(s.encode()).hexdigest()[:6])


def run_all(ctx, P, shapes):
    sent = set()

    def one(s):
        try:
            r = P.run(s.text, **s.kw)
        except Failed as x:
            if s.fails is not None:
                return ('ok', '', []) if s.fails in str(x) else ('bad', 'the analyzer raises %s' % str(x)[:300], [])
            return ('bad', 'the analyzer raises: %s' % str(x)[:300], [])
        except (Undecided, Budget) as x:
            return ('unknown', '%s %s' % (type(x).__name__, str(x)[:160]), [])
        except AnalysisBroken as x:
            return ('broken', str(x), [])
        except RecursionError:
            return ('unknown', 'recursion', [])
        def fresh():
            fs = sorted(r.funcs - sent)
            sent.update(fs)
            return fs
        if s.fails is not None:
            return ('bad', 'it is accepted', fresh())
        fs = []
        try:
            m = s.judge(r)
            fs = fresh()
        except Failed as x:
            return ('bad', 'the analysis raises: %s' % str(x)[:300], fs)
        except Opaque as x:
            return ('unknown', str(x)[:160], fs)
        except Exception as x:      # a result the judge cannot read
            return ('unknown', 'judge: %s %s' % (type(x).__name__, str(x)[:160]), fs)
        return ('ok', '', fs) if m is None else ('bad', m, fs)
    res = pmap(one, shapes)
    for s, r in zip(shapes, res):
        if r is None:
            ctx.unknown(s.rule, s.key, 'worker ended')
            continue
        ctx.functions.update(r[2])
        if r[0] == 'broken':
            raise AnalysisBroken(r[1])
        if r[0] == 'ok':
            ctx.ok(s.rule, s.key)
        elif r[0] == 'unknown':
            ctx.unknown(s.rule, s.key, r[1])
        else:
            ctx.bad(s.rule, s.key, s.what or 'the dataflow of this shape differs from the program', s.where,
                    '%s | program: %s' % (r[1], short(s.text, 400)))


def pipeline(ctx):
    return Pipeline(ctx.repo)


def locate(repo, *names):
    """'file:line' of the first function that exists among dotted names (module.Class.method)."""
    for n in names:
        m, _, rest = n.rpartition('.')
        c = None
        try:
            c = repo.cls(m)
        except Exception:
            pass
        if c is not None:
            f = repo.find_method(c, rest)
            if f is not None:
                return f.where()
    return names[0] if names else ''
