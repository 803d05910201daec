"""Code generation.  For every sentential form of the concrete-syntax table and of the declaration combinations,
in a complete source text with uninterpreted words as leaves, the syntax tree is composed from the parser's
actions, printed by abstract evaluation of the generator's visitors and of its parsed templates, split by the
lexical grammar, parsed by the rebuilt automaton and composed again: both trees must be equal up to line numbers.
Expressions take every shape of a list of operand shapes, names are plain and escaped."""
import os

from ..repo import AnalysisBroken
from ..roundtrip import RoundTrip, SHAPES
from ..spec_grammar import FORMS, parse_forms
from ..spec_lists import TEXT as LISTS
from . import c02
from .c01 import form_name

ASSUMPTIONS = [
    'trees are those parsing can produce; a declaration list may be written as several declarations',
    'jinja2 renders a template as its syntax tree says; textwrap.indent only inserts blanks',
]

_rt = [None]


def worker(job):
    key, toks, escaped = job
    r = _rt[0].run(toks, escaped)
    return key, r.status, r.what, r.cls, sorted(r.funcs)


def jobs(R, thorough):
    out = []
    seen = set()
    forms = [(s, f, 'form') for s, f, w in parse_forms(FORMS) if w != 'REJECT']
    forms += [(s, f, 'list') for s, f, w in parse_forms(LISTS)]
    for rule, line in c02.forms(thorough):
        forms += [(s, f, 'decl') for s, f, w in parse_forms(line) if w != 'REJECT']
    for n, (start, form, kind) in enumerate(forms):
        syms = [s for s, _ in form]
        key = form_name(start, form)
        if start not in R.S.G.nts or R.S.missing(form)[0]:
            out.append((kind + ':' + key, None, False))
            continue
        hasx = any(s in ('expression', 'rvalue') for s in syms)
        for sh in ([0] + (list(range(1, len(SHAPES) + 1)) if thorough else [1 + n % len(SHAPES), 1 + (n * 5 + 2) % len(SHAPES)])
                   if hasx else [0]):
            for esc in ((False, True) if sh == 0 and (kind == 'form' or thorough) else (False,)):
                toks = R.expand(start, syms, sh)
                if toks is None:
                    out.append((kind + ':' + key, None, False))
                    continue
                t = (tuple(toks), esc)
                if t in seen:
                    continue
                seen.add(t)
                out.append(('%s:%s%s%s' % (kind, key, '/x%d' % sh if sh else '', '/escaped' if esc else ''), toks, esc))
    return out


def parallel(fn, todo):
    import multiprocessing
    n = min(8, os.cpu_count() or 1)
    if n < 2 or len(todo) < 40:
        return [fn(j) for j in todo]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(n) as p:
        return p.map(fn, todo, chunksize=max(1, len(todo) // (n * 6)))


def check(ctx):
    R = RoundTrip(ctx.repo)
    _rt[0] = R
    todo = jobs(R, ctx.tier == 'thorough')
    where = 'pyverilog/ast_code_generator/codegen.py'
    run = [j for j in todo if j[1] is not None]
    for j in todo:
        if j[1] is None:
            ctx.unknown('print', j[0], 'the form is not in the grammar')
    for key, status, what, cls, funcs in parallel(worker, run):
        ctx.functions.update(funcs)
        if status == 'ok':
            ctx.ok('print', key + ' -> ' + what)
        elif status in ('skip', 'unknown'):
            ctx.unknown('print', key, what)
        else:
            m = R.P.cls.methods.get('visit_%s' % cls) if cls else None
            ctx.bad('print', key, what, m.where() if m is not None else where)
    ctx.floor('print', 400)
