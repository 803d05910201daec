"""Readable forms of the analyzer's results: chains as dotted names, dataflow trees as nested tuples."""
import re

from .engine import K, NONE, kv, show


class Opaque(Exception):
    """A part of the result is not a definite tree."""


def field(t, n):
    for k, v in t.a[1]:
        if k == n:
            return v
    raise Opaque('no %s in %s' % (n, show(t, 3)))


def fields(t):
    return dict(t.a[1])


def cls(t):
    return t.a[0].split('.')[-1] if t.k == 'Inst' else None


def items(t):
    if t.k in ('List', 'Tup', 'Set', 'FSet'):
        for x in t.a[0]:
            if x.k in ('Star', 'Opt', 'Spread', 'Hole'):
                raise Opaque(show(x, 3))
        return list(t.a[0])
    raise Opaque('not a sequence: %s' % show(t, 3))


def py(t):
    """A constant term as a Python value."""
    if t.k == 'K':
        return kv(t)
    if t.k in ('List', 'Tup'):
        return tuple(py(x) for x in items(t))
    raise Opaque('not a constant: %s' % show(t, 3))


def label(t):
    l = fields(t)
    loop = l.get('scopeloop', NONE)
    return py(l['scopename']) + ('' if loop is NONE else '[%s]' % py(loop))


def chain(t):
    if t is NONE:
        return None
    if cls(t) != 'ScopeChain':
        raise Opaque('not a scope chain: %s' % show(t, 3))
    return '.'.join(label(x) for x in items(field(t, 'scopechain')))


def chain_types(t):
    return [py(field(x, 'scopetype')) for x in items(field(t, 'scopechain'))]


def df(t):
    """Dataflow tree term -> tuple tree."""
    if t is NONE:
        return None
    c = cls(t)
    f = fields(t) if t.k == 'Inst' else {}
    if c == 'DFTerminal':
        return ('T', chain(f['name']))
    if c in ('DFIntConst', 'DFFloatConst', 'DFStringConst', 'DFConstant'):
        return ('K', c[2:-5] if c != 'DFConstant' else '', py(f['value']))
    if c == 'DFEvalValue':
        return ('V', py(f['value']))
    if c == 'DFUndefined':
        return ('U', py(f['width']))
    if c == 'DFHighImpedance':
        return ('H', py(f['width']))
    if c == 'DFBranch':
        return ('?', df(f['condnode']), df(f['truenode']), df(f['falsenode']))
    if c == 'DFOperator':
        return ('op', py(f['operator'])) + tuple(df(x) for x in items(f['nextnodes']))
    if c == 'DFConcat':
        return ('cat',) + tuple(df(x) for x in items(f['nextnodes']))
    if c == 'DFPartselect':
        return ('[:]', df(f['var']), df(f['msb']), df(f['lsb']))
    if c == 'DFPointer':
        return ('[]', df(f['var']), df(f['ptr']))
    if c == 'DFDelay':
        return ('delay', df(f['nextnode']))
    if c == 'DFSyscall':
        return ('sys', py(f['syscall'])) + tuple(df(x) for x in items(f['nextnodes']))
    raise Opaque('not a dataflow node: %s' % show(t, 3))


def text(d):
    """Compact rendering of a tuple tree."""
    if d is None:
        return '-'
    k = d[0]
    if k == 'T':
        return str(d[1])
    if k == 'K':
        return "%s" % d[2] if d[1] != 'String' else '"%s"' % d[2]
    if k == 'V':
        return '=%s' % d[1]
    if k in ('U', 'H'):
        return '%s%s' % (k, d[1])
    if k == '?':
        return '(%s ? %s : %s)' % tuple(text(x) for x in d[1:])
    if k in ('op', 'sys'):
        return '%s(%s)' % (d[1], ', '.join(text(x) for x in d[2:]))
    if k == 'cat':
        return '{%s}' % ', '.join(text(x) for x in d[1:])
    if k == '[:]':
        return '%s[%s:%s]' % tuple(text(x) for x in d[1:])
    if k == '[]':
        return '%s[[%s]]' % tuple(text(x) for x in d[1:])
    return '%s(%s)' % (k, text(d[1]))


class B(object):
    """One binding."""
    __slots__ = ('dest', 'msb', 'lsb', 'ptr', 'tree', 'kind', 'always')

    def __repr__(self):
        rng = ''
        if self.ptr is not None:
            rng += '[[%s]]' % text(self.ptr)
        if self.msb is not None or self.lsb is not None:
            rng += '[%s:%s]' % (text(self.msb), text(self.lsb))
        return '%s%s%s <- %s' % (self.dest, rng, ' (%s)' % self.kind if self.kind else '', text(self.tree))


def always(t):
    """(clock, edge, bit, reset, edge, bit, number of other sensitivities) of an AlwaysInfo term."""
    if t is NONE:
        return None
    f = fields(t)
    return (chain(f['clock_name']), py(f['clock_edge']), py(f['clock_bit']),
            chain(f['reset_name']), py(f['reset_edge']), py(f['reset_bit']), len(items(f['senslist'])))


def bind(t):
    f = fields(t)
    b = B()
    b.dest = chain(f['dest'])
    b.msb, b.lsb, b.ptr = df(f['msb']), df(f['lsb']), df(f['ptr'])
    b.tree = df(f['tree'])
    b.kind = py(f['parameterinfo'])
    b.always = always(f['alwaysinfo'])
    return b


def entries(E, ref, st):
    t = E.snap(ref, st)
    if t.k != 'Dict':
        raise Opaque('not a table: %s' % show(t, 3))
    if t.a[1]:
        raise Opaque('open table')
    return [(k, v) for k, v in t.a[0]]


def binds(run):
    """name -> list of bindings, in table order."""
    return dict((chain(k), [bind(x) for x in items(v)]) for k, v in entries(run.E, run.binddict, run.st))


def terms(run):
    """name -> (types, msb, lsb, dims)."""
    res = {}
    for k, v in entries(run.E, run.terms, run.st):
        f = fields(v)
        dims = None if f['dims'] is NONE else tuple(tuple(text(df(y)) for y in items(x)) for x in items(f['dims']))
        res[chain(k)] = (tuple(sorted(py(x) for x in items(f['termtype']))), text(df(f['msb'])), text(df(f['lsb'])), dims)
    return res


HIDDEN = re.compile(r'^(md_|ge_|al_|in_|fc_|tc_)+(generate|always|if|block|initial)\d+(_ELSE)?$')
LOOP = re.compile(r'^((md_|ge_|al_|in_|fc_|tc_)+(for|while)\d+|for|while)\[(.*)\]$')


def plain(name):
    """A scope path as the source names it: unnamed scopes dropped, iteration numbers moved to the block named next."""
    out, idx = [], ''
    for x in name.split('.'):
        if HIDDEN.match(x):
            continue
        m = LOOP.match(x)
        if m:
            idx += '[%s]' % m.group(4)
            continue
        out.append(x + idx)
        idx = ''
    return '.'.join(out)


def plain_tree(d):
    if not isinstance(d, tuple):
        return d
    if d[:1] == ('T',):
        return ('T', plain(d[1]) if d[1] is not None else None)
    return tuple(plain_tree(x) for x in d)
