"""Dataflow trees as tuples, put on the heap of the engine through the repository's own constructors, read back, and given a
meaning: value, unknown bits and width under an assignment of the terminals (unsigned, arithmetic on unbounded integers).

('T', name) ('K', text) ('V', value, width) ('U', width) ('H', width) ('F', text) ('S', text) ('op', operator, ...) ('[:]', var, msb, lsb)
('[]', var, ptr) ('cat', ...) ('?', cond, true, false) ('delay', x) ('sys', name, ...)"""
import itertools

from .dfshape import Opaque, cls, field, fields, items, py
from .engine import K, NONE, mk

D = 'dataflow.dataflow.'
COMPARE = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
ONE_BIT = COMPARE + ('Land', 'Lor', 'Ulnot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
BOOL = ('Land', 'Lor', 'Ulnot')


class Tree(object):
    """Builder and reader of trees on one engine."""

    def __init__(self, E, st):
        self.E, self.st = E, st
        self.names = {}

    def new(self, c, args, kw=None):
        E = self.E
        return E.call(E.cls_term(E.repo.cls(c)), args, kw or {}, self.st)

    def name(self, n):
        """Scope chain TOP.n."""
        if n not in self.names:
            L = [self.new('utils.scope.ScopeLabel', [K(x), K(t)]) for x, t in (('TOP', 'module'), (n, 'signal'))]
            self.names[n] = self.new('utils.scope.ScopeChain', [self.E.new_list(self.st, L)])
        return self.names[n]

    def build(self, t):
        if t is None:
            return NONE
        k = t[0]
        b = self.build
        seq = lambda x: mk('Tup', tuple(b(y) for y in x))
        if k == 'T':
            return self.new(D + 'DFTerminal', [self.name(t[1])])
        if k == 'K':
            return self.new(D + 'DFIntConst', [K(t[1])])
        if k == 'F':
            return self.new(D + 'DFFloatConst', [K(t[1])])
        if k == 'S':
            return self.new(D + 'DFStringConst', [K(t[1])])
        if k == 'V':
            return self.new(D + 'DFEvalValue', [K(t[1]), K(t[2])])
        if k == 'U':
            return self.new(D + 'DFUndefined', [K(t[1])])
        if k == 'H':
            return self.new(D + 'DFHighImpedance', [K(t[1])])
        if k == 'op':
            return self.new(D + 'DFOperator', [seq(t[2:]), K(t[1])])
        if k == '[:]':
            return self.new(D + 'DFPartselect', [b(x) for x in t[1:]])
        if k == '[]':
            return self.new(D + 'DFPointer', [b(x) for x in t[1:]])
        if k == 'cat':
            return self.new(D + 'DFConcat', [seq(t[1:])])
        if k == '?':
            return self.new(D + 'DFBranch', [b(x) for x in t[1:]])
        if k == 'delay':
            return self.new(D + 'DFDelay', [b(t[1])])
        if k == 'sys':
            return self.new(D + 'DFSyscall', [K(t[1]), seq(t[2:])])
        raise ValueError(k)

    def read(self, ref):
        return self.df(self.E.snap(ref, self.st))

    def df(self, t):
        if t is NONE:
            return None
        c = cls(t)
        f = fields(t) if t.k == 'Inst' else {}
        seq = lambda n: tuple(self.df(x) for x in items(f[n]))
        if c == 'DFTerminal':
            return ('T', py(field(items(field(f['name'], 'scopechain'))[-1], 'scopename')))
        if c == 'DFIntConst':
            return ('K', py(f['value']))
        if c == 'DFFloatConst':
            return ('F', py(f['value']))
        if c == 'DFStringConst':
            return ('S', py(f['value']))
        if c == 'DFEvalValue':
            return ('V', py(f['value']), py(f['width']))
        if c in ('DFUndefined', 'DFHighImpedance'):
            return (c[2], py(f['width']))
        if c == 'DFOperator':
            return ('op', py(f['operator'])) + seq('nextnodes')
        if c == 'DFPartselect':
            return ('[:]', self.df(f['var']), self.df(f['msb']), self.df(f['lsb']))
        if c == 'DFPointer':
            return ('[]', self.df(f['var']), self.df(f['ptr']))
        if c == 'DFConcat':
            return ('cat',) + seq('nextnodes')
        if c == 'DFBranch':
            return ('?', self.df(f['condnode']), self.df(f['truenode']), self.df(f['falsenode']))
        if c == 'DFDelay':
            return ('delay', self.df(f['nextnode']))
        if c == 'DFSyscall':
            return ('sys', py(f['syscall'])) + seq('nextnodes')
        raise Opaque('not a dataflow node')


def text(d):
    if d is None:
        return '-'
    k = d[0]
    if k == 'V':
        return "%s" % (d[1],) if d[2] is None else "%s:%s" % (d[1], d[2])
    if k in ('T', 'K', 'F', 'S', 'Vf', 'Vs'):
        return str(d[1])
    if k in ('U', 'H'):
        return '%s%s' % (k, d[1])
    if k == '?':
        return '(%s ? %s : %s)' % tuple(text(x) for x in d[1:])
    if k in ('op', 'sys'):
        return '%s(%s)' % (d[1], ', '.join(text(x) for x in d[2:]))
    if k == 'cat':
        return '{%s}' % ', '.join(text(x) for x in d[1:])
    if k == '[:]':
        return '%s[%s:%s]' % tuple(text(x) for x in d[1:])
    if k == '[]':
        return '%s[[%s]]' % tuple(text(x) for x in d[1:])
    return '%s(%s)' % (k, text(d[1]))


def literal(s):
    """(value or None if it has x or z bits, width) of an integer literal."""
    s = s.replace('_', '')
    if "'" not in s:
        return int(s), 32
    w, r = s.split("'")
    r = r.lstrip('sS')
    w = int(w) if w.strip() else 32
    if set(r[1:].lower()) & set('xz?'):
        return None, w
    return int(r[1:], {'b': 2, 'o': 8, 'd': 10, 'h': 16}[r[0].lower()]), w


class Bad(Exception):
    """The tree has no meaning (a missing operand)."""


class Meaning(object):
    """sig: terminal -> (low index, width)."""

    def __init__(self, sig, const=()):
        self.sig, self.const = sig, dict(const)

    def width(self, t):
        if t is None:
            raise Bad('a missing operand')
        k = t[0]
        if k == 'T':
            return self.sig[t[1]][1]
        if k == 'K':
            return literal(t[1])[1]
        if k == 'V':
            return 32 if t[2] is None else t[2]
        if k in ('U', 'H'):
            return t[1]
        if k == 'op':
            return 1 if t[1] in ONE_BIT else max(self.width(x) for x in t[2:])
        if k == 'cat':
            return sum(self.width(x) for x in t[1:])
        if k == '[:]':
            if t[2] == t[3]:
                return 1
            m, l = self.ev(t[2], {}), self.ev(t[3], {})
            return abs(m[0] - l[0]) + 1
        if k == '[]':
            return 1
        if k == '?':
            if t[2] is None and t[3] is None:
                raise Bad('a branch without values')
            return max(self.width(x) for x in t[2:] if x is not None)
        if k == 'delay':
            return self.width(t[1])
        return 32

    def ev(self, t, env):
        """(value, mask of unknown bits)."""
        if t is None:
            raise Bad('a missing operand')
        k = t[0]
        if k == 'T':
            if t[1] in self.const:
                return self.const[t[1]], 0
            return env[t[1]], 0
        if k == 'K':
            v, w = literal(t[1])
            return (v, 0) if v is not None else (0, (1 << w) - 1)
        if k == 'V':
            return t[1], 0
        if k in ('U', 'H'):
            if t[1] < 1:
                raise Bad('an undefined value of width %s' % t[1])
            return 0, (1 << t[1]) - 1
        if k == 'cat':
            v = x = 0
            for n in t[1:]:
                a, b = self.ev(n, env)
                w = self.width(n)
                m = (1 << w) - 1
                v, x = v << w | a & m & ~b, x << w | b & m
            return v, x
        if k == '[:]':
            v, x = self.ev(t[1], env)
            (m, y), (l, z) = self.ev(t[2], env), self.ev(t[3], env)
            if y or z:
                return 0, 1
            low = self.sig[t[1][1]][0] if t[1][0] == 'T' and t[1][1] in self.sig else 0
            m, l = max(m, l) - low, min(m, l) - low
            w = m - l + 1
            tw = self.width(t[1])
            out = sum(1 << i for i in range(w) if not 0 <= l + i < tw)
            s = lambda n: n >> l if l >= 0 else n << -l
            mask = (1 << w) - 1
            return s(v) & mask & ~out, (s(x) | out) & mask
        if k == '[]':
            return self.ev(('[:]', t[1], t[2], t[2]), env)
        if k == '?':
            c, x = self.ev(t[1], env)
            if c & ~x:
                return self.side(t[2], t[3], env)
            if x:
                raise Bad('an unknown condition')
            return self.side(t[3], t[2], env)
        if k == 'delay':
            return self.ev(t[1], env)
        if k == 'op':
            return self.op(t, env)
        raise Bad('no meaning: %s' % k)

    def spine(self, t, env):
        """The tree the conditions select, None if none."""
        while t is not None and t[0] == '?':
            c, x = self.ev(t[1], env)
            if x and not c & ~x:
                raise Bad('an unknown condition')
            t = t[2] if c & ~x else t[3]
        return t

    def side(self, t, other, env):
        """A missing side of a branch: no value."""
        if t is None:
            return 0, (1 << self.width(other)) - 1
        return self.ev(t, env)

    def op(self, t, env):
        o = t[1]
        a = [self.ev(x, env) for x in t[2:]]
        if o in ('Land', 'Lor', 'Ulnot'):
            b = [1 if v & ~x else (None if x else 0) for v, x in a]
            if o == 'Ulnot':
                return (0, 1) if b[0] is None else (1 - b[0], 0)
            stop = 0 if o == 'Land' else 1
            if stop in b:
                return stop, 0
            return (0, 1) if None in b else (1 - stop, 0)
        if any(x for _, x in a):
            w = self.width(t)
            return 0, (1 << w) - 1
        v = [x for x, _ in a]
        w = max(self.width(x) for x in t[2:])
        m = (1 << w) - 1
        r = fold(o, v, w, m)
        return (0, (1 << self.width(t)) - 1) if r is None else (r, 0)


def fold(o, v, w, m):
    """The operator on integers; w: width of the widest operand.  None: unknown."""
    one = lambda x: 1 if x else 0
    if len(v) == 1:
        x = v[0]
        n = bin(x & m).count('1')
        return {'Uplus': x, 'Uminus': -x, 'Ulnot': one(x == 0), 'Unot': ~x & m, 'Uand': one(n == w), 'Unand': one(n != w), 'Uor': one(n), 'Unor': one(not n),
                'Uxor': n & 1, 'Uxnor': 1 - (n & 1)}[o]
    x, y = v
    if o in ('Divide', 'Mod'):
        if y == 0:
            return None
        q = abs(x) // abs(y)
        q = q if (x < 0) == (y < 0) else -q
        return q if o == 'Divide' else x - q * y
    if o == 'Power':
        return x ** y if y >= 0 else None
    if o in ('Sll', 'Sla'):
        return x << y if 0 <= y < 200 else None
    if o == 'Srl':
        return (x & m if x < 0 else x) >> y if y >= 0 else None
    if o == 'Sra':
        return x >> y if y >= 0 else None
    return {'Plus': x + y, 'Minus': x - y, 'Times': x * y, 'And': x & y, 'Or': x | y, 'Xor': x ^ y, 'Xnor': ~(x ^ y) & m, 'LessThan': one(x < y),
            'GreaterThan': one(x > y), 'LessEq': one(x <= y), 'GreaterEq': one(x >= y), 'Eq': one(x == y), 'NotEq': one(x != y), 'Eql': one(x == y),
            'NotEql': one(x != y), 'Land': one(x and y), 'Lor': one(x or y)}[o]


def leaves(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t[:1] == ('T',):
            out.add(t[1])
        else:
            for x in t[1:]:
                leaves(x, out)
    return out


def differ(M, before, after, truth, limit=4096):
    """None, or a description of an assignment under which the two trees differ.  truth: only zero or not zero matters."""
    names = sorted(n for n in leaves(before) | leaves(after) if n not in M.const)
    for n in names:
        if n not in leaves(before):
            return 'it reads %s' % n
    for i, vals in enumerate(itertools.product(*[range(1 << M.sig[n][1]) for n in names])):
        if i >= limit:
            break
        env = dict(zip(names, vals))
        try:
            x = M.spine(before, env)
            b = M.ev(x, env) if x is not None else None
        except Bad:
            continue        # no meaning before: anything goes
        try:
            y = M.spine(after, env)
            a = M.ev(y, env) if y is not None else None
        except Bad as x:
            return '%s%s' % (x, at(env))
        if b is None or a is None:
            v = a or b
            if v is not None and not (v[0] == 0 and v[1]):
                return 'it has %s value%s' % ('a' if b is None else 'no', at(env))
            continue
        if truth:
            if b[1] == 0 and (a[1] or bool(a[0]) != bool(b[0])):
                return 'it is %s instead of %s%s' % (bool(a[0]), bool(b[0]), at(env))
        elif a != b and not (b[1] and (a[0] & ~b[1], a[1] & ~b[1]) == (b[0], 0)):
            return 'its value is %s instead of %s%s' % (pv(a), pv(b), at(env))
    return None


def pv(a):
    return str(a[0]) if not a[1] else '%s (unknown %s)' % (bin(a[0]), bin(a[1]))


def at(env):
    return ' for ' + ', '.join('%s=%s' % kv for kv in sorted(env.items())) if env else ''
