"""Bit-level meaning of dataflow trees: bit i of a tree as a term over the bits of signals, under outcomes of its conditions."""
from .flow import Malformed, const, decide, value_none


class Widths(object):
    """name -> (low index, width) of vectors; arrays: width of an element."""

    def __init__(self, terms):
        self.t = {}
        for n, (ty, m, l, d) in terms.items():
            try:
                m, l = int(m.replace('=', '')), int(l.replace('=', ''))
            except ValueError:
                m, l = 31, 0
            self.t[n] = (min(m, l), abs(m - l) + 1, d is not None)

    def low(self, n):
        return self.t.get(n, (0, 32, False))[0]

    def width(self, n):
        return self.t.get(n, (0, 32, False))[1]

    def array(self, n):
        return self.t.get(n, (0, 32, False))[2]


BITWISE = {'And': '&', 'Or': '|', 'Xor': '^', 'Xnor': '~^'}


def literal(e):
    """(value, width) of a constant."""
    if e[0] == 'V':
        return int(e[1]), 32
    s = e[2].replace('_', '')
    if "'" not in s:
        return int(s), 32
    w, r = s.split("'")
    r = r.lstrip('sS')
    return int(r[1:], {'b': 2, 'o': 8, 'd': 10, 'h': 16}[r[0].lower()]), int(w) if w else 32


def plain_const(e):
    """Constant value of an index expression, folding + - *."""
    if e is None:
        return None
    if e[0] == 'V':
        return int(e[1])
    if e[0] == 'K' and e[1] == 'Int':
        return literal(e)[0]
    if e[0] == 'op' and e[1] in ('Plus', 'Minus', 'Times') and len(e) == 4:
        x, y = plain_const(e[2]), plain_const(e[3])
        if x is not None and y is not None:
            return {'Plus': x + y, 'Minus': x - y, 'Times': x * y}[e[1]]
    return None


class Bits(object):
    def __init__(self, widths, known, env=None):
        self.w, self.known, self.env = widths, known, env or (lambda n: None)

    def need(self, e):
        return decide(value_none(e, lambda n: ('T', n), self.known), self.known)

    def width(self, e):
        if e is None:
            raise Malformed('a missing operand')
        k = e[0]
        if k == 'T':
            v = self.env(e[1])
            return self.width(v) if v is not None else self.w.width(e[1])
        if k in ('K', 'V'):
            return literal(e)[1]
        if k in ('U', 'H'):
            if e[1] < 1:
                raise Malformed('an undefined value of width %s' % e[1])
            return e[1]
        if k == '?':
            return self.width(e[2] if self.need(e[1]) else e[3])
        if k == 'cat':
            return sum(self.width(x) for x in e[1:])
        if k == '[:]':
            m, l = plain_const(e[2]), plain_const(e[3])
            if m is None or l is None:
                return 1 if e[2] == e[3] else 32
            return abs(m - l) + 1
        if k == '[]':
            return self.w.width(e[1][1]) if e[1][0] == 'T' and self.w.array(e[1][1]) else 1
        if k == 'op' and e[1] in BITWISE:
            return max(self.width(x) for x in e[2:])
        if k == 'op' and e[1] == 'Unot':
            return self.width(e[2])
        if k == 'op' and (e[1] in ('Land', 'Lor', 'Ulnot', 'Eq', 'NotEq', 'Eql', 'NotEql', 'LessThan', 'LessEq', 'GreaterThan', 'GreaterEq') or
                          e[1] in ('Uand', 'Uor', 'Uxor', 'Unand', 'Unor', 'Uxnor')):
            return 1
        if k == 'delay':
            return self.width(e[1])
        return 32

    def word(self, e):
        """Canonical form of an uninterpreted operand."""
        if e is None:
            raise Malformed('a missing operand')
        if e[0] in ('T', 'K', 'V', '[:]', 'cat', '?') or (e[0] == 'op' and (e[1] in BITWISE or e[1] == 'Unot')):
            return tuple(self.bit(e, i) for i in range(self.width(e)))
        return (e[0],) + tuple(self.word(x) if isinstance(x, tuple) or x is None else x for x in e[1:])

    def bit(self, e, i):
        """Bit i (from the right, 0) of the value of e."""
        if e is None:
            raise Malformed('a missing operand')
        k = e[0]
        if k == 'T':
            v = self.env(e[1])
            if v is not None:
                return self.bit(v, i)
            return ('b', e[1], i) if 0 <= i < self.w.width(e[1]) else '0'
        if k in ('K', 'V'):
            return str(literal(e)[0] >> i & 1)
        if k in ('U', 'H'):
            return 'x'
        if k == '?':
            return self.bit(e[2] if self.need(e[1]) else e[3], i)
        if k == 'delay':
            return self.bit(e[1], i)
        if k == 'cat':
            for x in reversed(e[1:]):
                w = self.width(x)
                if i < w:
                    return self.bit(x, i)
                i -= w
            return '0'
        if k == '[:]':
            m, l = plain_const(e[2]), plain_const(e[3])
            low = self.w.low(e[1][1]) if e[1][0] == 'T' and not self.w.array(e[1][1]) else 0
            if e[1][0] == 'T' and self.env(e[1][1]) is not None:
                low = 0
            if m is None or l is None:
                return ('sel', self.word(e[1]), self.word(e[2]), self.word(e[3]), i)
            return self.bit(e[1], min(m, l) - low + i) if i <= abs(m - l) else '0'
        if k == '[]':
            p = plain_const(e[2])
            if e[1][0] == 'T' and self.w.array(e[1][1]):
                return ('elem', e[1][1], p if p is not None else self.word(e[2]), i) if i < self.w.width(e[1][1]) else '0'
            if p is None:
                return ('sel', self.word(e[1]), self.word(e[2]), self.word(e[2]), i)
            low = self.w.low(e[1][1]) if e[1][0] == 'T' else 0
            return self.bit(e[1], p - low) if i == 0 else '0'
        if k == 'op' and e[1] in BITWISE and len(e) == 4:
            return (BITWISE[e[1]], self.bit(e[2], i), self.bit(e[3], i))
        if k == 'op' and e[1] == 'Unot':
            return ('~', self.bit(e[2], i))
        if k == 'op' or k == 'sys':
            return ('f', e[1], tuple(self.word(x) for x in e[2:]), i)
        raise Malformed('node %s' % k)


def apply(state, l, widths, known, env=None):
    """Applies a binding list to state: (name, element, position) -> bit; a binding that selects no value leaves it."""
    B = Bits(widths, known, env)
    for b in l:
        t = b.tree
        while t is not None and t[0] == '?':
            t = t[2] if B.need(t[1]) else t[3]
        if t is None:
            continue
        ptr = None if b.ptr is None else plain_const(b.ptr)
        if b.ptr is not None and ptr is None:
            ptr = B.word(b.ptr)
        low, w = widths.low(b.dest), widths.width(b.dest)
        if b.msb is None:
            lo, hi = 0, w - 1
        else:
            m, x = plain_const(b.msb), plain_const(b.lsb)
            if m is None or x is None:
                raise Malformed('variable range of %s' % b.dest)
            lo, hi = min(m, x) - low, max(m, x) - low
        for i in range(lo, hi + 1):
            state[(b.dest, ptr, i)] = B.bit(t, i - lo)
    return state
