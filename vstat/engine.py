"""Value-graph abstract interpreter over the Python source of the analysed repository.

It turns a function into a *gated value graph*: every value is a hash-consed term
recording where it came from; control-flow merges become gates Gam(cond, a, b); loops over
unknown collections are summarised as Star(iterable, ...) items, folds or `Loop` values.
No code of the repository is executed, no path is enumerated to a solver: conditions are
decided only by constant folding, nullness/type facts of the scenario, and facts that
dominate the program point.  Everything that is not understood becomes an uninterpreted
term that keeps its operands, so that "where does this value flow" stays answerable.
"""
import ast
import re
import string

from .repo import AnalysisBroken, Class, Func, Module, walk_own

# ------------------------------------------------------------------ terms


class T(object):
    __slots__ = ('k', 'a', 'n')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (mk, (self.k,) + self.a)


_intern = {}
_counter = [0]


def mk(k, *a):
    key = (k,) + a
    t = _intern.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        _counter[0] += 1
        t.n = _counter[0]
        _intern[key] = t
    return t


def K(v):
    return mk('K', type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
UNDEF = mk('Undef')


def isK(t, v=None):
    return t.k == 'K' and (v is None or (t.a[1] == v and t.a[0] == type(v).__name__))


def kv(t):
    return t.a[1]


def Sym(name):
    return mk('Sym', name)


def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        todo.extend(kids(x))


def contains(t, x):
    for y in subterms(t):
        if y is x:
            return True
    return False


def rewrite(t, f, memo=None):
    """Bottom-up rewriting; f(term) -> term."""
    if memo is None:
        memo = {}
    r = memo.get(id(t))
    if r is not None:
        return r

    def go(x):
        if isinstance(x, T):
            return rewrite(x, f, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    if t.k in ('K', 'Sym', 'Ref', 'Fn', 'Cls', 'Mod', 'Bi', 'Undef'):
        n = t
    else:
        n = mk(t.k, *[go(x) for x in t.a])
        if n.k == 'Gam':
            n = gam(*n.a)
        elif n.k == 'Cat':
            n = cat(n.a[0])
        elif n.k == 'Not':
            n = neg(n.a[0])
    n = f(n)
    memo[id(t)] = n
    return n


def show(t, depth=12):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '...'
    d = depth - 1
    if t.k == 'K':
        return repr(t.a[1])
    if t.k == 'Sym':
        return t.a[0]
    if t.k == 'Attr':
        return '%s.%s' % (show(t.a[0], d), t.a[1])
    if t.k == 'Item':
        return '%s[%s]' % (show(t.a[0], d), show(t.a[1], d))
    if t.k == 'Gam':
        return '(%s if %s else %s)' % (show(t.a[1], d), show(t.a[0], d), show(t.a[2], d))
    if t.k == 'Tup':
        return '(' + ', '.join(show(x, d) for x in t.a[0]) + ')'
    if t.k == 'List':
        return '[' + ', '.join(show(x, d) for x in t.a[0]) + ']'
    if t.k == 'Star':
        return '*{%s for %s}' % (', '.join(show(x, d) for x in t.a[1]), show(t.a[0], d))
    if t.k == 'Opt':
        return '?{%s: %s | %s}' % (show(t.a[0], d), ', '.join(show(x, d) for x in t.a[1]),
                                   ', '.join(show(x, d) for x in t.a[2]))
    if t.k == 'Inst':
        return '%s(%s)' % (t.a[0].rpartition('.')[2], ', '.join('%s=%s' % (n, show(v, d)) for n, v in t.a[1]))
    if t.k == 'Call':
        return '%s(%s)' % (show(t.a[0], d), ', '.join([show(x, d) for x in t.a[1]] +
                                                       ['%s=%s' % (n, show(v, d)) for n, v in t.a[2]]))
    if t.k == 'Cat':
        return 'cat(' + ' ~ '.join(show(x, d) for x in t.a[0]) + ')'
    if t.k in ('Cls', 'Mod', 'Bi'):
        return '<%s>' % t.a[0]
    if t.k == 'Ref':
        return '&%d' % t.a[0]
    return '%s(%s)' % (t.k, ', '.join(show(x, d) for x in t.a))


# ------------------------------------------------------------------ smart constructors

def neg(c):
    if c.k == 'K':
        return K(not kv(c))
    if c.k == 'Not':
        return c.a[0]
    return mk('Not', c)


def atom(c):
    """(atom, positive)"""
    pos = True
    while c.k == 'Not':
        c = c.a[0]
        pos = not pos
    return c, pos


def gam(c, a, b):
    if a is b:
        return a
    if c.k == 'K':
        return a if kv(c) else b
    c, pos = atom(c)
    if not pos:
        a, b = b, a
    # prune nested gates on the same condition
    while a.k == 'Gam' and a.a[0] is c:
        a = a.a[1]
    while b.k == 'Gam' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c if is_boolish(c) else mk('Gam', c, a, b)
    if a is FALSE and b is TRUE:
        return neg(c)
    return mk('Gam', c, a, b)


BOOLISH = ('Not', 'Eq', 'Lt', 'Le', 'Is', 'In', 'IsA', 'Any', 'All', 'Has', 'And', 'Or')


def is_boolish(c):
    return c.k in BOOLISH or (c.k == 'K' and c.a[0] == 'bool')


def cat(pieces):
    out = []
    for p in pieces:
        if p.k == 'Cat':
            q = list(p.a[0])
        elif p.k == 'Str' and p.a[0].k in ('Cat', 'Str'):
            q = [p.a[0]]
        else:
            q = [p]
        for x in q:
            if x.k == 'K' and x.a[0] == 'str':
                if kv(x) == '':
                    continue
                if out and isK(out[-1]) and out[-1].a[0] == 'str':
                    out[-1] = K(kv(out[-1]) + kv(x))
                    continue
            out.append(x)
    if not out:
        return K('')
    if len(out) == 1 and out[0].k in ('K', 'Str'):
        return out[0]
    return mk('Cat', tuple(out))


def star(it, items):
    items = tuple(items)
    # Star over elements themselves == Spread
    if len(items) == 1 and items[0] is mk('Elem', it):
        return mk('Spread', it)
    return mk('Star', it, items)


def opt(c, a, b):
    a, b = tuple(a), tuple(b)
    if a == b:
        return a
    c, pos = atom(c)
    if c.k == 'K':
        return a if (kv(c) == pos) else b
    if not pos:
        a, b = b, a
    return (mk('Opt', c, a, b),)


def common_prefix(x, y):
    n = 0
    while n < len(x) and n < len(y) and x[n] is y[n]:
        n += 1
    return n


def merge_seq(c, x, y):
    if x == y:
        return x
    n = common_prefix(x, y)
    return x[:n] + opt(c, x[n:], y[n:])


# ------------------------------------------------------------------ heap records

class Rec(object):
    __slots__ = ('kind', 'cls', 'data', 'open', 'extra')

    def __init__(self, kind, cls, data, open_=None, extra=()):
        self.kind = kind      # 'inst' | 'list' | 'set' | 'dict'
        self.cls = cls
        self.data = data      # inst: dict ; list/set: tuple ; dict: dict(T->T)
        self.open = open_     # inst: open-world symbol (T) or None
        self.extra = extra    # dict: unknown updates ((key, val)...)

    def copy(self, data):
        return Rec(self.kind, self.cls, data, self.open, self.extra)


class St(object):
    __slots__ = ('env', 'heap', 'ov', 'ev', 'asm')

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.ov = {}
        self.ev = ()
        self.asm = {}

    def fork(self):
        s = St()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.ov = dict(self.ov)
        s.ev = self.ev
        s.asm = dict(self.asm)
        return s

    def become(self, o):
        self.env = o.env
        self.heap = o.heap
        self.ov = o.ov
        self.ev = o.ev
        self.asm = o.asm


class RaiseSig(Exception):
    def __init__(self, st, exc):
        self.st = st
        self.exc = exc


class Budget(Exception):
    pass


class Br(object):
    __slots__ = ('c', 'x', 'y')

    def __init__(self, c, x, y):
        self.c = c
        self.x = x
        self.y = y


class Leaf(object):
    __slots__ = ('kind', 'st', 'val')

    def __init__(self, kind, st, val=None):
        self.kind = kind      # N R X B C
        self.st = st
        self.val = val


def leaves(o):
    seen = set()
    todo = [o]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Br):
            todo.append(x.x)
            todo.append(x.y)
        else:
            yield x


EXC_BASES = {
    'KeyError': ('LookupError', 'Exception', 'BaseException'),
    'IndexError': ('LookupError', 'Exception', 'BaseException'),
    'ValueError': ('Exception', 'BaseException'),
    'TypeError': ('Exception', 'BaseException'),
    'AttributeError': ('Exception', 'BaseException'),
    'NameError': ('Exception', 'BaseException'),
    'AssertionError': ('Exception', 'BaseException'),
    'OSError': ('Exception', 'BaseException'),
    'IOError': ('OSError', 'Exception', 'BaseException'),
    'RuntimeError': ('Exception', 'BaseException'),
    'NotImplementedError': ('RuntimeError', 'Exception', 'BaseException'),
    'StopIteration': ('Exception', 'BaseException'),
    'SystemExit': ('BaseException',),
    'Exception': ('BaseException',),
}

import builtins as _b
BUILTINS = set(dir(_b))

CMP_SWAP = {ast.Gt: 'Lt', ast.GtE: 'Le'}
BINOPS = {ast.Add: 'Add', ast.Sub: 'Sub', ast.Mult: 'Mul', ast.Div: 'Div', ast.Mod: 'Mod',
          ast.Pow: 'Pow', ast.LShift: 'Shl', ast.RShift: 'Shr', ast.BitOr: 'BitOr',
          ast.BitAnd: 'BitAnd', ast.BitXor: 'BitXor', ast.FloorDiv: 'FloorDiv', ast.MatMult: 'MatMul'}
COMM = ('Mul', 'BitOr', 'BitAnd', 'BitXor')
PYOP = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b,
        'Div': lambda a, b: a / b, 'Mod': lambda a, b: a % b, 'Pow': lambda a, b: a ** b,
        'Shl': lambda a, b: a << b, 'Shr': lambda a, b: a >> b, 'BitOr': lambda a, b: a | b,
        'BitAnd': lambda a, b: a & b, 'BitXor': lambda a, b: a ^ b, 'FloorDiv': lambda a, b: a // b}


class Info(object):
    """Scenario facts about an opaque term."""
    __slots__ = ('truth', 'types', 'cls', 'isstr', 'length', 'isseq', 'isbool', 'isint')

    def __init__(self, truth=None, types=None, cls=None, isstr=False, length=None, isseq=False,
                 isbool=False, isint=False):
        self.truth = truth
        self.types = types        # frozenset of possible exact class quals, or None
        self.cls = cls            # the (static) class used for method resolution
        self.isstr = isstr
        self.length = length
        self.isseq = isseq
        self.isbool = isbool
        self.isint = isint


class Engine(object):
    def __init__(self, repo, intercept=None, budget=400000, max_depth=40, opaque=()):
        self.repo = repo
        self.intercept = intercept      # f(engine, func(Func), recv(T|None), args, kwargs, st) -> T | NotImplemented
        self.recurse = False            # inline recursive calls (for closed, finite trees)
        self.on_raw = None              # the same with the arguments as heap references
        self.set_order = None           # f(items) -> items: the order in which the elements of a set are seen
        self.strict = False             # closed runs: a condition that is not decided is an error
        self.on_opaque = None           # f(engine, target T, args, kwargs, st) -> T | NotImplemented
        self.info = {}
        self.budget = budget
        self.steps = 0
        self.max_depth = max_depth
        self.stack = []
        self.nref = 0
        self.fns = {}                   # Fn id -> (Func, closure env)
        self.nfn = 0
        self.alarms = []                # ('attr'|'name'|'arity', text, where)
        self.opaque = set(opaque)
        self.modconst = {}
        self.called = set()
        self.nloop = 0
        self._closed = {}
        self._ids = {}
        self._hashes = {}
        self._keyeq = {}

    # ------------------------------------------------------------ helpers
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget:
            raise Budget()

    def new_ref(self, st, rec):
        self.nref += 1
        st.heap[self.nref] = rec
        return mk('Ref', self.nref)

    def new_list(self, st, items=()):
        return self.new_ref(st, Rec('list', None, tuple(items)))

    def new_inst(self, st, qual, fields=None, open_=None):
        return self.new_ref(st, Rec('inst', self.repo.cls(qual) if isinstance(qual, str) else qual,
                                    dict(fields or {}), open_))

    def fn(self, func, env=None):
        key = (id(func.node), id(env) if env else 0)
        for i, (f, e) in self.fns.items() if env is not None else ():
            pass
        if env is None:
            i = ('f', func.qual)
            self.fns[i] = (func, None)
            return mk('Fn', func.qual)
        self.nfn += 1
        t = mk('Fn', '%s#%d' % (func.qual, self.nfn))
        self.fns[('f', t.a[0])] = (func, env)
        return t

    def fn_of(self, t):
        return self.fns[('f', t.a[0])]

    def cls_term(self, c):
        return mk('Cls', c.qual if isinstance(c, Class) else c)

    def cls_of(self, t):
        """Class of an instance term, if known exactly."""
        if t.k == 'Inst':
            try:
                return self.repo.cls(t.a[0])
            except AnalysisBroken:
                return None
        i = self.info.get(t)
        if i is not None and i.cls is not None:
            return self.repo.cls(i.cls)
        return None

    # ------------------------------------------------------------ snapshots
    def snap(self, v, st, seen=()):
        if v.k == 'Ref':
            if v.a[0] in seen:
                return mk('Cyc', v.a[0])
            r = st.heap.get(v.a[0])
            if r is None:
                return v
            seen = seen + (v.a[0],)
            if r.kind == 'inst':
                if r.open is not None and r.open.k == 'Sym':
                    return r.open
                return mk('Inst', r.cls.qual if isinstance(r.cls, Class) else str(r.cls),
                          tuple((n, self.snap(x, st, seen)) for n, x in sorted(r.data.items())))
            if r.kind == 'list':
                return mk('List', tuple(self.snap(x, st, seen) for x in r.data))
            if r.kind == 'set':
                return mk('FSet' if r.cls == 'frozenset' else 'Set', tuple(self.snap(x, st, seen) for x in r.data))
            return mk('Dict', tuple((self.snap(k, st, seen), self.snap(x, st, seen)) for k, x in r.data.items()),
                      tuple((self.snap(k, st, seen), self.snap(x, st, seen)) for k, x in r.extra))
        if v.k in ('K', 'Sym', 'Fn', 'Cls', 'Mod', 'Bi'):
            return v
        if not any(y.k == 'Ref' for y in subterms(v)):
            return v

        def go(x):
            if isinstance(x, T):
                return self.snap(x, st, seen)
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            return x
        n = mk(v.k, *[go(x) for x in v.a])
        if n.k == 'Gam':
            n = gam(*n.a)
        return n

    # ------------------------------------------------------------ conditions
    def truth(self, t, st):
        """True/False/None for the truth value of a term."""
        if t.k == 'K':
            return bool(kv(t))
        if t.k == 'Not':
            r = self.truth(t.a[0], st)
            return None if r is None else (not r)
        if t in st.asm:
            return st.asm[t]
        if t.k in ('Cls', 'Fn', 'Mod', 'Bi', 'Bnd', 'Match', 'ReMatch'):
            return True
        if t.k == 'Ref':
            r = st.heap[t.a[0]]
            if r.kind == 'inst':
                if isinstance(r.cls, Class):
                    f = self.repo.find_method(r.cls, '__bool__') or self.repo.find_method(r.cls, '__len__')
                    if f is not None:
                        return None
                return True
            if r.kind in ('list', 'set'):
                if not r.data:
                    return False
                if any(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in r.data):
                    return True
                return None
            if r.data:
                return True
            return None if r.extra else False
        if t.k in ('Inst',):
            return True
        if t.k in ('Tup', 'List'):
            if not t.a[0]:
                return False
            if any(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in t.a[0]):
                return True
            return None
        if t.k == 'Cat':
            if any(x.k == 'K' for x in t.a[0]):
                return True
            return None
        if t.k == 'Gam':
            c = self.truth(t.a[0], st)
            if c is True:
                return self.truth(t.a[1], st)
            if c is False:
                return self.truth(t.a[2], st)
            a, b = self.truth(t.a[1], st), self.truth(t.a[2], st)
            if a is not None and a == b:
                return a
            return None
        i = self.info.get(t)
        if i is not None and i.truth is not None:
            return i.truth
        if t.k == 'Is' and t.a[1] is NONE:
            x = t.a[0]
            if x.k == 'ReMatch':
                return False
            if st.asm.get(x) is True:
                return False
            j = self.info.get(x)
            if j is not None and (j.truth is True or j.types is not None or j.isstr or j.isseq or j.cls
                                  or j.length is not None or j.isbool or j.isint):
                return False
            for k2, v2 in st.asm.items():
                if v2 and k2.k == 'IsA' and k2.a[0] is x:
                    return False
                if v2 and k2.k == 'Eq' and x in (k2.a[0], k2.a[1]):
                    o = k2.a[1] if k2.a[0] is x else k2.a[0]
                    if o.k == 'K' and o is not NONE:
                        return False
            return None
        if t.k == 'IsA':
            return self.isa(t.a[0], t.a[1], st)
        if t.k == 'Eq':
            x, y = t.a
            for p, q in ((x, y), (y, x)):
                if q.k == 'K':
                    for k2, v2 in st.asm.items():
                        if v2 and k2.k == 'Eq' and p in k2.a:
                            o = k2.a[1] if k2.a[0] is p else k2.a[0]
                            if o.k == 'K' and o is not q:
                                return False
                    if kv(q) and st.asm.get(p) is False:
                        return False
            return None
        # facts implied by other facts
        if st.asm.get(mk('Is', t, NONE)) is True:
            return False
        for k2, v2 in st.asm.items():
            if v2 and k2.k == 'Eq' and t in k2.a:
                o = k2.a[1] if k2.a[0] is t else k2.a[0]
                if o.k == 'K':
                    return bool(kv(o))
        return None

    def isa(self, x, c, st):
        """isinstance(x, c) for a class term c: True/False/None."""
        a = mk('IsA', x, c)
        if a in st.asm:
            return st.asm[a]
        if c.k == 'Tup':
            rs = [self.isa(x, y, st) for y in c.a[0]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.k == 'Bi':
            n = c.a[0]
            if x.k == 'K':
                py = {'str': str, 'int': int, 'bool': bool, 'float': float, 'tuple': tuple, 'list': list,
                      'dict': dict, 'bytes': bytes, 'set': set, 'slice': slice, 'object': object}.get(n)
                return isinstance(kv(x), py) if py else None
            if x.k in ('Cat', 'Str'):
                return n in ('str', 'object')
            if x.k == 'Tup':
                return n in ('tuple', 'object')
            if x.k == 'SliceObj':
                return n in ('slice', 'object')
            if x.k == 'Ref':
                k = st.heap[x.a[0]].kind
                if k != 'inst':
                    return n == k or n == 'object'
                return False
            i = self.info.get(x)
            if i is not None:
                if i.isstr:
                    return n in ('str', 'object')
                if i.isint:
                    return n in ('int', 'object')
                if i.types is not None:
                    return n == 'object'
            return None
        if c.k != 'Cls':
            return None
        try:
            cc = self.repo.cls(c.a[0])
        except AnalysisBroken:
            return None
        if x.k == 'Ref':
            r = st.heap[x.a[0]]
            if r.kind != 'inst':
                return False
            if isinstance(r.cls, Class):
                return self.repo.is_sub(r.cls, cc)
            return None
        if x.k == 'Inst':
            k = self.cls_of(x)
            return self.repo.is_sub(k, cc) if k else None
        if x.k in ('K', 'Tup', 'Cat', 'Str', 'List'):
            return False
        i = self.info.get(x)
        if i is not None:
            if i.types is not None:
                rs = [self.repo.is_sub(self.repo.cls(q), cc) for q in i.types]
                if all(rs):
                    return True
                if not any(rs):
                    return False
            elif i.isstr or i.isint or i.isseq:
                return False
        for k2, v2 in st.asm.items():
            if k2.k == 'IsA' and k2.a[0] is x and k2.a[1].k == 'Cls':
                try:
                    d = self.repo.cls(k2.a[1].a[0])
                except AnalysisBroken:
                    continue
                if v2:
                    if self.repo.is_sub(d, cc):
                        return True
                    subs_d = set(id(s) for s in self.repo.subclasses(d))
                    subs_c = set(id(s) for s in self.repo.subclasses(cc))
                    if not (subs_d & subs_c):
                        return False
                else:
                    if self.repo.is_sub(cc, d):
                        return False
        if st.asm.get(x) is False or st.asm.get(mk('Is', x, NONE)) is True:
            return False
        return None

    def assume(self, t, val, st):
        t, pos = atom(t)
        v = val if pos else (not val)
        st.asm[t] = v
        if t.k == 'Gam':
            # (a if c else b) being true/false with constant sides
            c, a, b = t.a
            ta, tb = self.truth(a, st), self.truth(b, st)
            if ta is not None and ta != v:
                self.assume(c, False, st)
                if tb is None:
                    self.assume(b, v, st)
            elif tb is not None and tb != v:
                self.assume(c, True, st)
                if ta is None:
                    self.assume(a, v, st)

    def simp(self, v, st):
        """Resolve gates decided at this point (shallow)."""
        while v.k == 'Gam':
            c = self.truth(v.a[0], st)
            if c is None:
                return v
            v = v.a[1] if c else v.a[2]
        return v

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2):
        if s1 is s2:
            return s1
        r = St()
        for n in s1.env:
            a = s1.env[n]
            b = s2.env.get(n, UNDEF)
            r.env[n] = a if a is b else gam(c, a, b)
        for n in s2.env:
            if n not in s1.env:
                r.env[n] = gam(c, UNDEF, s2.env[n])
        for i in s1.heap:
            a = s1.heap[i]
            b = s2.heap.get(i)
            if b is None or a is b:
                r.heap[i] = a
            else:
                r.heap[i] = self.merge_rec(c, a, b)
        for i in s2.heap:
            if i not in s1.heap:
                r.heap[i] = s2.heap[i]
        for k in set(s1.ov) | set(s2.ov):
            a, b = s1.ov.get(k), s2.ov.get(k)
            if a is None:
                a = mk('Attr', k[0], k[1])
            if b is None:
                b = mk('Attr', k[0], k[1])
            r.ov[k] = gam(c, a, b)
        r.ev = merge_seq(c, s1.ev, s2.ev)
        r.asm = dict((k, v) for k, v in s1.asm.items() if s2.asm.get(k) == v)
        return r

    def merge_rec(self, c, a, b):
        if a.kind == 'inst':
            d = {}
            for n in set(a.data) | set(b.data):
                d[n] = gam(c, a.data.get(n, UNDEF), b.data.get(n, UNDEF))
            return a.copy(d)
        if a.kind in ('list', 'set'):
            return a.copy(merge_seq(c, a.data, b.data))
        d = {}
        for n in list(a.data) + [x for x in b.data if x not in a.data]:
            d[n] = gam(c, a.data.get(n, UNDEF), b.data.get(n, UNDEF))
        e = merge_seq(c, tuple(mk('KV', k, v) for k, v in a.extra), tuple(mk('KV', k, v) for k, v in b.extra))
        ex = []
        for x in e:
            if x.k == 'KV':
                ex.append((x.a[0], x.a[1]))
            else:
                ex.append((mk('OptKey', x), x))
        r = a.copy(d)
        r.extra = tuple(ex)
        return r

    def merge_normals(self, o, kinds=('N',)):
        if isinstance(o, Leaf):
            return o.st if o.kind in kinds else None
        a = self.merge_normals(o.x, kinds)
        b = self.merge_normals(o.y, kinds)
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        return self.merge(o.c, a, b)

    def bind(self, o, f):
        ns = [l for l in leaves(o) if l.kind == 'N']
        if not ns:
            return o
        if len(ns) == 1:
            r = f(ns[0].st)
        else:
            r = f(self.merge_normals(o))
        memo = {}

        def sub(x):
            if id(x) in memo:
                return memo[id(x)]
            if isinstance(x, Leaf):
                y = r if x.kind == 'N' else x
            else:
                p, q = sub(x.x), sub(x.y)
                y = p if p is q else Br(x.c, p, q)
            memo[id(x)] = y
            return y
        return sub(o)

    # ------------------------------------------------------------ calling
    def call_func(self, func, args, kwargs, st, recv=None, closure=None, raw=False):
        """Inline a repository function. Mutates st; returns value. Raises RaiseSig if it always raises."""
        self.tick()
        if self.intercept is not None and not raw:
            r = self.intercept(self, func, recv, args, kwargs, st)
            if r is not NotImplemented:
                return r
        allargs = ([recv] if recv is not None else []) + list(args)
        if func.qual in self.opaque and not raw:
            return self.opaque_call(mk('FnName', func.qual), allargs, kwargs, st)
        key = func.node
        if (key in self.stack and not raw and not self.recurse) or len(self.stack) >= self.max_depth:
            # recursion: keep as a call to itself (method name only if it is a method)
            return self.opaque_call(mk('FnName', func.qual), allargs, kwargs, st, pure=True)
        self.called.add(func.qual)
        env = self.bind_args(func, allargs, kwargs, st)
        saved = st.env
        st.env = dict(closure or {})
        st.env.update(env)
        self.stack.append(key)
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.ev(func.node.body, st, func.module)
                st.env = saved
                return v
            gen = func.is_generator()
            if gen:
                st.env['$yield'] = self.new_list(st)
            out = self.block(func.node.body, st, func.module)
            res, v = self.collapse(out, func)
            if gen:
                v = res.env['$yield']
                r = res.heap[v.a[0]]
                v = mk('Tup', r.data)
            st.become(res)
            st.env = saved
            return v
        except RaiseSig as r:
            r.st.env = saved
            raise
        finally:
            self.stack.pop()

    def collapse(self, out, func=None):
        memo = {}

        def go(o):
            if id(o) in memo:
                return memo[id(o)]
            if isinstance(o, Leaf):
                if o.kind == 'X':
                    r = (o.st, None, o.val)
                elif o.kind == 'R':
                    r = (o.st, o.val, None)
                else:
                    r = (o.st, NONE, None)
            else:
                a, b = go(o.x), go(o.y)
                if a[1] is None and b[1] is None:
                    r = (self.merge(o.c, a[0], b[0]), None, gam(o.c, a[2], b[2]))
                elif a[1] is None or b[1] is None:
                    if a[1] is None:
                        bad, good, cc = a, b, o.c
                    else:
                        bad, good, cc = b, a, neg(o.c)
                    s = good[0].fork() if True else good[0]
                    n = common_prefix(s.ev, bad[0].ev)
                    s.ev = s.ev[:n] + opt(cc, bad[0].ev[n:] + (mk('Ev', 'raise', bad[2]),), s.ev[n:])
                    r = (s, good[1], None)
                else:
                    r = (self.merge(o.c, a[0], b[0]), gam(o.c, a[1], b[1]), None)
            memo[id(o)] = r
            return r
        s, v, x = go(out)
        if v is None:
            s = s.fork()
            raise RaiseSig(s, x)
        return s, v

    RAISES = {'arity': 'TypeError', 'attr': 'AttributeError', 'name': 'NameError', 'fmt': 'TypeError'}

    def alarm(self, kind, text, where, st):
        """A definite internal failure: noted, and raised where runs are closed."""
        self.alarms.append((kind, text, where))
        if self.strict:
            raise RaiseSig(st, mk('Exc', self.RAISES[kind], (K(text),)))

    def bind_args(self, func, args, kwargs, st):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        # spread arguments make arity unknown
        spread = [x for x in pos if x.k == 'Spread']
        for i, n in enumerate(names):
            if pos and pos[0].k == 'Spread':
                env[n] = mk('Item', pos[0].a[0], K(i))
                continue
            if pos:
                env[n] = pos.pop(0)
        if a.vararg:
            env[a.vararg.arg] = mk('Tup', tuple(pos))
            pos = []
        elif pos and not spread:
            self.alarm('arity', 'too many arguments', func.qual, st)
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in env:
                    self.alarm('arity', 'argument %s passed twice' % n, func.qual, st)
                env[n] = kw.pop(n)
        if a.kwarg:
            ref = self.new_ref(st, Rec('dict', None, dict((K(k), v) for k, v in kw.items())))
            env[a.kwarg.arg] = ref
            kw = {}
        elif kw:
            self.alarm('arity', 'unexpected keyword %s' % sorted(kw)[0], func.qual, st)
        defs = list(a.defaults)
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in env:
                env[n] = self.ev_const(d, func.module, st)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.ev_const(d, func.module, st)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if not spread:
                    self.alarm('arity', 'missing argument %s' % n, func.qual, st)
                env[n] = mk('Missing', func.qual, n)
        return env

    def ev_const(self, e, module, st):
        saved = st.env
        st.env = {}
        try:
            return self.ev(e, st, module)
        finally:
            st.env = saved

    def instantiate(self, c, args, kwargs, st):
        """c: Class"""
        if self.intercept is not None:
            r = self.intercept(self, c, None, args, kwargs, st)
            if r is not NotImplemented:
                return r
        ref = self.new_ref(st, Rec('inst', c, {}))
        f = self.repo.find_method(c, '__init__')
        if f is not None:
            self.call_func(f, args, kwargs, st, recv=ref)
        elif args or kwargs:
            if self.repo.ext_bases(c) and any(b.endswith(('Exception', 'Error')) for b in self.repo.ext_bases(c)):
                rec = st.heap[ref.a[0]]
                st.heap[ref.a[0]] = rec.copy({'args': mk('Tup', tuple(args))})
            elif not [b for b in self.repo.ext_bases(c) if b not in ('object',)]:
                self.alarm('arity', 'constructor takes no arguments', c.qual, st)
        return ref

    def opaque_call(self, target, args, kwargs, st, pure=False):
        if self.on_raw is not None:
            r = self.on_raw(self, target, list(args), kwargs, st)
            if r is not NotImplemented:
                return r
        sargs = tuple(self.snap(x, st) for x in args)
        skw = tuple(sorted((k, self.snap(v, st)) for k, v in kwargs.items()))
        if self.on_opaque is not None:
            r = self.on_opaque(self, target, sargs, dict(skw), st)
            if r is not NotImplemented:
                return r
        t = mk('Call', target, sargs, skw)
        st.ev = st.ev + (mk('Ev', 'call', t),)
        return t

    def call(self, f, args, kwargs, st, module=None, node=None):
        self.tick()
        f = self.simp(f, st)
        if f.k == 'Gam':
            return self.fork_on(f.a[0], st,
                                lambda s: self.call(f.a[1], args, kwargs, s, module, node),
                                lambda s: self.call(f.a[2], args, kwargs, s, module, node))
        if f.k == 'Fn':
            func, env = self.fn_of(f)
            return self.call_func(func, args, kwargs, st, closure=env)
        if f.k == 'Bnd':
            func, env = self.fn_of(f.a[1])
            return self.call_func(func, args, kwargs, st, recv=f.a[0], closure=env)
        if f.k == 'Cls':
            if self.on_opaque is not None:
                r = self.on_opaque(self, f, tuple(args), kwargs, st)
                if r is not NotImplemented:
                    return r
            return self.instantiate(self.repo.cls(f.a[0]), args, kwargs, st)
        if f.k == 'Partial':
            kw = dict(f.a[2])
            kw.update(kwargs)
            return self.call(f.a[0], list(f.a[1]) + list(args), kw, st, module, node)
        if f.k == 'Bi':
            return self.builtin(f.a[0], args, kwargs, st, module, node)
        if f.k == 'Meth':
            return self.method(f.a[0], f.a[1], args, kwargs, st)
        return self.opaque_call(f, args, kwargs, st)

    def fork_on(self, c, st, fa, fb):
        """Evaluate fa under c, fb under not c; merge the states; gate the values."""
        d = self.truth(c, st)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        if self.strict:
            self.undecided(c, st)
        s1, s2 = st.fork(), st.fork()
        self.assume(c, True, s1)
        self.assume(c, False, s2)
        x1 = x2 = None
        try:
            v1 = fa(s1)
        except RaiseSig as r:
            x1 = r
        try:
            v2 = fb(s2)
        except RaiseSig as r:
            x2 = r
        if x1 and x2:
            m = self.merge(c, x1.st, x2.st)
            raise RaiseSig(m, gam(c, x1.exc, x2.exc))
        if x1 or x2:
            if x1:
                bad, good, v, cc = x1, s2, v2, c
            else:
                bad, good, v, cc = x2, s1, v1, neg(c)
            n = common_prefix(good.ev, bad.st.ev)
            good.ev = good.ev[:n] + opt(cc, bad.st.ev[n:] + (mk('Ev', 'raise', bad.exc),), good.ev[n:])
            st.become(good)
            return v
        m = self.merge(c, s1, s2)
        st.become(m)
        return gam(c, v1, v2)

    # ------------------------------------------------------------ attributes
    def getattr(self, x, name, st, default=None, node=None):
        self.tick()
        x = self.simp(x, st)
        if x.k == 'Gam':
            if x.a[1] is UNDEF:
                return self.getattr(x.a[2], name, st, default)
            if x.a[2] is UNDEF:
                return self.getattr(x.a[1], name, st, default)
            return self.fork_on(x.a[0], st,
                                lambda s: self.getattr(x.a[1], name, s, default),
                                lambda s: self.getattr(x.a[2], name, s, default))
        if x.k == 'Ref':
            r = st.heap[x.a[0]]
            if name == '__class__' and r.kind in ('list', 'dict', 'set'):
                return mk('Bi', r.kind)
            if r.kind == 'inst':
                if name == '__class__':
                    return self.cls_term(r.cls)
                if name == '__dict__':
                    return mk('DictOf', x)
                if name in r.data:
                    return self.simp(r.data[name], st)
                if isinstance(r.cls, Class):
                    v = self.class_attr(r.cls, name, x, st)
                    if v is not None:
                        return v
                    if r.open is None and not self.repo.ext_bases_nonobject(r.cls):
                        if default is not None:
                            return default
                        self.alarm('attr', '%s has no attribute %s' % (r.cls.qual, name), self.where(node), st)
                        return mk('NoAttr', r.cls.qual, name)
                if r.open is not None:
                    v = mk('Attr', r.open, name)
                    nd = dict(r.data)
                    nd[name] = v
                    st.heap[x.a[0]] = r.copy(nd)
                    return v
                return mk('Attr', x, name)
            return mk('Meth', x, name)
        if x.k == 'Inst':
            for n, v in x.a[1]:
                if n == name:
                    return v
            c = self.cls_of(x)
            if name == '__class__' and c:
                return self.cls_term(c)
            if c is not None:
                v = self.class_attr(c, name, x, st)
                if v is not None:
                    return v
            return mk('NoAttr', x.a[0], name)
        if x.k == 'Mod':
            m = self.repo.modules.get(x.a[0])
            if m is None:
                return mk('Ext', x.a[0] + '.' + name)
            r = self.repo.lookup(m, name)
            if r is None:
                if m.name + '.' + name in self.repo.modules:
                    return mk('Mod', m.name + '.' + name)
                self.alarm('attr', '%s.%s' % (m.name, name), self.where(node), st)
                return mk('NoAttr', m.name, name)
            return self.resolved(r, st)
        if x.k == 'Ext':
            return mk('Ext', x.a[0] + '.' + name)
        if x.k == 'Cls':
            c = self.repo.cls(x.a[0])
            if name == '__name__':
                return K(c.name)
            if name == '__dict__':
                return mk('DictOf', x)
            f = self.repo.find_method(c, name)
            if f is not None:
                return self.fn(f)
            ka = self.repo.find_attr(c, name)
            if ka is not None:
                return self.class_const(ka[0], name, ka[1], st)
            if default is None and self.strict and not self.repo.ext_bases_nonobject(c) and not name.startswith('__'):
                self.alarm('attr', '%s has no attribute %s' % (c.qual, name), self.where(node), st)
            return default if default is not None else mk('NoAttr', x.a[0], name)
        if x.k == 'Fn' and name == '__name__':
            return K(self.fn_of(x)[0].name)
        if x.k == 'Super':
            c = self.repo.cls(x.a[0])
            mro = self.repo.mro(self.objcls(x.a[1], st) or c)
            i = mro.index(c)
            for k in mro[i + 1:]:
                if name in k.methods:
                    return mk('Bnd', x.a[1], self.fn(k.methods[name]))
                if name in k.attrs:
                    return self.class_const(k, name, k.attrs[name], st)
            return mk('Meth', x, name)
        if x.k in ('K', 'Cat', 'Str', 'Tup', 'Join', 'List', 'SliceObj', 'ReMatch'):
            if x is NONE:
                if default is not None:
                    return default
                if self.strict:
                    if name == '__class__':
                        return mk('Bi', 'NoneType')
                    if not name.startswith('__'):
                        self.alarm('attr', 'None has no attribute %s' % name, self.where(node), st)
                return mk('NoAttr', 'None', name)
            if name == '__class__' and x.k in ('K', 'Tup'):
                return mk('Bi', x.a[0] if x.k == 'K' else 'tuple')
            if self.strict and x.k == 'K' and default is None and not hasattr(kv(x), name):
                self.alarm('attr', '%s has no attribute %s' % (x.a[0], name), self.where(node), st)
            return mk('Meth', x, name)
        if (x, name) in st.ov:
            return self.simp(st.ov[(x, name)], st)
        i = self.info.get(x)
        if i is not None and (i.cls is not None or i.types is not None and len(i.types) == 1):
            c = self.repo.cls(i.cls or list(i.types)[0])
            if name == '__class__' and i.types is not None and len(i.types) == 1:
                return self.cls_term(c)
            v = self.class_attr(c, name, x, st)
            if v is not None:
                return v
        if i is not None and (i.isstr or i.isseq):
            return mk('Meth', x, name)
        # a class narrowed by dominating isinstance tests
        for k2, v2 in st.asm.items():
            if v2 and k2.k == 'IsA' and k2.a[0] is x and k2.a[1].k == 'Cls':
                c = self.repo.cls(k2.a[1].a[0])
                if not self.repo.subclasses(c, strict=True):
                    v = self.class_attr(c, name, x, st)
                    if v is not None and v.k != 'Bnd':
                        return v
        if x.k == 'Bi' and name == '__name__':
            return K(x.a[0])
        if x.k == 'TypeOf' and name == '__name__':
            return mk('Attr', mk('Attr', x.a[0], '__class__'), '__name__')
        return mk('Attr', x, name)

    def objcls(self, x, st):
        if x.k == 'Ref':
            r = st.heap[x.a[0]]
            return r.cls if isinstance(r.cls, Class) else None
        return self.cls_of(x)

    def class_attr(self, c, name, recv, st):
        f = self.repo.find_method(c, name)
        if f is not None:
            decs = f.decorators()
            if 'property' in decs:
                return self.call_func(f, [], {}, st, recv=recv)
            if 'staticmethod' in decs:
                return self.fn(f)
            if 'classmethod' in decs:
                return mk('Bnd', self.cls_term(c), self.fn(f))
            return mk('Bnd', recv, self.fn(f))
        ka = self.repo.find_attr(c, name)
        if ka is not None:
            return self.class_const(ka[0], name, ka[1], st)
        return None

    def class_const(self, c, name, expr, st):
        saved = st.env
        st.env = {}
        try:
            # other class attributes are visible in class scope
            for n in [x.id for x in ast.walk(expr) if isinstance(x, ast.Name)]:
                if n in c.attrs and n != name:
                    st.env[n] = self.class_const(c, n, c.attrs[n], st)
                elif n in c.methods:
                    st.env[n] = self.fn(c.methods[n])
            return self.ev(expr, st, c.module)
        finally:
            st.env = saved

    def setattr(self, x, name, v, st):
        x = self.simp(x, st)
        if x.k == 'Gam':
            for cc, side in ((True, x.a[1]), (False, x.a[2])):
                if side.k == 'Ref' and st.heap[side.a[0]].kind == 'inst':
                    old = st.heap[side.a[0]].data.get(name, UNDEF)
                    nv = gam(x.a[0], v, old) if cc else gam(x.a[0], old, v)
                    self.setattr(side, name, nv, st)
                elif side.k not in ('K', 'Undef'):
                    self.setattr(side, name, gam(x.a[0], v, mk('Attr', side, name)) if cc
                                 else gam(x.a[0], mk('Attr', side, name), v), st)
            return
        if x.k == 'Ref':
            r = st.heap[x.a[0]]
            if r.kind == 'inst':
                d = dict(r.data)
                d[name] = v
                st.heap[x.a[0]] = r.copy(d)
                if r.open is not None:
                    st.ev = st.ev + (mk('Ev', 'setattr', r.open, name, self.snap(v, st)),)
                return
        if x.k == 'K':
            return
        st.ov[(x, name)] = v
        st.ev = st.ev + (mk('Ev', 'setattr', self.snap(x, st), name, self.snap(v, st)),)

    # ------------------------------------------------------------ names
    def resolved(self, r, st):
        if isinstance(r, Func):
            return self.fn(r)
        if isinstance(r, Class):
            return self.cls_term(r)
        if isinstance(r, Module):
            return mk('Mod', r.name)
        if r[0] == 'ext':
            return mk('Ext', r[1])
        if r[0] == 'const':
            return self.module_const(r[1], r[2], st)
        return mk('Unk', str(r))

    def module_const(self, m, name, st):
        key = (m.name, name)
        if key in self.modconst:
            kind, v = self.modconst[key]
            if kind == 'rec':
                return mk('Global', m.name, name)
            if kind == 'val':
                return v
            # heap objects are re-created per state (module constants are not mutated by the analysed code)
            return self.thaw(v, st)
        self.modconst[key] = ('rec', None)
        stmts = m.consts[name]
        try:
            if len(stmts) == 1 and isinstance(stmts[0], ast.Assign) and len(stmts[0].targets) == 1 \
                    and isinstance(stmts[0].targets[0], ast.Name) and not self.module_mutates(m, name):
                s = St()
                v = self.ev(stmts[0].value, s, m)
                v = self.snap(v, s)
            elif not self.module_mutates(m, name) and all(isinstance(x, (ast.Assign, ast.AugAssign)) for x in stmts):
                s = St()
                out = self.block(stmts, s, m)
                res = self.merge_normals(out)
                v = self.snap(res.env.get(name, mk('Global', m.name, name)), res)
            else:
                v = mk('Global', m.name, name)
        except RaiseSig:
            v = mk('Global', m.name, name)
        if v.k in ('List', 'Dict', 'Set', 'Inst', 'Tup'):
            self.modconst[key] = ('obj', v)
            return self.thaw(v, st)
        self.modconst[key] = ('val', v)
        return v

    def module_mutates(self, m, name):
        """Some function of the module rebinds or fills the module-level name."""
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global) and name in n.names:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and isinstance(n.func.value, ast.Name) and n.func.value.id == name \
                    and n.func.attr in ('append', 'add', 'update', 'extend', 'insert', 'pop', 'clear', 'setdefault'):
                return True
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                for t in (n.targets if not isinstance(n, ast.AugAssign) else [n.target]):
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
                        return True
        return False

    def thaw(self, v, st):
        if v.k == 'List':
            return self.new_list(st, [self.thaw(x, st) for x in v.a[0]])
        if v.k == 'Set':
            return self.new_ref(st, Rec('set', None, tuple(self.thaw(x, st) for x in v.a[0])))
        if v.k == 'Dict':
            r = Rec('dict', None, dict((self.thaw(k, st), self.thaw(x, st)) for k, x in v.a[0]))
            r.extra = v.a[1]
            return self.new_ref(st, r)
        if v.k == 'Inst':
            try:
                c = self.repo.cls(v.a[0])
            except AnalysisBroken:
                return v
            return self.new_ref(st, Rec('inst', c, dict((n, self.thaw(x, st)) for n, x in v.a[1])))
        if v.k == 'Tup':
            return mk('Tup', tuple(self.thaw(x, st) for x in v.a[0]))
        return v

    def name(self, n, st, module, node=None):
        if n in st.env:
            v = self.simp(st.env[n], st)
            return v
        r = self.repo.lookup(module, n)
        if r is not None:
            return self.resolved(r, st)
        if n == '__name__':
            return K(module.name)
        if n in BUILTINS:
            if n == 'None':
                return NONE
            return mk('Bi', n)
        if n in ('__name__',):
            return K(module.name)
        if n in ('__file__',):
            return mk('Ext', '__file__')
        self.alarm('name', n, self.where(node), st)
        return mk('NoName', n)

    def where(self, node):
        return getattr(node, 'lineno', 0)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, m):
        self.tick()
        t = type(e)
        f = getattr(self, 'ev_' + t.__name__, None)
        if f is None:
            return mk('Unk', t.__name__)
        return f(e, st, m)

    def ev_Constant(self, e, st, m):
        if e.value is Ellipsis:
            return mk('Unk', '...')
        return K(e.value)

    def ev_Name(self, e, st, m):
        return self.name(e.id, st, m, e)

    def ev_Attribute(self, e, st, m):
        return self.getattr(self.ev(e.value, st, m), e.attr, st, node=e)

    def ev_items(self, elts, st, m):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.as_items(self.ev(x.value, st, m), st))
            else:
                out.append(self.ev(x, st, m))
        return tuple(out)

    def ev_Tuple(self, e, st, m):
        return mk('Tup', self.ev_items(e.elts, st, m))

    def ev_List(self, e, st, m):
        return self.new_list(st, self.ev_items(e.elts, st, m))

    def ev_Set(self, e, st, m):
        return self.new_ref(st, Rec('set', None, self.ev_items(e.elts, st, m)))

    def ev_Dict(self, e, st, m):
        r = Rec('dict', None, {})
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, m)
            if k is None:
                d = vv
                if d.k == 'Ref' and st.heap[d.a[0]].kind == 'dict':
                    r.data.update(st.heap[d.a[0]].data)
                    r.extra = r.extra + st.heap[d.a[0]].extra
                else:
                    r.extra = r.extra + ((mk('Spread', d), d),)
                continue
            kk = self.ev(k, st, m)
            r.data[kk] = vv
        return self.new_ref(st, r)

    def ev_JoinedStr(self, e, st, m):
        ps = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                ps.append(K(v.value))
            else:
                x = self.ev(v.value, st, m)
                spec = self.ev(v.format_spec, st, m) if v.format_spec is not None else K('')
                ps.append(self.fmt_one(x, kv(spec) if spec.k == 'K' else ast.unparse(v.format_spec), chr(v.conversion) if v.conversion > 0 else '', st))
        return cat(ps)

    def ev_Lambda(self, e, st, m):
        return self.fn(Func(m, None, e), dict(st.env))

    def ev_IfExp(self, e, st, m):
        return self.branch_val(e.test, st, m, lambda s: self.ev(e.body, s, m), lambda s: self.ev(e.orelse, s, m))

    def branch_val(self, test, st, m, fa, fb):
        """Evaluate a condition expression structurally, then the sides."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.branch_val(test.operand, st, m, fb, fa)
        if isinstance(test, ast.BoolOp):
            first, rest = test.values[0], test.values[1:]
            r = rest[0] if len(rest) == 1 else ast.BoolOp(op=test.op, values=rest)
            if isinstance(test.op, ast.And):
                return self.branch_val(first, st, m, lambda s: self.branch_val(r, s, m, fa, fb), fb)
            return self.branch_val(first, st, m, fa, lambda s: self.branch_val(r, s, m, fa, fb))
        c = self.ev(test, st, m)
        return self.cond_val(c, st, fa, fb)

    def truth_value(self, c, st):
        """The value deciding the truth of an object with its own __bool__ or __len__."""
        if c.k == 'Not':
            return mk('Not', self.truth_value(c.a[0], st))
        if c.k == 'Ref' and st.heap[c.a[0]].kind == 'inst' and isinstance(st.heap[c.a[0]].cls, Class):
            for n in ('__bool__', '__len__'):
                if self.repo.find_method(st.heap[c.a[0]].cls, n) is not None:
                    return self.simp(self.call(self.getattr(c, n, st), [], {}, st), st)
        return c

    def undecided(self, c, st):
        from .printer import Undecided
        raise Undecided('condition not decided in %s: %s' % (
            getattr(self.stack[-1], 'name', '?') if self.stack else '?', show(c, 6)))

    def cond_val(self, c, st, fa, fb):
        c = self.simp(c, st)
        if self.recurse:
            c = self.truth_value(c, st)
        d = self.truth(c, st)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        if c.k == 'Not':
            return self.cond_val(c.a[0], st, fb, fa)
        if c.k == 'Gam':
            return self.fork_on(c.a[0], st,
                                lambda s: self.cond_val(c.a[1], s, fa, fb),
                                lambda s: self.cond_val(c.a[2], s, fa, fb))
        return self.fork_on(c, st, fa, fb)

    def ev_BoolOp(self, e, st, m):
        vals = list(e.values)

        def go(i, s):
            v = self.ev(vals[i], s, m)
            if i == len(vals) - 1:
                return v
            v = self.simp(v, s)
            if isinstance(e.op, ast.And):
                return self.cond_val(v, s, lambda s2: go(i + 1, s2),
                                     lambda s2: FALSE if is_boolish(v) else self.simp(v, s2))
            return self.cond_val(v, s, lambda s2: TRUE if is_boolish(v) else self.simp(v, s2),
                                 lambda s2: go(i + 1, s2))
        return go(0, st)

    def ev_UnaryOp(self, e, st, m):
        v = self.ev(e.operand, st, m)
        if isinstance(e.op, ast.Not):
            d = self.truth(v, st)
            if d is not None:
                return K(not d)
            return self.lift1(v, st, lambda x, s: neg(x) if self.truth(x, s) is None else K(not self.truth(x, s)))
        n = {ast.USub: 'Neg', ast.UAdd: 'Pos', ast.Invert: 'Inv'}[type(e.op)]
        if v.k == 'K' and v.a[0] in ('int', 'float', 'bool'):
            return K({'Neg': lambda x: -x, 'Pos': lambda x: +x, 'Inv': lambda x: ~x}[n](kv(v)))
        return mk(n, v)

    def lift1(self, v, st, f):
        v = self.simp(v, st)
        if v.k == 'Gam':
            return self.fork_on(v.a[0], st, lambda s: self.lift1(v.a[1], s, f), lambda s: self.lift1(v.a[2], s, f))
        return f(v, st)

    def ev_BinOp(self, e, st, m):
        a = self.ev(e.left, st, m)
        b = self.ev(e.right, st, m)
        return self.binop(BINOPS[type(e.op)], a, b, st)

    def binop(self, op, a, b, st):
        a = self.simp(a, st)
        b = self.simp(b, st)
        if a.k == 'K' and b.k == 'K':
            try:
                return self.const_fold(op, a, b)
            except Exception as x:
                if self.strict and isinstance(x, ZeroDivisionError):
                    raise RaiseSig(st, mk('Exc', 'ZeroDivisionError'))
                if self.strict and op in ('Shl', 'Shr') and isinstance(x, ValueError) and isinstance(kv(b), int) and kv(b) < 0:
                    raise RaiseSig(st, mk('Exc', 'ValueError'))
        for x, y, left in ((a, b, True), (b, a, False)):
            if x.k == 'Gam' and self.small(x):
                return self.fork_on(x.a[0], st,
                                    lambda s: self.binop(op, x.a[1], y, s) if left else self.binop(op, y, x.a[1], s),
                                    lambda s: self.binop(op, x.a[2], y, s) if left else self.binop(op, y, x.a[2], s))
        if self.strict and op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and all(x.k == 'Ref' and st.heap[x.a[0]].kind == 'set' for x in (a, b)):
            v = self.set_op(op, a, b, st)
            if v is not None:
                return v
        if op == 'Add':
            if self.is_str(a) or self.is_str(b):
                return cat([self.str_piece(a), self.str_piece(b)])
            sa, sb = self.seq_kind(a, st), self.seq_kind(b, st)
            if sa == 'list' or sb == 'list':
                return self.new_list(st, self.as_items(a, st) + self.as_items(b, st))
            if sa == 'tuple' or sb == 'tuple':
                return mk('Tup', self.as_items(a, st) + self.as_items(b, st))
            f = self.dunder(a, '__add__', st)
            if f is not None:
                return self.call(f, [b], {}, st)
            return mk('Add', a, b)
        if op == 'Mod' and (a.k in ('K', 'Cat') and self.is_str(a)):
            return self.percent(a, b, st)
        if op == 'Mul':
            if a.k == 'K' and a.a[0] == 'str' or b.k == 'K' and b.a[0] == 'str':
                return mk('Rep', a, b)
            for x, y in ((a, b), (b, a)):
                if self.seq_kind(x, st) == 'list' and y.k == 'K' and isinstance(kv(y), int):
                    return self.new_list(st, self.as_items(x, st) * kv(y))
        return mk(op, a, b)

    def dunder(self, x, name, st):
        c = self.objcls(x, st)
        if c is not None:
            f = self.repo.find_method(c, name)
            if f is not None:
                return mk('Bnd', x, self.fn(f))
        return None

    def small(self, t, n=60):
        c = 0
        for _ in subterms(t):
            c += 1
            if c > n:
                return False
        return True

    def const_fold(self, op, a, b):
        x, y = kv(a), kv(b)
        if op in ('Pow', 'Shl') and isinstance(y, int) and y > 256:
            raise ValueError
        if op == 'Mod' and isinstance(x, str):
            raise ValueError
        r = PYOP[op](x, y)
        return K(r)

    def is_str(self, t):
        if t.k == 'K':
            return t.a[0] == 'str'
        if t.k in ('Cat', 'Str', 'Join', 'Fmt', 'Rep'):
            return True
        i = self.info.get(t)
        return bool(i is not None and i.isstr)

    def str_piece(self, t):
        return t

    def seq_kind(self, t, st):
        if t.k == 'Ref':
            r = st.heap[t.a[0]]
            return r.kind if r.kind in ('list', 'set') else None
        if t.k == 'List':
            return 'list'
        if t.k == 'Tup':
            return 'tuple'
        if t.k in ('Map', 'Sorted'):
            return 'list'
        return None

    def percent(self, a, b, st):
        fmt = kv(a) if a.k == 'K' else None
        if fmt is None:
            return cat([mk('Fmt', a, b)])
        args = list(b.a[0]) if b.k == 'Tup' else [b]
        ps = []
        pos = 0
        i = 0
        for mt in re.finditer(r'%(%|[-+ 0#]*\d*(?:\.\d+)?[a-zA-Z])', fmt):
            ps.append(K(fmt[pos:mt.start()]))
            pos = mt.end()
            spec = mt.group(1)
            if spec == '%':
                ps.append(K('%'))
                continue
            if i < len(args):
                x = args[i]
                i += 1
            else:
                x = mk('Missing', 'format', i)
                self.alarms.append(('fmt', 'not enough arguments for format', ''))
            if spec in ('s', 'd'):
                ps.append(self.to_str(x, st))
            elif spec == 'r':
                ps.append(self.fmt_one(x, '', 'r', st))
            elif isK(x):
                try:
                    ps.append(K(('%' + spec) % kv(x)))
                except (TypeError, ValueError):
                    ps.append(mk('Fmt', spec, x))
            else:
                ps.append(mk('Fmt', spec, x))
        ps.append(K(fmt[pos:]))
        if i < len(args) and b.k == 'Tup':
            self.alarms.append(('fmt', 'too many arguments for format', ''))
        return cat(ps)

    def fmt_one(self, v, spec, conv, st):
        v = self.simp(v, st)
        if conv == 'r':
            v = self.builtin('repr', [v], {}, st, None)
        elif conv == 's':
            v = self.to_str(v, st)
        if spec in ('', 's', 'd'):
            return self.to_str(v, st)
        if isK(v):
            try:
                return K(format(kv(v), spec))
            except (TypeError, ValueError):
                pass
        return mk('Fmt', spec, self.snap(v, st))

    def to_str(self, x, st):
        x = self.simp(x, st)
        if x.k == 'K':
            return K(str(kv(x)))
        if self.is_str(x):
            return x
        if x.k == 'Gam' and self.small(x):
            return self.fork_on(x.a[0], st, lambda s: self.to_str(x.a[1], s), lambda s: self.to_str(x.a[2], s))
        f = self.dunder(x, '__str__', st) or self.dunder(x, '__repr__', st)
        if f is not None:
            return self.call(f, [], {}, st)
        v = self.snap(x, st)
        if v.k in ('List', 'Tup') and all(isK(y) for y in v.a[0]):
            return K(str((list if v.k == 'List' else tuple)(kv(y) for y in v.a[0])))
        return mk('Str', v)

    def ev_Compare(self, e, st, m):
        left = self.ev(e.left, st, m)
        vals = []
        ops = list(zip(e.ops, e.comparators))

        def go(i, l, s):
            op, ce = ops[i]
            r = self.ev(ce, s, m)
            v = self.compare(op, l, r, s)
            if i == len(ops) - 1:
                return v
            return self.cond_val(v, s, lambda s2: go(i + 1, r, s2), lambda s2: FALSE)
        return go(0, left, st)

    def compare(self, op, a, b, st):
        a = self.simp(a, st)
        b = self.simp(b, st)
        t = type(op)
        if t in (ast.NotEq, ast.IsNot, ast.NotIn):
            pos = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[t]()
            if t is ast.NotEq and self.objcls(a, st) is not None and self.dunder(a, '__ne__', st):
                pass
            v = self.compare(pos, a, b, st)
            return self.lift1(v, st, lambda x, s: neg(x))
        if t in (ast.Gt, ast.GtE):
            return self.compare(ast.Lt() if t is ast.Gt else ast.LtE(), b, a, st)
        for x, y, left in ((a, b, True), (b, a, False)):
            if x.k == 'Gam' and self.small(x):
                return self.fork_on(x.a[0], st,
                                    lambda s: self.compare(op, x.a[1], y, s) if left else self.compare(op, y, x.a[1], s),
                                    lambda s: self.compare(op, x.a[2], y, s) if left else self.compare(op, y, x.a[2], s))
        if t in (ast.Is, ast.Eq):
            return self.equal(a, b, st, t is ast.Is)
        if t is ast.In:
            return self.contains(a, b, st)
        n = 'Lt' if t is ast.Lt else 'Le'
        if a.k == 'K' and b.k == 'K':
            try:
                return K(kv(a) < kv(b) if n == 'Lt' else kv(a) <= kv(b))
            except TypeError:
                pass
        # lengths
        r = self.len_cmp(n, a, b, st)
        if r is not None:
            return r
        if a is b:
            return K(n == 'Le')
        v = mk(n, a, b)
        if n == 'Le':
            # canonical: a <= b  ==  not (b < a)
            return neg(mk('Lt', b, a))
        return v

    def len_cmp(self, n, a, b, st):
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x.k == 'Len' and y.k == 'K' and isinstance(kv(y), int):
                lo = self.min_len(x.a[0], st)
                if flip:     # y < len  / y <= len
                    if n == 'Lt' and lo > kv(y) or n == 'Le' and lo >= kv(y):
                        return TRUE
                    if n == 'Le' and kv(y) <= 0:
                        return TRUE
                else:        # len < y / len <= y
                    if n == 'Lt' and lo >= kv(y) or n == 'Le' and lo > kv(y):
                        return FALSE
        return None

    def min_len(self, x, st):
        if x.k == 'Tup' or x.k == 'List':
            return sum(1 for i in x.a[0] if i.k not in ('Star', 'Opt', 'Spread', 'Hole'))
        if x.k == 'Ref':
            r = st.heap[x.a[0]]
            if r.kind in ('list', 'set'):
                return sum(1 for i in r.data if i.k not in ('Star', 'Opt', 'Spread', 'Hole'))
        return 0

    SINGLETON = ('Cls', 'Fn', 'Mod', 'Bi', 'Ext')

    def kind_tag(self, x, st):
        """Coarse Python type of a term, for deciding None/type disequality."""
        if x.k == 'K':
            return x.a[0] if x.a[0] != 'bool' else 'int'
        if x.k in ('Cat', 'Str', 'Join', 'Fmt', 'Rep'):
            return 'str'
        if x.k == 'Tup':
            return 'tuple'
        if x.k == 'Ref':
            r = st.heap[x.a[0]]
            return r.kind
        if x.k in self.SINGLETON:
            return x.k
        if x.k in ('Len',):
            return 'int'
        if x.k in ('Inst', 'List', 'Dict'):
            return {'Inst': 'inst', 'List': 'list', 'Dict': 'dict'}[x.k]
        i = self.info.get(x)
        if i is not None:
            if i.isstr:
                return 'str'
            if i.isint:
                return 'int'
            if i.types is not None or i.cls is not None:
                return 'inst'
        return None

    def equal(self, a, b, st, ident):
        if a is b and a.k != 'Undef':
            if a.k in ('K', 'Ref', 'Sym', 'Attr', 'Item', 'Cls', 'Fn', 'Mod', 'Bi', 'Elem', 'Idx'):
                return TRUE
            return TRUE
        if a.k == 'K' and b.k == 'K':
            try:
                return K(kv(a) == kv(b) if not ident else a is b)
            except Exception:
                pass
        ta, tb = self.kind_tag(a, st), self.kind_tag(b, st)
        if ta and tb and ta != tb:
            if not (ta in ('int', 'float') and tb in ('int', 'float')):
                if 'inst' not in (ta, tb) or NONE in (a, b) or ident:
                    return FALSE
        if a.k in self.SINGLETON and b.k in self.SINGLETON:
            return FALSE
        if a.k == 'TypeOf' or b.k == 'TypeOf':
            x, y = (a, b) if a.k == 'TypeOf' else (b, a)
            if y.k == 'Cls':
                # exact class test
                i = self.info.get(x.a[0])
                if i is not None and i.types is not None:
                    if i.types == frozenset([y.a[0]]):
                        return TRUE
                    if y.a[0] not in i.types:
                        return FALSE
        if ident and b is NONE or b is NONE and ta is None and a.k not in ('K',):
            v = mk('Is', a, NONE)
            r = self.truth(v, st)
            return K(r) if r is not None else v
        if a is NONE and (ident or tb is None):
            v = mk('Is', b, NONE)
            r = self.truth(v, st)
            return K(r) if r is not None else v
        if ident and self.strict and a.k == 'Ref' and b.k == 'Ref' and a.a[0] in st.heap and b.a[0] in st.heap:
            return FALSE
        lists = None
        if not ident and a.k == 'Ref' and b.k == 'Ref':
            ra, rb = st.heap.get(a.a[0]), st.heap.get(b.a[0])
            if ra is not None and rb is not None and ra.kind == 'list' and rb.kind == 'list':
                lists = (ra.data, rb.data)
        elif not ident and a.k == 'List' and b.k == 'List':
            lists = (a.a[0], b.a[0])
        if a.k == 'Tup' and b.k == 'Tup' and not ident or lists is not None:
            pa, pb = lists if lists is not None else (a.a[0], b.a[0])
            if all(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in pa + pb):
                if len(pa) != len(pb):
                    return FALSE

                def go(i, s):
                    if i == len(pa):
                        return TRUE
                    c = self.equal(self.simp(pa[i], s), self.simp(pb[i], s), s, False)
                    return self.cond_val(c, s, lambda s2: go(i + 1, s2), lambda s2: FALSE)
                return go(0, st)
        if not ident:
            for x, y in ((a, b), (b, a)):
                if x.k == 'Len' and y.k == 'K' and isinstance(kv(y), int):
                    if self.min_len(x.a[0], st) > kv(y):
                        return FALSE
            f = self.dunder(a, '__eq__', st)
            if f is not None and a.k == 'Ref':
                return self.call(f, [b], {}, st)
        a, b = self.snap(a, st), self.snap(b, st)
        if a.n > b.n or (a.k == 'K' and b.k != 'K'):
            a, b = b, a
        if a.k == 'K' and b.k != 'K':
            a, b = b, a
        v = mk('Is' if ident else 'Eq', a, b)
        r = self.truth(v, st)
        return K(r) if r is not None else v

    def contains(self, a, b, st):
        if b.k == 'K' and a.k == 'K':
            try:
                return K(kv(a) in kv(b))
            except TypeError:
                pass
        items = None
        if b.k in ('Tup', 'List', 'Set', 'FSet'):
            items = b.a[0]
        elif b.k == 'Ref':
            r = st.heap[b.a[0]]
            if r.kind in ('list', 'set'):
                items = r.data
            elif r.kind == 'dict' and not r.extra:
                q, t, sure = self.dict_find(r, a, st)
                if q is not None:
                    return TRUE
                if sure:
                    return FALSE
                items = tuple(r.data)
        elif b.k == 'K' and isinstance(kv(b), (tuple, frozenset)):
            items = tuple(K(x) for x in kv(b))
        elif b.k == 'DictOf' and b.a[0].k == 'Ref' and a.k == 'K':
            r = st.heap[b.a[0].a[0]]
            if r.open is None:
                return K(kv(a) in r.data)
            if kv(a) in r.data:
                return TRUE
        if items is not None and all(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in items):
            def go(i, s):
                if i == len(items):
                    return FALSE
                c = self.equal(a, self.simp(items[i], s), s, False)
                return self.cond_val(c, s, lambda s2: TRUE, lambda s2: go(i + 1, s2))
            if len(items) <= 60:
                return go(0, st)
        if b.k == 'Cat' and a.k == 'K' and any(p.k == 'K' and kv(a) in kv(p) for p in b.a[0] if p.k == 'K'):
            return TRUE
        v = mk('In', self.snap(a, st), self.snap(b, st))
        r = self.truth(v, st)
        return K(r) if r is not None else v

    def ev_Subscript(self, e, st, m):
        x = self.ev(e.value, st, m)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, st, m) if e.slice.lower else NONE
            hi = self.ev(e.slice.upper, st, m) if e.slice.upper else NONE
            step = self.ev(e.slice.step, st, m) if e.slice.step else NONE
            return self.slice(x, lo, hi, step, st)
        i = self.ev(e.slice, st, m)
        return self.item(x, i, st)

    def item(self, x, i, st):
        x = self.simp(x, st)
        i = self.simp(i, st)
        if x.k == 'Gam':
            return self.fork_on(x.a[0], st, lambda s: self.item(x.a[1], i, s), lambda s: self.item(x.a[2], i, s))
        if i.k == 'Gam' and self.small(i):
            return self.fork_on(i.a[0], st, lambda s: self.item(x, i.a[1], s), lambda s: self.item(x, i.a[2], s))
        if x.k == 'Ref':
            r = st.heap[x.a[0]]
            if r.kind == 'dict':
                if i in r.data and not r.extra:
                    return self.simp(r.data[i], st)
                q, t, sure = self.dict_find(r, i, st)
                if q is not None and sure:
                    return self.simp(r.data[q], st)
                if q is None and sure and (t.k == 'K' or self.key_term(i, st) is not None):
                    raise RaiseSig(st, mk('Exc', 'KeyError'))
                if not r.extra and r.data and len(r.data) <= 80 and all(k.k == 'K' for k in r.data):
                    ents = tuple((k, self.snap(v, st)) for k, v in r.data.items())
                    return mk('Lookup', ents, self.snap(i, st))
                return mk('Item', self.snap(x, st), self.snap(i, st))
            if r.kind == 'list':
                if i.k == 'SliceObj':
                    return self.slice(x, i.a[0], i.a[1], i.a[2], st)
                v = self.seq_item(r.data, i, st)
                if v is not None:
                    return v
                return mk('Item', self.snap(x, st), i)
            f = self.dunder(x, '__getitem__', st)
            if f is not None:
                return self.call(f, [i], {}, st)
            if r.open is not None:
                return mk('Item', r.open, i)
            return mk('Item', self.snap(x, st), i)
        if x.k in ('Tup', 'List'):
            v = self.seq_item(x.a[0], i, st)
            if v is not None:
                return v
        if x.k == 'K' and i.k == 'K':
            try:
                return K(kv(x)[kv(i)])
            except Exception:
                raise RaiseSig(st, mk('Exc', 'IndexError'))
        if x.k == 'Ext' and x.a[0] == 'sys.modules' and i.k == 'K':
            n = str(kv(i))
            if n in self.repo.modules:
                return mk('Mod', n)
        if x.k == 'Cat' and i.k == 'K' and isinstance(kv(i), int):
            p = x.a[0][0 if kv(i) >= 0 else -1]
            if p.k == 'K':
                try:
                    return K(kv(p)[kv(i)])
                except IndexError:
                    pass
        # xs[idx(xs)] -> elem(xs)
        if i.k == 'Idx' and i.a[0] is x:
            return mk('Elem', x)
        c = self.cls_of(x)
        if c is not None:
            f = self.repo.find_method(c, '__getitem__')
            if f is not None:
                return self.call_func(f, [i], {}, st, recv=x)
        j = self.info.get(x)
        if j is not None and j.length is not None and i.k == 'K' and isinstance(kv(i), int):
            if kv(i) < 0:
                i = K(kv(i) + j.length)
            if not 0 <= kv(i) < j.length:
                raise RaiseSig(st, mk('Exc', 'IndexError'))
        return mk('Item', x, self.snap(i, st))

    def seq_item(self, items, i, st):
        if i.k == 'K' and isinstance(kv(i), int):
            n = kv(i)
            if all(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in items):
                if -len(items) <= n < len(items):
                    return self.simp(items[n], st)
                raise RaiseSig(st, mk('Exc', 'IndexError'))
            if n >= 0:
                pre = items[:n + 1]
                if len(pre) == n + 1 and all(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in pre):
                    return self.simp(items[n], st)
                if n == 0 and items and items[0].k == 'Spread':
                    pass
            else:
                suf = items[n:]
                if len(suf) == -n and all(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in suf):
                    return self.simp(items[n], st)
        return None

    def slice(self, x, lo, hi, step, st):
        x = self.simp(x, st)
        if x.k == 'Gam':
            return self.fork_on(x.a[0], st, lambda s: self.slice(x.a[1], lo, hi, step, s),
                                lambda s: self.slice(x.a[2], lo, hi, step, s))
        if all(t.k == 'K' for t in (lo, hi, step)):
            sl = slice(kv(lo), kv(hi), kv(step))
            if x.k == 'K':
                try:
                    return K(kv(x)[sl])
                except Exception:
                    return mk('Slice', x, lo, hi, step)
            if x.k in ('Tup', 'List') and all(y.k not in ('Star', 'Opt', 'Spread', 'Hole') for y in x.a[0]):
                return mk('Tup', x.a[0][sl])
            if x.k == 'Ref' and st.heap[x.a[0]].kind == 'list':
                d = st.heap[x.a[0]].data
                if all(y.k not in ('Star', 'Opt', 'Spread', 'Hole') for y in d):
                    return self.new_list(st, d[sl])
                if lo is NONE and hi is NONE and step is NONE:
                    return self.new_list(st, d)
                # prefix/suffix slices over a partially known list
                n = kv(lo) if lo is not NONE else 0
                if n >= 0 and hi is NONE and step is NONE and all(
                        y.k not in ('Star', 'Opt', 'Spread', 'Hole') for y in d[:n]) and len(d) >= n:
                    return self.new_list(st, d[n:])
            if x.k == 'Cat' and step is NONE:
                r = self.cat_slice(x, kv(lo), kv(hi))
                if r is not None:
                    return r
        if x.k == 'Ref' and st.heap[x.a[0]].kind == 'inst':
            f = self.dunder(x, '__getitem__', st)
            if f is not None:
                return self.call(f, [mk('SliceObj', lo, hi, step)], {}, st)
        if lo is NONE and hi is NONE and step is NONE:
            return x
        return mk('Slice', self.snap(x, st), lo, hi, step)

    def cat_slice(self, x, lo, hi):
        ps = list(x.a[0])
        lo = lo or 0
        if lo < 0 or (hi is not None and hi >= 0):
            return None
        if lo > 0:
            if not (ps[0].k == 'K' and len(kv(ps[0])) >= lo):
                return None
            ps[0] = K(kv(ps[0])[lo:])
        if hi is not None:
            if not (ps[-1].k == 'K' and len(kv(ps[-1])) >= -hi):
                return None
            ps[-1] = K(kv(ps[-1])[:hi])
        return cat(ps)

    # ---- comprehensions
    def ev_ListComp(self, e, st, m):
        return self.new_list(st, self.comp_items(e, st, m))

    def ev_GeneratorExp(self, e, st, m):
        return mk('Tup', self.comp_items(e, st, m))

    def ev_SetComp(self, e, st, m):
        return self.new_ref(st, Rec('set', None, self.comp_items(e, st, m)))

    def ev_DictComp(self, e, st, m):
        lst = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        fake = ast.ListComp(elt=lst, generators=e.generators)
        items = self.comp_items(fake, st, m)
        r = Rec('dict', None, {})
        for x in items:
            if x.k == 'Tup' and len(x.a[0]) == 2:
                r.data[x.a[0][0]] = x.a[0][1]
            else:
                r.extra = r.extra + ((mk('OptKey', x), x),)
        return self.new_ref(st, r)

    def comp_items(self, e, st, m):
        body = [ast.Expr(value=ast.Yield(value=e.elt))]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        saved = dict(st.env)
        old = st.env.get('$yield')
        lst = self.new_list(st)
        st.env['$yield'] = lst
        out = self.block(body, st, m)
        res = self.merge_normals(out)
        if res is None:
            xs = [l for l in leaves(out) if l.kind == 'X']
            raise RaiseSig(xs[0].st if xs else st, xs[0].val if xs else mk('Exc', 'Exception'))
        items = res.heap[lst.a[0]].data
        st.become(res)
        st.env = saved
        return items

    def ev_Yield(self, e, st, m):
        v = self.ev(e.value, st, m) if e.value is not None else NONE
        y = st.env.get('$yield')
        if y is not None:
            r = st.heap[y.a[0]]
            st.heap[y.a[0]] = r.copy(r.data + (v,))
        return NONE

    def ev_YieldFrom(self, e, st, m):
        v = self.ev(e.value, st, m)
        y = st.env.get('$yield')
        if y is not None:
            r = st.heap[y.a[0]]
            st.heap[y.a[0]] = r.copy(r.data + self.as_items(v, st))
        return NONE

    def ev_Starred(self, e, st, m):
        return mk('Spread', self.ev(e.value, st, m))

    def ev_NamedExpr(self, e, st, m):
        v = self.ev(e.value, st, m)
        st.env[e.target.id] = v
        return v

    def ev_Slice(self, e, st, m):
        return mk('Unk', 'slice')

    def as_items(self, v, st):
        """Items of an iterable term, as a sequence of item terms."""
        v = self.simp(v, st)
        if v.k in ('Set', 'FSet') and self.set_order and len(v.a[0]) > 1:
            return tuple(self.set_order(v.a[0]))
        if v.k in ('Tup', 'List', 'Set', 'FSet'):
            return v.a[0]
        if v.k == 'Ref':
            r = st.heap[v.a[0]]
            if r.kind == 'set' and self.set_order and len(r.data) > 1:
                return tuple(self.set_order(r.data))
            if r.kind in ('list', 'set'):
                return r.data
            if r.kind == 'dict':
                return self.dict_keys(r, st) + tuple(mk('Spread', mk('Key', k)) for k, _ in r.extra)
            f = self.dunder(v, '__iter__', st)
            if f is not None and self.recurse:
                g = self.simp(self.call(f, [], {}, st), st)
                if g.k in ('Tup', 'List') or g.k == 'Ref' and st.heap[g.a[0]].kind == 'list':
                    return self.as_items(g, st)
            return (mk('Spread', self.snap(v, st)),)
        if v.k == 'K' and isinstance(kv(v), (tuple, str)):
            return tuple(K(x) for x in kv(v))
        if v.k == 'Gam':
            return opt(v.a[0], self.as_items(v.a[1], st), self.as_items(v.a[2], st))
        if v is NONE:
            return (mk('Spread', v),)
        if v.k in ('Elem', 'Attr', 'Item', 'Sym', 'Call', 'Global', 'Lookup', 'Slice') or True:
            i = self.info.get(v)
            if i is not None and i.length is not None and i.length <= 6:
                return tuple(mk('Item', v, K(n)) for n in range(i.length))
            return (mk('Spread', v),)

    # ---- calls
    def ev_Call(self, e, st, m):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            slf = st.env.get('self')
            if e.args:
                c = self.ev(e.args[0], st, m)
                slf = self.ev(e.args[1], st, m)
                return mk('Super', c.a[0], slf)
            c = self.cur_class(m)
            return mk('Super', c.qual, slf) if c else mk('Unk', 'super')
        f = self.ev(e.func, st, m)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, m)
                args.extend(self.as_items(v, st))
            else:
                args.append(self.ev(a, st, m))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, st, m)
                v = self.simp(v, st)
                if v.k == 'Ref' and st.heap[v.a[0]].kind == 'dict':
                    for kk, vv in st.heap[v.a[0]].data.items():
                        if kk.k == 'K':
                            kwargs[kv(kk)] = vv
                continue
            kwargs[k.arg] = self.ev(k.value, st, m)
        return self.call(f, args, kwargs, st, m, e)

    def cur_class(self, m):
        for c in m.classes.values():
            for f in c.methods.values():
                if self.stack and f.node is self.stack[-1]:
                    return c
        return None

    # ------------------------------------------------------------ builtins
    def builtin(self, n, args, kwargs, st, m=None, node=None):
        a = [self.simp(x, st) for x in args]
        if n == 'isinstance' and len(a) == 2:
            return self.lift1(a[0], st, lambda x, s: self._isinst(x, a[1], s))
        if n == 'len' and len(a) == 1:
            return self.lift1(a[0], st, self._len)
        if n == 'type' and len(a) == 1:
            return self.lift1(a[0], st, self._type)
        if n == 'str':
            if not a:
                return K('')
            return self.to_str(a[0], st)
        if n == 'format' and a and (len(a) == 1 or isK(a[1])):
            return self.fmt_one(a[0], kv(a[1]) if len(a) > 1 else '', '', st)
        if n == 'repr' and a:
            f = self.dunder(a[0], '__repr__', st)
            if f is not None:
                return self.call(f, [], {}, st)
            if a[0].k == 'K':
                return K(repr(kv(a[0])))
            return mk('Repr', self.snap(a[0], st))
        if n in ('tuple', 'list', 'set', 'frozenset'):
            if not a:
                items = ()
            else:
                if a[0].k == 'Gam' and n == 'tuple':
                    return self.lift1(a[0], st, lambda x, s: self.builtin('tuple', [x], {}, s))
                items = self.as_items(a[0], st)
            if n == 'tuple':
                return mk('Tup', items)
            if n == 'list':
                return self.new_list(st, items)
            return self.new_ref(st, Rec('set', 'frozenset' if n == 'frozenset' else None, self._dedup(items, st)))
        if n == 'dict':
            r = Rec('dict', None, dict((K(k), v) for k, v in kwargs.items()))
            if a:
                if a[0].k == 'Ref' and st.heap[a[0].a[0]].kind == 'dict':
                    s = st.heap[a[0].a[0]]
                    d = dict(s.data)
                    d.update(r.data)
                    r.data = d
                    r.extra = s.extra
                else:
                    for x in self.as_items(a[0], st):
                        if x.k == 'Tup' and len(x.a[0]) == 2:
                            r.data[x.a[0][0]] = x.a[0][1]
                        else:
                            r.extra = r.extra + ((mk('OptKey', x), x),)
            return self.new_ref(st, r)
        if n == 'getattr' and len(a) >= 2:
            nm = a[1]

            def ga(x, s):
                if x.k == 'K' and x.a[0] == 'str':
                    if len(a) == 3:
                        obj = self.simp(a[0], s)
                        return self.getattr_default(obj, kv(x), a[2], s)
                    return self.getattr(a[0], kv(x), s)
                return mk('GetAttr', self.snap(a[0], s), x) if len(a) == 2 else \
                    mk('GetAttr', self.snap(a[0], s), x, self.snap(a[2], s))
            return self.lift1(nm, st, ga)
        if n == 'id' and len(a) == 1:
            v = self.simp(a[0], st)
            if v.k == 'Ref' and self.strict:
                return K(1000000 + 16 * v.a[0] * (-1 if self.set_order else 1))
            if self.strict and v.k in ('K', 'Tup', 'Cls', 'Fn', 'Bi'):
                return K(5000000 + 16 * self._ids.setdefault(v, len(self._ids)))
        if n == 'dir' and len(a) == 1:
            v = self.simp(a[0], st)
            r = st.heap.get(v.a[0]) if v.k == 'Ref' else None
            if r is not None and r.kind == 'inst' and isinstance(r.cls, Class) and r.open is None:
                ns = set(dir(object())) | set(r.data) | {'__dict__', '__module__', '__weakref__'}
                for c in self.repo.mro(r.cls):
                    ns |= set(c.methods) | set(c.attrs)
                return self.new_list(st, [K(x) for x in sorted(ns)])
            if v.k == 'K':
                return self.new_list(st, [K(x) for x in dir(kv(v))])
            kind = v.k == 'Tup' and tuple or r is not None and {'list': list, 'dict': dict, 'set': set}.get(r.kind)
            if kind:
                return self.new_list(st, [K(x) for x in dir(kind)])
        if n == 'setattr' and len(a) == 3 and a[1].k == 'K':
            self.setattr(a[0], kv(a[1]), a[2], st)
            return NONE
        if n == 'eval' and len(a) == 1 and a[0].k == 'K' and a[0].a[0] == 'str' and m is not None:
            try:
                body = ast.parse(kv(a[0]).strip(), mode='eval').body
            except SyntaxError:
                raise RaiseSig(st, mk('Exc', 'SyntaxError'))
            return self.ev(body, st, m)
        if n == 'hasattr' and len(a) == 2 and a[1].k == 'K':
            return self.lift1(a[0], st, lambda x, s: self._hasattr(x, kv(a[1]), s))
        if n == 'reversed' and a:
            items = self.as_items(a[0], st)
            if all(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in items):
                return mk('Tup', tuple(reversed(items)))
            return mk('Tup', tuple(mk('Rev', x) if x.k in ('Star', 'Opt', 'Spread', 'Hole') else x
                                   for x in reversed(items)))
        if n == 'enumerate' and a:
            start = a[1] if len(a) > 1 else kwargs.get('start', K(0))
            items = self.as_items(a[0], st)
            if all(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in items) and start.k == 'K':
                return mk('Tup', tuple(mk('Tup', (K(i + kv(start)), x)) for i, x in enumerate(items)))
            return mk('Enum', self.iter_src(a[0], st), start)
        if n == 'zip':
            iss = [self.as_items(x, st) for x in a]
            if all(all(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in i) for i in iss):
                return mk('Tup', tuple(mk('Tup', tuple(z)) for z in zip(*iss)))
            return mk('Zip', tuple(self.iter_src(x, st) for x in a))
        if n == 'range':
            if all(x.k == 'K' for x in a):
                r = range(*[kv(x) for x in a])
                if len(r) <= 40:
                    return mk('Tup', tuple(K(i) for i in r))
            return mk('Range', tuple(a))
        if n == 'map' and len(a) == 2:
            return self.map_fn(a[0], a[1], st)
        if n == 'filter' and len(a) == 2:
            return mk('Filter', a[0], self.snap(a[1], st))
        if n == 'sorted' and a:
            key = kwargs.get('key')
            items = self.as_items(a[0], st)
            if self.strict:
                return self.sort_closed(items, key, kwargs, st)
            ks = self.snap(key, st) if key is not None else NONE
            if key is not None and key.k == 'Fn':
                probe = mk('Elem', self.snap(a[0], st))
                try:
                    ks = self.snap(self.call(key, [probe], {}, st), st)
                except RaiseSig:
                    pass
            rv = kwargs.get('reverse', FALSE)
            return self.new_list(st, (mk('Spread', mk('Sorted', self.iter_src(a[0], st), ks, rv)),))
        if n in ('any', 'all') and a:
            items = self.as_items(a[0], st)
            if all(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in items):
                def go(i, s):
                    if i == len(items):
                        return K(n == 'all')
                    c = items[i]
                    if n == 'all':
                        return self.cond_val(c, s, lambda s2: go(i + 1, s2), lambda s2: FALSE)
                    return self.cond_val(c, s, lambda s2: TRUE, lambda s2: go(i + 1, s2))
                return go(0, st)
            return self.quant(n, items)
        if n in ('min', 'max', 'abs', 'int', 'float', 'bool', 'hash', 'ord', 'chr', 'sum', 'pow', 'round',
                 'divmod', 'bin', 'hex', 'oct', 'id'):
            if n in ('min', 'max', 'sum') and len(a) == 1 and not kwargs and a[0].k != 'K' and self.strict:
                items = self.as_items(a[0], st)
                if all(x.k == 'K' for x in items):
                    try:
                        return K(getattr(_b, n)([kv(x) for x in items]))
                    except Exception as x:
                        raise RaiseSig(st, mk('Exc', type(x).__name__))
            if all(x.k == 'K' for x in a) and n not in ('hash', 'id') and not kwargs and a:
                try:
                    return K(getattr(_b, n)(*[kv(x) for x in a]))
                except Exception as x:
                    if self.strict:
                        raise RaiseSig(st, mk('Exc', type(x).__name__))
            if n == 'bool' and a:
                d = self.truth(a[0], st)
                if d is not None:
                    return K(d)
                return a[0] if is_boolish(a[0]) else mk('Bool', self.snap(a[0], st))
            return mk('Fun', n, tuple(self.snap(x, st) for x in a))
        if n == 'print':
            st.ev = st.ev + (mk('Ev', 'print', tuple(self.snap(x, st) for x in a)),)
            return NONE
        if n == 'open':
            return self.opaque_call(mk('Bi', 'open'), a, kwargs, st)
        if n in EXC_BASES or n.endswith('Error') or n.endswith('Exception'):
            return mk('Exc', n, tuple(self.snap(x, st) for x in a))
        if n == 'iter' and a:
            return a[0]
        if n == 'next' and a:
            items = self.as_items(a[0], st)
            if items and items[0].k not in ('Star', 'Opt', 'Spread', 'Hole'):
                return items[0]
            return mk('First', self.snap(a[0], st)) if len(a) == 1 else mk('First', self.snap(a[0], st), a[1])
        return self.opaque_call(mk('Bi', n), a, kwargs, st)

    def sort_closed(self, items, key, kwargs, st):
        def py(t, top=True):
            t = self.simp(t, st)
            if t.k == 'K':
                return kv(t)
            if t.k in ('Tup', 'List'):
                return tuple(py(x, False) for x in t.a[0])
            c = self.cls_of(t)
            if t.k == 'Ref' and st.heap[t.a[0]].kind == 'inst' and isinstance(st.heap[t.a[0]].cls, Class):
                c = st.heap[t.a[0]].cls
            if top and c is not None and not [b for b in self.repo.ext_bases(c) if b != 'object'] and not (
                    self.repo.find_method(c, '__lt__') or self.repo.find_method(c, '__gt__')):
                return object()     # has no order: comparing two of them is a TypeError
            if t.k == 'Ref' and st.heap[t.a[0]].kind == 'list':
                return [py(x) for x in st.heap[t.a[0]].data]
            self.undecided(mk('Sorted', self.snap(t, st)), st)
        ks = [py(self.call(key, [x], {}, st) if key is not None and key is not NONE else x) for x in items]
        try:
            order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(kv(kwargs.get('reverse', FALSE))))
        except TypeError:
            raise RaiseSig(st, mk('Exc', 'TypeError'))
        return self.new_list(st, [items[i] for i in order])

    def getattr_default(self, obj, name, default, st):
        obj = self.simp(obj, st)
        h = self._hasattr(obj, name, st)
        if h is TRUE:
            return self.getattr(obj, name, st)
        if h is FALSE:
            return default
        return gam(h, self.getattr(obj, name, st), default)

    def _hasattr(self, x, name, st):
        if x.k == 'Ref':
            r = st.heap[x.a[0]]
            if r.kind == 'inst' and isinstance(r.cls, Class):
                if name in r.data or self.repo.find_method(r.cls, name) or self.repo.find_attr(r.cls, name):
                    return TRUE
                if r.open is None or name.startswith('visit_'):
                    return FALSE        # handler methods are looked up on the class
                return mk('Has', r.open, name)
            if r.kind != 'inst':
                return K(hasattr({'list': [], 'set': set(), 'dict': {}}[r.kind], name))
        if x.k == 'K':
            return K(hasattr(kv(x), name))
        if x.k == 'Tup':
            return K(hasattr((), name))
        if x.k in ('Bnd', 'Fn', 'Cls') and name in ('__call__', '__name__', '__doc__'):
            return TRUE
        if x.k == 'Mod' and x.a[0] in self.repo.modules:
            m = self.repo.modules[x.a[0]]
            return K(self.repo.lookup(m, name) is not None or m.name + '.' + name in self.repo.modules)
        c = self.cls_of(x)
        if c is not None and (self.repo.find_method(c, name) or self.repo.find_attr(c, name)):
            return TRUE
        v = mk('Has', self.snap(x, st), name)
        r = self.truth(v, st)
        return K(r) if r is not None else v

    def _isinst(self, x, c, st):
        if c.k == 'Tup':
            cs = c.a[0]

            def go(i, s):
                if i == len(cs):
                    return FALSE
                v = self._isinst(x, cs[i], s)
                return self.cond_val(v, s, lambda s2: TRUE, lambda s2: go(i + 1, s2))
            return go(0, st)
        r = self.isa(x, c, st)
        if r is not None:
            return K(r)
        return mk('IsA', self.snap(x, st), c)

    def _len(self, x, st):
        if x.k == 'K':
            try:
                return K(len(kv(x)))
            except TypeError:
                pass
        items = None
        if x.k in ('Tup', 'List'):
            items = x.a[0]
        elif x.k == 'Ref':
            r = st.heap[x.a[0]]
            if r.kind == 'list':
                items = r.data
            elif r.kind == 'set' and (len(r.data) <= 1 or self.strict and all(self.definite(y, st) for y in r.data)):
                items = r.data
            elif r.kind == 'dict' and not r.extra:
                return K(len(r.data))
            else:
                f = self.dunder(x, '__len__', st)
                if f is not None:
                    return self.call(f, [], {}, st)
        if items is not None:
            if all(y.k not in ('Star', 'Opt', 'Spread', 'Hole') for y in items):
                return K(len(items))
            if len(items) == 1 and items[0].k == 'Spread':
                return mk('Len', items[0].a[0])
            if len(items) == 1 and items[0].k == 'Star' and len(items[0].a[1]) == 1 \
                    and items[0].a[1][0].k not in ('Star', 'Opt', 'Spread', 'Hole'):
                return mk('Len', items[0].a[0])
        i = self.info.get(x)
        if i is not None and i.length is not None:
            return K(i.length)
        c = self.cls_of(x)
        if c is not None and x.k != 'Ref':
            f = self.repo.find_method(c, '__len__')
            if f is not None:
                return self.call_func(f, [], {}, st, recv=x)
        return mk('Len', self.snap(x, st))

    def _type(self, x, st):
        if x.k == 'Ref':
            r = st.heap[x.a[0]]
            if r.kind == 'inst':
                return self.cls_term(r.cls)
            return mk('Bi', r.kind)
        if x.k == 'K':
            return mk('Bi', x.a[0])
        if x.k == 'Tup':
            return mk('Bi', 'tuple')
        if x.k == 'Inst':
            return mk('Cls', x.a[0])
        if self.is_str(x):
            return mk('Bi', 'str')
        i = self.info.get(x)
        if i is not None and i.types is not None and len(i.types) == 1:
            return mk('Cls', list(i.types)[0])
        return mk('TypeOf', x)

    def definite(self, x, st):
        """A value whose equality with others of its kind is known."""
        if x.k == 'Tup':
            return all(self.definite(y, st) for y in x.a[0])
        return x.k == 'K' or x.k == 'Ref' and self.key_term(x, st) is not None

    def _dedup(self, items, st=None):
        out, keys = [], []
        for x in items:
            if x in out:
                continue
            if st is not None and self.strict and x.k in ('Ref', 'Tup'):
                t = self.key_term(x, st)
                if t is not None and t.k != 'Ref':
                    if any(q.k == t.k and (q is t or self.key_equal(q, t)) for q in keys):
                        continue
                    keys.append(t)
            out.append(x)
        return tuple(out)

    def set_find(self, data, x, st):
        """The element of the set equal to x, or None."""
        if x in data:
            return x
        if self.strict and x.k in ('Ref', 'Tup'):
            t = self.key_term(x, st)
            if t is not None and t.k != 'Ref':
                for y in data:
                    q = self.key_term(y, st)
                    if q is not None and q.k == t.k and (q is t or self.key_equal(q, t)):
                        return y
        return None

    def set_op(self, op, a, b, st):
        """|, &, - and ^ of two sets with known elements."""
        x, y = self.as_items(a, st), self.as_items(b, st)
        if any(z.k in ('Star', 'Opt', 'Spread', 'Hole') for z in x + y):
            return None
        if op == 'BitOr':
            d = self._dedup(x + y, st)
        else:
            inb = [z for z in x if self.set_find(y, z, st) is not None]
            if op == 'BitAnd':
                d = tuple(inb)
            else:
                d = tuple(z for z in x if z not in inb)
                if op == 'BitXor':
                    d += tuple(z for z in y if self.set_find(x, z, st) is None)
        return self.new_ref(st, Rec('set', None, d))

    def quant(self, n, items):
        return mk('Any' if n == 'any' else 'All', tuple(items))

    def map_fn(self, f, it, st):
        fe = ast.parse('[$f(x) for x in $i]'.replace('$', '_q_')).body[0].value
        st.env['_q_f'] = f
        st.env['_q_i'] = it
        v = self.new_list(st, self.comp_items(fe, st, self.repo.mod('vparser.ast')))
        st.env.pop('_q_f', None)
        st.env.pop('_q_i', None)
        return v

    # ------------------------------------------------------------ methods of builtin values
    def method(self, x, n, args, kwargs, st):
        a = [self.simp(v, st) for v in args]
        x = self.simp(x, st)
        if x.k == 'Super':
            if n == '__init__':
                return NONE
            return self.opaque_call(mk('Attr', x, n), a, kwargs, st)
        if x.k == 'Ref':
            r = st.heap[x.a[0]]
            if r.kind == 'list':
                return self.list_method(x, r, n, a, kwargs, st)
            if r.kind == 'set':
                if n == 'add':
                    if self.set_find(r.data, a[0], st) is None:
                        st.heap[x.a[0]] = r.copy(r.data + (a[0],))
                    return NONE
                if n in ('intersection', 'difference', 'symmetric_difference') and len(a) == 1 and self.strict:
                    v = self.set_op({'i': 'BitAnd', 'd': 'Sub', 's': 'BitXor'}[n[0]], x, a[0], st)
                    if v is not None:
                        return v
                if n == 'update':
                    st.heap[x.a[0]] = r.copy(self._dedup(r.data + self.as_items(a[0], st), st))
                    return NONE
                if n in ('union', '__or__'):
                    d = r.data
                    for y in a:
                        d = self._dedup(d + self.as_items(y, st), st)
                    return self.new_ref(st, Rec('set', None, d))
                if n in ('discard', 'remove') and a:
                    z = self.set_find(r.data, a[0], st)
                    if z is not None:
                        st.heap[x.a[0]] = r.copy(tuple(y for y in r.data if y is not z))
                        return NONE
                    if self.strict and all(self.definite(y, st) for y in r.data + (a[0],)):
                        if n == 'remove':
                            raise RaiseSig(st, mk('Exc', 'KeyError'))
                        return NONE
                    st.heap[x.a[0]] = r.copy((mk('Spread', mk('Minus', mk('Set', r.data), a[0])),))
                    return NONE
                if n == 'copy':
                    return self.new_ref(st, r)
                if n == 'clear':
                    st.heap[x.a[0]] = r.copy(())
                    return NONE
            if r.kind == 'dict':
                return self.dict_method(x, r, n, a, kwargs, st)
        if x.k == 'ReMatch' and all(t.k == 'K' for t in a):
            g = kv(x.a[0])
            if n == 'group' and len(a) == 1 and isinstance(kv(a[0]), int) and kv(a[0]) < len(g):
                return K(g[kv(a[0])])
            if n == 'group' and not a:
                return K(g[0])
            if n == 'groups':
                return K(g[1:])
        if x.k == 'SliceObj' and n == 'indices' and len(a) == 1 and a[0].k == 'K' and all(t.k == 'K' for t in x.a):
            return mk('Tup', tuple(K(i) for i in slice(*[kv(t) for t in x.a]).indices(kv(a[0]))))
        if x.k in ('Tup', 'List'):
            if n in ('index', 'count') and a:
                items = x.a[0]
                if all(y.k == 'K' for y in items) and a[0].k == 'K':
                    pys = [kv(y) for y in items]
                    if n == 'count':
                        return K(pys.count(kv(a[0])))
                    if kv(a[0]) in pys:
                        return K(pys.index(kv(a[0])))
                    raise RaiseSig(st, mk('Exc', 'ValueError'))
        if self.is_str(x):
            return self.str_method(x, n, a, kwargs, st)
        if x.k == 'K' and isinstance(kv(x), (int, float)) and n in ('bit_length', 'bit_count', 'is_integer', 'conjugate', '__index__', '__int__') and not a and \
                hasattr(kv(x), n):
            return K(getattr(kv(x), n)())
        return self.opaque_call(mk('Attr', self.snap(x, st), n), a, kwargs, st)

    def list_method(self, x, r, n, a, kwargs, st):
        i = x.a[0]
        if n == 'append':
            st.heap[i] = r.copy(r.data + (a[0],))
            return NONE
        if n == 'extend':
            st.heap[i] = r.copy(r.data + self.as_items(a[0], st))
            return NONE
        if n == 'insert':
            if a[0].k == 'K' and kv(a[0]) == 0:
                st.heap[i] = r.copy((a[1],) + r.data)
            elif a[0].k == 'K' and isinstance(kv(a[0]), int) and kv(a[0]) > 0 and all(
                    y.k not in ('Star', 'Opt', 'Spread', 'Hole') for y in r.data[:kv(a[0])]):
                st.heap[i] = r.copy(r.data[:kv(a[0])] + (a[1],) + r.data[kv(a[0]):])
            else:
                st.heap[i] = r.copy((mk('Spread', mk('Insert', mk('List', r.data), a[0], a[1])),))
            return NONE
        if n == 'reverse':
            st.heap[i] = r.copy(self.builtin('reversed', [mk('Tup', r.data)], {}, st).a[0])
            return NONE
        if n == 'pop':
            plain = all(y.k not in ('Star', 'Opt', 'Spread', 'Hole') for y in r.data)
            if not a and r.data and r.data[-1].k not in ('Star', 'Opt', 'Spread', 'Hole'):
                st.heap[i] = r.copy(r.data[:-1])
                return r.data[-1]
            if a and a[0].k == 'K' and kv(a[0]) == 0 and r.data and \
                    r.data[0].k not in ('Star', 'Opt', 'Spread', 'Hole'):
                st.heap[i] = r.copy(r.data[1:])
                return r.data[0]
            if plain and not r.data:
                raise RaiseSig(st, mk('Exc', 'IndexError'))
            v = mk('Popped', mk('List', r.data), a[0] if a else K(-1))
            st.heap[i] = r.copy((mk('Spread', mk('PopRest', mk('List', r.data), a[0] if a else K(-1))),))
            return v
        if n == 'copy':
            return self.new_list(st, r.data)
        if n == 'clear':
            st.heap[i] = r.copy(())
            return NONE
        if n == 'sort':
            key = kwargs.get('key')
            v = self.builtin('sorted', [x], kwargs, st)
            st.heap[i] = r.copy(st.heap[v.a[0]].data)
            return NONE
        if n == 'remove':
            if a and a[0] in r.data:
                d = list(r.data)
                d.remove(a[0])
                st.heap[i] = r.copy(tuple(d))
            else:
                st.heap[i] = r.copy((mk('Spread', mk('Minus', mk('List', r.data), a[0])),))
            return NONE
        if n in ('index', 'count'):
            return self.method(mk('Tup', r.data), n, a, kwargs, st) if all(
                y.k == 'K' for y in r.data) else mk('Fun', n, (mk('List', r.data),) + tuple(a))
        return mk('Fun', 'list.' + n, (mk('List', r.data),) + tuple(a))

    def dict_method(self, x, r, n, a, kwargs, st):
        i = x.a[0]
        if n == 'get' and a:
            d = a[1] if len(a) > 1 else NONE
            if a[0].k == 'K' and not r.extra and all(k.k == 'K' for k in r.data):
                return self.simp(r.data.get(a[0], d), st)
            if a[0] in r.data and not r.extra:
                return self.simp(r.data[a[0]], st)
            q, t, sure = self.dict_find(r, a[0], st)
            if sure:
                return self.simp(r.data[q], st) if q is not None else d
            if not r.extra and r.data and all(k.k == 'K' for k in r.data):
                ents = tuple((k, self.snap(v, st)) for k, v in r.data.items())
                return mk('Lookup', ents, self.snap(a[0], st), self.snap(d, st))
            return mk('DGet', self.snap(x, st), self.snap(a[0], st), d)
        if n == 'items':
            return mk('Tup', tuple(mk('Tup', (k, v)) for k, v in zip(self.dict_keys(r, st), r.data.values())) +
                      tuple(mk('Spread', mk('Extra', k)) for k, v in r.extra))
        if n == 'keys':
            return mk('Tup', self.dict_keys(r, st) + tuple(mk('Spread', mk('Extra', k)) for k, v in r.extra))
        if n == 'values':
            return mk('Tup', tuple(r.data.values()) + tuple(mk('Spread', mk('Extra', k)) for k, v in r.extra))
        if n == 'update':
            nr = r.copy(dict(r.data))
            if a:
                v = a[0]
                if v.k == 'Ref' and st.heap[v.a[0]].kind == 'dict':
                    for kk, vv in st.heap[v.a[0]].data.items():
                        q, t, sure = self.dict_find(nr, kk, st)
                        nr.data[q if q is not None else t] = vv
                    nr.extra = nr.extra + st.heap[v.a[0]].extra
                else:
                    nr.extra = nr.extra + ((mk('Spread', self.snap(v, st)), self.snap(v, st)),)
            for k, v in kwargs.items():
                nr.data[K(k)] = v
            st.heap[i] = nr
            return NONE
        if n == 'copy':
            return self.new_ref(st, r)
        if n == 'setdefault' and a:
            if a[0] in r.data:
                return r.data[a[0]]
            q, t, sure = self.dict_find(r, a[0], st)
            if q is not None and sure:
                return r.data[q]
            if sure:
                nr = r.copy(dict(r.data))
                nr.data[t] = a[1] if len(a) > 1 else NONE
                st.heap[i] = nr
                return nr.data[t]
        if n == 'pop' and a and self.dict_find(r, a[0], st)[0] is not None:
            nr = r.copy(dict(r.data))
            v = nr.data.pop(self.dict_find(r, a[0], st)[0])
            st.heap[i] = nr
            return v
        return mk('Fun', 'dict.' + n, (self.snap(x, st),) + tuple(self.snap(y, st) for y in a))

    # ---- dictionaries whose keys are objects with content equality
    def closed(self, t):
        m = self._closed.get(t)
        if m is None:
            m = True
            todo = [t]
            while todo and m:
                x = todo.pop()
                if x.k == 'K':
                    continue
                if x.k == 'Inst':
                    todo += [v for _, v in x.a[1]]
                elif x.k in ('Tup', 'List', 'FSet'):
                    todo += list(x.a[0])
                elif x.k not in ('Cls', 'Fn', 'Bi'):
                    m = False
            self._closed[t] = m
        return m

    def key_term(self, k, st):
        """Immutable term standing for a dictionary key (None: not representable)."""
        if k.k == 'K':
            return k
        if k.k == 'Ref':
            r = st.heap.get(k.a[0])
            if r is None or r.kind != 'inst':
                return None
            if not isinstance(r.cls, Class) or self.repo.find_method(r.cls, '__eq__') is None:
                return k
            s = self.snap(k, st)
            return s if self.closed(s) else None
        if k.k in ('Tup', 'Inst', 'FSet'):
            s = self.snap(k, st)
            return s if self.closed(s) else None
        if k.k in ('Cls', 'Fn', 'Bi'):
            return k
        return None

    def hash_term(self, t):
        if t not in self._hashes:
            self._hashes[t] = t
            if t.k == 'Inst':
                c = self.cls_of(t)
                f = self.repo.find_method(c, '__hash__') if c is not None else None
                if f is not None:
                    s = St()
                    h = self.snap(self.call(mk('Bnd', self.thaw(t, s), self.fn(f)), [], {}, s), s)
                    self._hashes[t] = rewrite(h, lambda x: self.hash_term(x) if x.k == 'Inst' else x)
            elif t.k == 'Tup':
                self._hashes[t] = mk('Tup', tuple(self.hash_term(x) for x in t.a[0]))
        return self._hashes[t]

    def key_equal(self, a, b):
        if a is b:
            return True
        if a.k != b.k or a.k == 'Ref':
            return False
        if a.k == 'K':
            try:
                return bool(kv(a) == kv(b))
            except Exception:
                return False
        key = (a, b) if a.n < b.n else (b, a)
        if key not in self._keyeq:
            v = False
            if a.k == 'Tup':
                v = len(a.a[0]) == len(b.a[0]) and all(self.key_equal(x, y) for x, y in zip(a.a[0], b.a[0]))
            elif a.k == 'Inst' and self.hash_term(a) is self.hash_term(b):
                s = St()
                r = self.equal(self.thaw(a, s), self.thaw(b, s), s, False)
                v = bool(kv(r)) if r.k == 'K' else None
            self._keyeq[key] = v
        return self._keyeq[key]

    def dict_find(self, r, k, st):
        """(the key of the record equal to k or None, k as key term, decided?)"""
        if r.extra:
            return (k if k in r.data else None), k, False
        t = self.key_term(k, st)
        if t is None:
            return None, k, not r.data
        if t in r.data:
            return t, t, True
        for q in r.data:
            if q.k == t.k and q.k != 'Ref':
                e = self.key_equal(q, t)
                if e:
                    return q, t, True
                if e is None:
                    return None, t, False
            elif q.k not in ('K', 'Tup', 'Inst', 'Ref', 'FSet', 'Cls', 'Fn', 'Bi'):
                return None, t, False
        return None, t, True

    def dict_keys(self, r, st):
        return tuple(self.thaw(k, st) if k.k in ('Inst', 'Tup') else k for k in r.data)

    def str_method(self, x, n, a, kwargs, st):
        if n == 'join' and a:
            items = self.as_items(a[0], st)
            sep = x
            plain = all(y.k not in ('Star', 'Opt', 'Spread', 'Hole') for y in items)
            if plain or (sep.k == 'K' and kv(sep) == ''):
                out = []
                for j, y in enumerate(items):
                    if j and not (sep.k == 'K' and kv(sep) == ''):
                        out.append(sep)
                    out.append(y)
                return cat(out)
            return mk('Cat', (mk('Join', sep, tuple(items)),))
        if x.k == 'K' and all(y.k == 'K' for y in a) and n in dir(str) and not kwargs:
            try:
                r = getattr(kv(x), n)(*[kv(y) for y in a])
            except Exception as ex:
                raise RaiseSig(st, mk('Exc', type(ex).__name__))
            return self.const_val(r, st)
        if n in ('startswith', 'endswith') and len(a) == 1 and a[0].k == 'K':
            if x.k == 'Cat':
                p = x.a[0][0 if n == 'startswith' else -1]
                w = kv(a[0])
                if p.k == 'K' and isinstance(w, str):
                    if len(kv(p)) >= len(w):
                        return K(getattr(kv(p), n)(w))
                    m = min(len(kv(p)), len(w))
                    if n == 'startswith' and kv(p) != w[:m] or n == 'endswith' and kv(p) != w[-m:]:
                        return FALSE
        if n == 'format':
            if x.k == 'K':
                return self.str_format(kv(x), a, kwargs, st)
        if n == 'replace' and len(a) == 2 and x.k == 'Cat':
            return cat([mk('Replace', p, a[0], a[1]) if p.k != 'K' else self.str_method(p, 'replace', a, {}, st)
                        for p in x.a[0]]) if all(p.k == 'K' or True for p in x.a[0]) and a[0].k == 'K' \
                and len(kv(a[0])) == 1 else mk('Replace', x, a[0], a[1])
        if n == 'replace' and len(a) == 2:
            return mk('Replace', x, a[0], a[1])
        if n == 'encode' or n == 'decode':
            return x
        v = mk('Fun', 'str.' + n, (self.snap(x, st),) + tuple(self.snap(y, st) for y in a))
        if n in ('startswith', 'endswith', 'isspace', 'isdigit'):
            r = self.truth(v, st)
            return K(r) if r is not None else v
        self.info.setdefault(v, Info(isstr=n in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace')))
        return v

    def str_format(self, fmt, a, kwargs, st):
        ps = []
        auto = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    ps.append(K(lit))
                if fld is None:
                    continue
                if fld == '':
                    v = a[auto]
                    auto += 1
                elif fld.isdigit():
                    v = a[int(fld)]
                elif fld in kwargs:
                    v = kwargs[fld]
                else:
                    v = mk('Unk', 'fmt:' + fld)
                ps.append(self.fmt_one(v, spec or '', conv or '', st))
        except (ValueError, IndexError):
            return mk('Fmt', fmt, tuple(a))
        return cat(ps)

    def const_val(self, r, st):
        if isinstance(r, (list,)):
            return self.new_list(st, [K(y) for y in r])
        if isinstance(r, tuple):
            return mk('Tup', tuple(K(y) for y in r))
        return K(r)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, m):
        out = Leaf('N', st)
        for s in stmts:
            out = self.bind(out, lambda s2, s=s: self.stmt_safe(s, s2, m))
            if not any(l.kind == 'N' for l in leaves(out)):
                break
        return out

    def stmt_safe(self, s, st, m):
        try:
            return self.stmt(s, st, m)
        except RaiseSig as r:
            r.st.env = st.env if not r.st.env else r.st.env
            r.st.env = st.env
            return Leaf('X', r.st, r.exc)

    def stmt(self, s, st, m):
        self.tick()
        t = type(s).__name__
        f = getattr(self, 'st_' + t, None)
        if f is None:
            return Leaf('N', st)
        return f(s, st, m)

    def st_Expr(self, s, st, m):
        self.ev(s.value, st, m)
        return Leaf('N', st)

    def st_Pass(self, s, st, m):
        return Leaf('N', st)

    def st_Assign(self, s, st, m):
        v = self.ev(s.value, st, m)
        for t in s.targets:
            self.assign(t, v, st, m)
        return Leaf('N', st)

    def st_AnnAssign(self, s, st, m):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, m), st, m)
        return Leaf('N', st)

    def st_AugAssign(self, s, st, m):
        op = BINOPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, st, m, s)
        elif isinstance(s.target, ast.Attribute):
            base = self.ev(s.target.value, st, m)
            cur = self.getattr(base, s.target.attr, st)
        else:
            base = self.ev(s.target.value, st, m)
            idx = self.ev(s.target.slice, st, m)
            cur = self.item(base, idx, st)
        v = self.ev(s.value, st, m)
        if op == 'Add' and cur.k == 'Ref' and st.heap[cur.a[0]].kind == 'list':
            self.list_method(cur, st.heap[cur.a[0]], 'extend', [v], {}, st)
            return Leaf('N', st)
        if op == 'BitOr' and cur.k == 'Ref' and st.heap[cur.a[0]].kind == 'set':
            self.method(cur, 'update', [v], {}, st)
            return Leaf('N', st)
        r = self.binop(op, cur, v, st)
        if isinstance(s.target, ast.Name):
            st.env[s.target.id] = r
        elif isinstance(s.target, ast.Attribute):
            self.setattr(base, s.target.attr, r, st)
        else:
            self.setitem(base, idx, r, st)
        return Leaf('N', st)

    def assign(self, t, v, st, m):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star_i = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star_i:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, mk('Unk', 'unpack'), st, m)
                return
            v = self.simp(v, st)
            for i, x in enumerate(t.elts):
                self.assign(x, self.unpack(v, i, n, st), st, m)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st, m), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, m)
            if isinstance(t.slice, ast.Slice):
                st.ev = st.ev + (mk('Ev', 'setslice', self.snap(b, st), self.snap(v, st)),)
                return
            i = self.ev(t.slice, st, m)
            self.setitem(b, i, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, m)

    def unpack(self, v, i, n, st):
        v = self.simp(v, st)
        if v.k == 'Gam':
            return gam(v.a[0], self.unpack(v.a[1], i, n, st), self.unpack(v.a[2], i, n, st))
        if v.k in ('Elem',):
            return mk('Item', v, K(i))
        return self.item(v, K(i), st)

    def setitem(self, b, i, v, st):
        b = self.simp(b, st)
        i = self.simp(i, st)
        if b.k == 'Gam':
            if b.a[1].k == 'Ref' and b.a[2].k == 'Ref':
                for side, c in ((b.a[1], True), (b.a[2], False)):
                    try:
                        old = self.item(side, i, st)
                    except RaiseSig:
                        old = UNDEF
                    self.setitem(side, i, gam(b.a[0], v, old) if c else gam(b.a[0], old, v), st)
                return
        if b.k == 'Ref':
            r = st.heap[b.a[0]]
            if r.kind == 'dict':
                nr = r.copy(dict(r.data))
                q, t, sure = self.dict_find(r, i, st)
                if sure:
                    nr.data[q if q is not None else t] = v
                elif i.k == 'K' or i in r.data:
                    nr.data[i] = v
                elif not r.data and not r.extra:
                    nr.data[i] = v
                else:
                    nr.extra = r.extra + ((self.snap(i, st), v),)
                st.heap[b.a[0]] = nr
                return
            if r.kind == 'list' and i.k == 'K' and isinstance(kv(i), int):
                d = list(r.data)
                if all(x.k not in ('Star', 'Opt', 'Spread', 'Hole') for x in d) and -len(d) <= kv(i) < len(d):
                    d[kv(i)] = v
                    st.heap[b.a[0]] = r.copy(tuple(d))
                    return
            if r.kind == 'list':
                st.heap[b.a[0]] = r.copy((mk('Spread', mk('SetItem', mk('List', r.data), self.snap(i, st),
                                                          self.snap(v, st))),))
                return
            f = self.dunder(b, '__setitem__', st)
            if f is not None:
                self.call(f, [i, v], {}, st)
                return
            if r.open is not None:
                b = r.open
        else:
            c = self.cls_of(b)
            if c is not None:
                f = self.repo.find_method(c, '__setitem__')
                if f is not None:
                    self.call_func(f, [i, v], {}, st, recv=b)
                    return
        st.ev = st.ev + (mk('Ev', 'setitem', self.snap(b, st), self.snap(i, st), self.snap(v, st)),)

    def st_Delete(self, s, st, m):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.simp(self.ev(t.value, st, m), st)
                if isinstance(t.slice, ast.Slice):
                    continue
                i = self.ev(t.slice, st, m)
                if b.k == 'Ref' and st.heap[b.a[0]].kind == 'dict' and i in st.heap[b.a[0]].data:
                    self.dict_method(b, st.heap[b.a[0]], 'pop', [i], {}, st)
                    continue
                st.ev = st.ev + (mk('Ev', 'delitem', self.snap(b, st), self.snap(i, st)),)
        return Leaf('N', st)

    def st_If(self, s, st, m):
        return self.branch(s.test, st, m, lambda x: self.block(s.body, x, m), lambda x: self.block(s.orelse, x, m))

    def branch(self, test, st, m, fa, fb):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.branch(test.operand, st, m, fb, fa)
        if isinstance(test, ast.BoolOp):
            first, rest = test.values[0], test.values[1:]
            r = rest[0] if len(rest) == 1 else ast.BoolOp(op=test.op, values=rest)
            # the shared side is executed once on the merged state
            if isinstance(test.op, ast.And):
                return self.shared(first, r, st, m, fa, fb, True)
            return self.shared(first, r, st, m, fb, fa, False)
        c = self.ev(test, st, m)
        return self.cond_out(c, st, fa, fb)

    def shared(self, first, rest, st, m, deep, shallow, is_and):
        """`first and rest`: deep = both, shallow = otherwise (dually for `or`)."""
        # Evaluate the conjunction to a value: gives a gate whose decision is structural.
        e = ast.BoolOp(op=ast.And() if is_and else ast.Or(), values=[first, rest])

        def val(test, s):
            return self.branch_val(test, s, m, lambda x: TRUE, lambda x: FALSE)
        c = val(e, st)
        if is_and:
            return self.cond_out(c, st, deep, shallow)
        return self.cond_out(c, st, shallow, deep)

    def cond_out(self, c, st, fa, fb):
        c = self.simp(c, st)
        if self.recurse:
            c = self.truth_value(c, st)
        d = self.truth(c, st)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        if c.k == 'Not':
            return self.cond_out(c.a[0], st, fb, fa)
        if self.strict:
            self.undecided(c, st)
        s1, s2 = st.fork(), st.fork()
        self.assume(c, True, s1)
        self.assume(c, False, s2)
        a = self.run(fa, s1)
        b = self.run(fb, s2)
        return Br(c, a, b)

    def run(self, f, s):
        try:
            return f(s)
        except RaiseSig as r:
            r.st.env = s.env
            return Leaf('X', r.st, r.exc)

    def st_Return(self, s, st, m):
        v = self.ev(s.value, st, m) if s.value is not None else NONE
        return Leaf('R', st, v)

    def st_Raise(self, s, st, m):
        v = self.ev(s.exc, st, m) if s.exc is not None else st.env.get('$exc', mk('Exc', 'reraise'))
        return Leaf('X', st, self.exc_term(v, st))

    def exc_term(self, v, st):
        v = self.simp(v, st)
        if v.k == 'Ref':
            r = st.heap[v.a[0]]
            if r.kind == 'inst' and isinstance(r.cls, Class):
                return mk('Exc', r.cls.qual, self.snap(v, st))
        if v.k in ('Cls', 'Bi'):
            return mk('Exc', v.a[0])
        return v

    def st_Assert(self, s, st, m):
        return Leaf('N', st)

    def st_Break(self, s, st, m):
        return Leaf('B', st)

    def st_Continue(self, s, st, m):
        return Leaf('C', st)

    def st_FunctionDef(self, s, st, m):
        env = st.env
        f = self.fn(Func(m, None, s), dict(env))
        st.env[s.name] = f
        # allow recursion
        func, e = self.fn_of(f)
        e[s.name] = f
        return Leaf('N', st)

    def st_ClassDef(self, s, st, m):
        st.env[s.name] = mk('Unk', 'localclass:' + s.name)
        return Leaf('N', st)

    def st_Import(self, s, st, m):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            st.env[nm] = mk('Mod', full) if full in self.repo.modules else mk('Ext', full)
        return Leaf('N', st)

    def st_ImportFrom(self, s, st, m):
        for a in s.names:
            b = self.repo.modules.get(s.module or '')
            r = self.repo.lookup(b, a.name) if b else None
            st.env[a.asname or a.name] = self.resolved(r, st) if r is not None else \
                mk('Ext', (s.module or '') + '.' + a.name)
        return Leaf('N', st)

    def st_With(self, s, st, m):
        for it in s.items:
            v = self.ev(it.context_expr, st, m)
            st.ev = st.ev + (mk('Ev', 'enter', self.snap(v, st)),)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, m)
        out = self.block(s.body, st, m)
        return self.bind(out, lambda x: Leaf('N', self._evadd(x, mk('Ev', 'exit'))))

    def _evadd(self, st, e):
        st.ev = st.ev + (e,)
        return st

    def exc_name(self, x):
        return x.a[0] if x.k == 'Exc' else None

    def exc_matches(self, exc, h, st, m):
        """True/False/None"""
        if h.type is None:
            return True
        if exc.k == 'Gam':
            return None
        ts = self.ev(h.type, st, m)
        ts = ts.a[0] if ts.k == 'Tup' else (ts,)
        n = self.exc_name(exc)
        res = False
        for t in ts:
            if t.k == 'Bi':
                h_n = t.a[0]
                if h_n in ('Exception', 'BaseException'):
                    return True
                if n is None:
                    res = None
                elif n == h_n or h_n in EXC_BASES.get(n, ()):
                    return True
                elif '.' in n:
                    try:
                        eb = self.repo.ext_bases(self.repo.cls(n))
                        if h_n in eb:
                            return True
                    except AnalysisBroken:
                        res = None
            elif t.k == 'Cls':
                if n is None:
                    res = None
                elif '.' in n:
                    try:
                        if self.repo.is_sub(self.repo.cls(n), self.repo.cls(t.a[0])):
                            return True
                    except AnalysisBroken:
                        res = None
            else:
                res = None
        return res

    def st_Try(self, s, st, m):
        start = st.fork()
        ev0 = len(st.ev)
        out = self.block(s.body, st, m)

        def conv(o, memo):
            if id(o) in memo:
                return memo[id(o)]
            if isinstance(o, Br):
                p, q = conv(o.x, memo), conv(o.y, memo)
                r = p if p is q else Br(o.c, p, q)
            elif o.kind == 'X':
                r = o
                for h in s.handlers:
                    mt = self.exc_matches(o.val, h, o.st, m)
                    if mt is False:
                        continue
                    s2 = o.st.fork()
                    s2.env['$exc'] = o.val
                    if h.name:
                        s2.env[h.name] = o.val
                    r = self.block(h.body, s2, m)
                    if mt is None:
                        r = Br(mk('Matches', o.val, K(ast.unparse(h.type))), r, o)
                    break
            else:
                r = o
            memo[id(o)] = r
            return r
        res = conv(out, {})
        # opaque calls / lookups in the body may raise what the handlers catch
        if s.handlers and not self.strict:
            normal = self.merge_normals(out, ('N', 'R'))
            may = self.may_raise(s.body)
            already = any(l.kind == 'X' for l in leaves(out))
            if normal is not None and may and not already:
                for h in reversed(s.handlers):
                    s2 = start.fork()
                    lbl = ast.unparse(h.type) if h.type is not None else '*'
                    c = mk('Raises', K(lbl), self.exc_source(normal, ev0, s.body))
                    s2.asm[c] = True
                    x = mk('Exc', lbl if h.type is not None else 'Exception')
                    s2.env['$exc'] = x
                    if h.name:
                        s2.env[h.name] = x
                    hr = self.block(h.body, s2, m)
                    res = Br(c, hr, res)
        if s.orelse:
            # only reached from the body's normal exit; approximated by any normal exit
            res = self.bind(res, lambda x: self.block(s.orelse, x, m))
        if s.finalbody:
            def fin(o, memo):
                if id(o) in memo:
                    return memo[id(o)]
                if isinstance(o, Br):
                    p, q = fin(o.x, memo), fin(o.y, memo)
                    r = p if p is q else Br(o.c, p, q)
                else:
                    f = self.block(s.finalbody, o.st.fork(), m)
                    r = self.bind(f, lambda x, o=o: Leaf(o.kind, x, o.val))
                memo[id(o)] = r
                return r
            res = fin(res, {})
        return res

    def exc_source(self, st, ev0, body):
        new = [e for e in st.ev[ev0:] if e.k == 'Ev' and e.a[0] == 'call']
        if new:
            return new[-1].a[1]
        return K(ast.unparse(body[0])[:60])

    def may_raise(self, body):
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute)):
                    return True
        return False

    # ------------------------------------------------------------ loops
    def iter_src(self, v, st):
        """Canonical iterable term used to name loop elements."""
        v = self.simp(v, st)
        if v.k == 'Ref':
            r = st.heap[v.a[0]]
            if r.kind in ('list', 'set') and len(r.data) == 1 and r.data[0].k == 'Spread':
                return r.data[0].a[0]
            return self.snap(v, st)
        if v.k in ('Tup', 'List') and len(v.a[0]) == 1 and v.a[0][0].k == 'Spread':
            return v.a[0][0].a[0]
        return self.snap(v, st)

    def loop_elem(self, v, st):
        """(iterable term, element term) of an unknown iterable."""
        if v.k == 'Enum':
            src = v.a[0]
            idx = mk('Idx', src)
            if not (v.a[1].k == 'K' and kv(v.a[1]) == 0):
                idx = mk('Add', idx, v.a[1])
            return src, mk('Tup', (idx, mk('Elem', src)))
        if v.k == 'Zip':
            return v, mk('Tup', tuple(mk('ZElem', v, x) if False else mk('Elem', x) for x in v.a[0]))
        if v.k == 'Range' and len(v.a[0]) == 1 and v.a[0][0].k == 'Len':
            src = v.a[0][0].a[0]
            return src, mk('Idx', src)
        if v.k == 'Call' and v.a[0].k == 'Attr' and v.a[0].a[1] in ('items', 'iteritems') and not v.a[1]:
            d = v.a[0].a[0]
            return v, mk('Tup', (mk('KeyOf', d), mk('ValOf', d)))
        if v.k == 'Call' and v.a[0].k == 'Attr' and v.a[0].a[1] == 'keys' and not v.a[1]:
            return v, mk('KeyOf', v.a[0].a[0])
        if v.k == 'Call' and v.a[0].k == 'Attr' and v.a[0].a[1] == 'values' and not v.a[1]:
            return v, mk('ValOf', v.a[0].a[0])
        if v.k == 'Sorted':
            src, e = self.loop_elem(v.a[0], st)
            return v, e
        return v, mk('Elem', v)

    def st_For(self, s, st, m):
        it = self.ev(s.iter, st, m)
        return self.for_over(it, s, st, m)

    def for_over(self, it, s, st, m):
        it = self.simp(it, st)
        if it.k == 'Gam':
            s1, s2 = st.fork(), st.fork()
            self.assume(it.a[0], True, s1)
            self.assume(it.a[0], False, s2)
            return Br(it.a[0], self.for_over(it.a[1], s, s1, m), self.for_over(it.a[2], s, s2, m))
        if self.strict and it.k == 'Range' and all(x.k == 'K' for x in it.a[0]):
            items = tuple(K(i) for i in range(*[kv(x) for x in it.a[0]]))
        elif it.k in ('Enum', 'Zip', 'Range'):
            items = (mk('Spread', it),)
        else:
            items = self.as_items(it, st)
        out = Leaf('N', st)
        done = []      # leaves that left the loop by break

        def step(item):
            def f(x):
                if item.k in ('Star', 'Opt', 'Spread', 'Hole', 'Rev'):
                    o = self.loop_item(item, s, x, m)
                else:
                    self.assign(s.target, item, x, m)
                    o = self.block(s.body, x, m)
                return self.loop_norm(o)
            return f
        if len(items) > 80 and not self.strict:
            items = (mk('Spread', self.iter_src(it, st)),)
        for i in items:
            out = self.bind(out, step(i))
            if self.strict and isinstance(out, Leaf) and out.kind != 'N':
                break
        if s.orelse:
            out = self.bind(out, lambda x: self.block(s.orelse, x, m))
        return self.unbreak(out)

    def loop_norm(self, o):
        """continue -> normal"""
        memo = {}

        def go(x):
            if id(x) in memo:
                return memo[id(x)]
            if isinstance(x, Br):
                p, q = go(x.x), go(x.y)
                r = p if p is q else Br(x.c, p, q)
            else:
                r = Leaf('N', x.st) if x.kind == 'C' else x
            memo[id(x)] = r
            return r
        return go(o)

    def unbreak(self, o):
        memo = {}

        def go(x):
            if id(x) in memo:
                return memo[id(x)]
            if isinstance(x, Br):
                p, q = go(x.x), go(x.y)
                r = p if p is q else Br(x.c, p, q)
            else:
                r = Leaf('N', x.st) if x.kind == 'B' else x
            memo[id(x)] = r
            return r
        return go(o)

    def loop_item(self, item, s, st, m):
        if item.k == 'Opt':
            c, a, b = item.a

            def many(items):
                def f(x):
                    out = Leaf('N', x)
                    for i in items:
                        if i.k in ('Star', 'Opt', 'Spread', 'Hole', 'Rev'):
                            out = self.bind(out, lambda y, i=i: self.loop_norm(self.loop_item(i, s, y, m)))
                        else:
                            def g(y, i=i):
                                self.assign(s.target, i, y, m)
                                return self.loop_norm(self.block(s.body, y, m))
                            out = self.bind(out, g)
                    return out
                return f
            return self.cond_out(c, st, many(a), many(b))
        if item.k == 'Star':
            src = item.a[0]
            if len(item.a[1]) == 1 and item.a[1][0].k not in ('Star', 'Opt', 'Spread', 'Hole'):
                return self.summarise(src, item.a[1][0], s, st, m)
            src = mk('List', (item,))
            return self.summarise(src, mk('Elem', src), s, st, m)
        if item.k == 'Spread':
            src, el = self.loop_elem(item.a[0], st)
            return self.summarise(src, el, s, st, m)
        if item.k == 'Rev' and item.a[0].k == 'Spread':
            src, el = self.loop_elem(item.a[0].a[0], st)
            return self.summarise(mk('Rev', src), el, s, st, m)
        src = mk('List', (item,))
        return self.summarise(src, mk('Elem', src), s, st, m)

    def st_While(self, s, st, m):
        # bounded unrolling while the condition is decided, then summarise
        n = 0
        out = Leaf('N', st)
        c = None
        if isinstance(s.test, ast.Constant) and s.test.value:
            return self.unbreak(self.summarise(mk('While', K(ast.unparse(s.test))), None, s, st, m))
        return self.unbreak(self.summarise(mk('While', K(ast.unparse(s.test))), None, s, st, m))

    def assigned(self, s):
        names = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                names.add(n.target.id)
        return names

    def summarise(self, src, el, s, st, m):
        """Body executed once on a generic element; its effects become Star/fold summaries."""
        if self.strict:
            if not isinstance(s, ast.While):
                self.undecided(src, st)
            out = Leaf('N', st)
            while isinstance(out, Leaf) and out.kind == 'N':
                self.tick()
                out = self.branch(s.test, out.st, m, lambda x: self.loop_norm(self.block(s.body, x, m)),
                                  lambda x: Leaf('E', x))
            if not isinstance(out, Leaf):
                self.undecided(src, st)
            if out.kind == 'E':
                out = Leaf('N', out.st)
                return self.block(s.orelse, out.st, m) if s.orelse else out
            return out
        names = self.assigned(s)
        if isinstance(s, ast.For):
            tnames = set(n.id for n in ast.walk(s.target) if isinstance(n, ast.Name))
        else:
            tnames = set()
        before = st
        carried = [n for n in sorted(names) if n in before.env and n not in tnames]

        def body_state(havoc_objs):
            b = before.fork()
            b.ev = ()
            for n in carried:
                v = before.env[n]
                a = mk('Acc', n, src)
                if self.is_str(v):
                    self.info[a] = Info(isstr=True)
                b.env[n] = a
            for oid in havoc_objs:
                r = b.heap[oid]
                if r.kind in ('list', 'set'):
                    b.heap[oid] = r.copy((mk('Hole', oid),))
                elif r.kind == 'inst':
                    d = dict(r.data)
                    for f in havoc_objs[oid]:
                        d[f] = mk('Acc', '%d.%s' % (oid, f), src)
                    b.heap[oid] = r.copy(d)
                else:
                    nr = r.copy(dict(r.data))
                    nr.extra = r.extra + ((mk('Hole', oid), mk('Hole', oid)),)
                    b.heap[oid] = nr
            if isinstance(s, ast.For):
                self.assign(s.target, el, b, m)
                o = self.block(s.body, b, m)
            else:
                o = self.branch(s.test, b, m, lambda x: self.block(s.body, x, m), lambda x: Leaf('B', x))
            return o

        nl = dict(self.info)
        o = body_state({})
        end = self.merge_normals(o, ('N', 'C', 'B'))
        probe = [l for l in leaves(o)]
        muts = {}
        for l in probe:
            for oid, r in l.st.heap.items():
                if oid in before.heap and r is not before.heap[oid]:
                    old = before.heap[oid]
                    if r.kind == 'inst':
                        fs = [f for f in r.data if r.data[f] is not old.data.get(f)
                              and not (old.open is not None and f not in old.data)]
                        if fs:
                            muts.setdefault(oid, set()).update(fs)
                    else:
                        muts.setdefault(oid, set())
        if muts or carried:
            o = body_state(muts)
            end = self.merge_normals(o, ('N', 'C', 'B'))
        after = before.fork()
        rets = None
        # returns / raises inside the loop
        exits = [l for l in leaves(o) if l.kind in ('R', 'X')]
        if end is None:
            # every iteration leaves: the loop body runs at most once
            res = Leaf('N', after)
            ne = mk('NonEmpty', src)
            if el is None:
                return self.fix_exit(o, before)
            return Br(ne, self.fix_exit(o, before), res)
        self.apply_summary(after, before, end, src, el, muts, carried, names, tnames, o)
        if not exits:
            return Leaf('N', after)
        # Br(Any(src, cond), exit, after)
        ex = self.exit_tree(o, before, src)
        if ex is None:
            return Leaf('N', after)
        cond, tree = ex
        return Br(cond, tree, Leaf('N', after))

    def fix_exit(self, o, before):
        memo = {}

        def go(x):
            if id(x) in memo:
                return memo[id(x)]
            if isinstance(x, Br):
                p, q = go(x.x), go(x.y)
                r = p if p is q else Br(x.c, p, q)
            else:
                s2 = x.st.fork()
                s2.ev = before.ev + s2.ev
                r = Leaf(x.kind if x.kind != 'C' else 'N', s2, x.val)
            memo[id(x)] = r
            return r
        return go(o)

    def exit_tree(self, o, before, src):
        """Condition under which an iteration exits the function and the outcome in that case."""
        def cond(x):
            if isinstance(x, Leaf):
                return TRUE if x.kind in ('R', 'X') else FALSE
            a, b = cond(x.x), cond(x.y)
            return gam(x.c, a, b)

        def tree(x):
            if isinstance(x, Leaf):
                if x.kind in ('R', 'X'):
                    s2 = x.st.fork()
                    s2.ev = before.ev + s2.ev
                    return Leaf(x.kind, s2, x.val)
                return None
            a, b = tree(x.x), tree(x.y)
            if a is None:
                return b
            if b is None:
                return a
            return Br(x.c, a, b)
        c = cond(o)
        if c is FALSE:
            return None
        t = tree(o)
        if t is None:
            return None
        return mk('Any', (star(src, (c,)),)), t

    def apply_summary(self, after, before, end, src, el, muts, carried, names, tnames, o):
        if end.ev:
            after.ev = before.ev + (mk('Star', src, end.ev),)
        for oid in end.heap:
            if oid not in before.heap:
                after.heap[oid] = end.heap[oid]
        for oid in muts:
            old = before.heap[oid]
            new = end.heap[oid]
            if old.kind in ('list', 'set'):
                h = mk('Hole', oid)
                d = self.norm_hole(new.data, h)
                if d and d[0] is h and h not in d[1:]:
                    delta = d[1:]
                    after.heap[oid] = old.copy(old.data + ((star(src, delta),) if delta else ()))
                elif d and d[-1] is h and h not in d[:-1]:
                    delta = d[:-1]
                    after.heap[oid] = old.copy((mk('Rev', star(src, delta)),) + old.data)
                else:
                    after.heap[oid] = old.copy((mk('Spread', mk('LoopSeq', src, mk('List', old.data),
                                                                mk('List', d))),))
            elif old.kind == 'inst':
                d = dict(old.data)
                for f in new.data:
                    if f in muts[oid] or f not in old.data:
                        ov = old.data.get(f, UNDEF)
                        d[f] = self.fold(src, ov, new.data[f], mk('Acc', '%d.%s' % (oid, f), src), end)
                after.heap[oid] = old.copy(d)
            else:
                nr = old.copy(dict(old.data))
                nr.extra = old.extra + tuple((k, mk('LoopVal', src, v)) for k, v in new.extra
                                             if k.k != 'Hole')
                for k, v in new.data.items():
                    if old.data.get(k) is not v:
                        if k in old.data:
                            nr.data[k] = mk('LoopVal', src, v)
                        else:
                            nr.extra = nr.extra + ((mk('StarKey', src, k), v),)
                after.heap[oid] = nr
        for k in end.ov:
            if end.ov[k] is not before.ov.get(k):
                old = before.ov.get(k, mk('Attr', k[0], k[1]))
                after.ov[k] = self.fold(src, old, end.ov[k], mk('Attr', k[0], k[1]), end)
        for n in sorted(names):
            v = end.env.get(n, UNDEF)
            if n in carried:
                old = before.env[n]
                after.env[n] = self.fold(src, old, v, mk('Acc', n, src), end)
            elif n in tnames:
                after.env[n] = mk('Last', src, v)
            else:
                after.env[n] = mk('Last', src, v) if v is not UNDEF else v

    def norm_hole(self, d, h):
        """Factor a leading Hole out of Opt items: Opt(c,(h,x),(h,)) -> h, Opt(c,(x,),())."""
        if len(d) == 1 and d[0].k == 'Opt':
            c, a, b = d[0].a
            a, b = self.norm_hole(a, h), self.norm_hole(b, h)
            if a and b and a[0] is h and b[0] is h:
                return (h,) + opt(c, a[1:], b[1:])
        return d

    def fold(self, src, old, new, acc, end):
        if new is acc or new is old:
            return old
        if new.k == 'Cat' and new.a[0] and new.a[0][0] is acc and not any(
                contains(p, acc) for p in new.a[0][1:]):
            return cat([old, mk('Star', src, new.a[0][1:])])
        if new.k == 'Tup' and new.a[0] and new.a[0][0] is mk('Spread', acc) and not any(
                contains(p, acc) for p in new.a[0][1:]):
            base = old.a[0] if old.k == 'Tup' else (mk('Spread', old),)
            return mk('Tup', base + (star(src, new.a[0][1:]),))
        if not contains(new, acc):
            return mk('LastOr', src, old, new)
        return mk('Fold', src, old, rewrite(new, lambda t: mk('Acc') if t is acc else t))


def fold_repo_helpers():
    from . import repo as R

    def ext_bases_nonobject(self, c):
        return [b for b in self.ext_bases(c) if b not in ('object',)]
    R.Repo.ext_bases_nonobject = ext_bases_nonobject


fold_repo_helpers()
