"""Expected syntax trees as patterns over value-graph terms."""
import ast

from .engine import K, NONE, Sym, T, contains, isK, kv, show, subterms
from .spec_ast import AST

IMPRECISE = ('Unk', 'LoopSeq', 'Popped', 'PopRest', 'Insert', 'Fold', 'LastOr', 'Last', 'Global', 'NoName', 'Hole',
             'LoopVal', 'Loop', 'Cyc', 'While', 'Acc', 'Raises', 'Undef', 'NoAttr')
AMOD = 'vparser.ast.'
IGNORED = ('lineno', 'end_lineno', 'default_nettype')


def imprecise(t):
    return any(x.k in IMPRECISE for x in subterms(t))


class Node(object):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return '%s(%s)' % (self.cls, ', '.join('%s=%r' % x for x in sorted(self.fields.items())))


class Seq(object):
    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.items))


class Const(object):
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


class Var(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


class Alt(object):
    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return ' or '.join(map(repr, self.alts))


class Unq(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'unquoted(%s)' % self.n


def parse(text):
    if '||' in text:
        return Alt([parse(x) for x in text.split('||')])
    return conv(ast.parse(text.strip(), mode='eval').body)


def one():
    return Node('IntConst', {'value': Const('1')})


def conv(e):
    if isinstance(e, ast.Name):
        return Var(e.id)
    if isinstance(e, ast.Constant):
        return Const(e.value)
    if isinstance(e, ast.List):
        return Seq([conv(x) for x in e.elts])
    if isinstance(e, ast.Call):
        f = e.func.id
        if f == 'UNQUOTED':
            return Unq(e.args[0].id)
        if f in ('UP', 'DOWN'):
            b, w = conv(e.args[0]), conv(e.args[1])
            wm = Node('Minus', {'left': w, 'right': one()})
            if f == 'UP':
                return Alt([Node('Plus', {'left': b, 'right': wm}),
                            Node('Minus', {'left': Node('Plus', {'left': b, 'right': w}), 'right': one()})])
            return Alt([Node('Minus', {'left': b, 'right': wm}),
                        Node('Plus', {'left': Node('Minus', {'left': b, 'right': w}), 'right': one()})])
        if f not in AST:
            raise ValueError('unknown node %s' % f)
        fields = dict((k.arg, conv(k.value)) for k in e.keywords)
        for k in fields:
            if k not in dict(AST[f]):
                raise ValueError('unknown field %s.%s' % (f, k))
        return Node(f, fields)
    raise ValueError(ast.dump(e))


class Mismatch(Exception):
    def __init__(self, path, want, got, sure=True):
        self.path, self.want, self.got, self.sure = path, want, got, sure

    def __str__(self):
        return '%s is %s, expected %s' % (self.path or 'the tree', self.got, self.want)


def absent(t):
    return t is NONE or isK(t, False) or (t.k in ('Tup', 'List') and not t.a[0])


def match(p, t, env, path='', ignore_fields=()):
    """Raise Mismatch when term t is not the tree p describes."""
    if t.k == 'Gam' and not (isinstance(p, Var) and env.get(p.n) is t):
        if imprecise(t.a[0]):
            m = Mismatch(path, repr(p), show(t, 6), False)
            try:
                match(p, t.a[1], env, path)
                match(p, t.a[2], env, path)
                return
            except Mismatch:
                raise m
        match(p, t.a[1], env, path)
        match(p, t.a[2], env, path)
        return
    if isinstance(p, Alt):
        first = None
        for q in p.alts:
            try:
                return match(q, t, env, path)
            except Mismatch as m:
                first = first or m
        raise Mismatch(path, repr(p), show(t, 6), not imprecise(t))

    def fail():
        raise Mismatch(path, repr(p), show(t, 6), not imprecise(t))
    if isinstance(p, Var):
        w = env[p.n]
        if t is w or (t.k == 'Str' and t.a[0] is w):
            return
        if t.k == 'Cat' and len(t.a[0]) == 1:
            return match(p, t.a[0][0], env, path)
        fail()
    if isinstance(p, Const):
        if p.v is None or p.v is False:
            if not absent(t):
                fail()
            return
        if isK(t) and kv(t) == p.v and type(kv(t)) is type(p.v):
            return
        fail()
    if isinstance(p, Unq):
        v = env[p.n]
        if t.k == 'Slice' and t.a[0] is v and isK(t.a[1], 1) and isK(t.a[2], -1) and t.a[3] is NONE:
            return
        if t.k == 'Slice' and t.a[0] is v and isK(t.a[1], 1) and show(t.a[2]) .startswith(('Minus(Len', 'Add(Len')):
            return
        if t.k in ('Meth', 'Call', 'Slice') or (t.k == 'Str'):
            raise Mismatch(path, repr(p), show(t, 6), False)
        fail()
    if isinstance(p, Seq):
        if t.k not in ('Tup', 'List'):
            if t is NONE and not p.items:
                return
            fail()
        if any(x.k in ('Star', 'Opt', 'Spread', 'Hole') for x in t.a[0]):
            raise Mismatch(path, repr(p), show(t, 6), False)
        if len(t.a[0]) != len(p.items):
            raise Mismatch(path, '%d elements %r' % (len(p.items), p), '%d elements %s' % (len(t.a[0]), show(t, 6)),
                           not imprecise(t))
        for i, (q, x) in enumerate(zip(p.items, t.a[0])):
            match(q, x, env, '%s[%d]' % (path, i))
        return
    if isinstance(p, Node):
        if t.k != 'Inst' or t.a[0] != AMOD + p.cls:
            fail()
        fs = dict(t.a[1])
        spec = AST[p.cls]
        for name, kind in spec:
            if kind == '?' or name in IGNORED:
                continue
            sub = '%s.%s' % (path or p.cls, name)
            if name not in fs:
                if name in p.fields:
                    raise Mismatch(sub, repr(p.fields[name]), 'missing', True)
                continue
            v = fs[name]
            if name in p.fields:
                match(p.fields[name], v, env, sub)
            elif not absent(v):
                if v.k == 'Gam':
                    match(Const(None), v, env, sub)
                else:
                    raise Mismatch(sub, 'absent', show(v, 6), not imprecise(v))
        return
    raise TypeError(p)
