"""Reference meaning of procedural statements, and its comparison with the analyzer's decision trees.

A statement is a nested tuple; expressions are the tuple trees of dfshape over dotted names.  The comparison walks
both decision structures along every combination of outcomes of the conditions they test."""


class Need(Exception):
    def __init__(self, atom):
        self.atom = atom


class Malformed(Exception):
    pass


TOP = 'TOP'


def T(n):
    return ('T', TOP + '.' + n)


def I(v):
    return ('K', 'Int', str(v))


MARK = {'Plus': '+', 'Minus': '-', 'And': '&', 'Or': '|', 'Xor': '^', 'Eq': '==', 'NotEq': '!=', 'LessThan': '<',
        'GreaterThan': '>', 'LessEq': '<=', 'GreaterEq': '>=', 'Land': '&&', 'Lor': '||', 'Sll': '<<', 'Srl': '>>',
        'Times': '*', 'Divide': '/', 'Mod': '%', 'Power': '**', 'Xnor': '~^', 'Sra': '>>>', 'Eql': '===', 'NotEql': '!=='}
UMARK = {'Unot': '~', 'Ulnot': '!', 'Uminus': '-', 'Uand': '&', 'Uor': '|', 'Uxor': '^', 'Unand': '~&', 'Unor': '~|',
         'Uxnor': '~^'}


def vtext(e):
    """Verilog text of an expression tree."""
    k = e[0]
    if k == 'T':
        return e[1].split('.')[-1]
    if k == 'K':
        return e[2]
    if k == 'op':
        if len(e) == 3:
            return '(%s %s)' % (UMARK[e[1]], vtext(e[2]))
        return '(%s %s %s)' % (vtext(e[2]), MARK[e[1]], vtext(e[3]))
    if k == '?':
        return '(%s ? %s : %s)' % tuple(vtext(x) for x in e[1:])
    if k == 'cat':
        return '{%s}' % ', '.join(vtext(x) for x in e[1:])
    if k == '[:]':
        return '%s[%s:%s]' % tuple(vtext(x) for x in e[1:])
    if k == 'bit':
        return '%s[%s]' % tuple(vtext(x) for x in e[1:])
    raise ValueError(k)


def stext(s, ind=1):
    """Verilog text of a statement."""
    p = '  ' * ind
    k = s[0]
    if k in ('b', 'nb'):
        return '%s%s %s %s;\n' % (p, s[1], '=' if k == 'b' else '<=', vtext(s[2]))
    if k == 'if':
        body = stext(s[2], ind + 1)
        if s[3] is not None and s[2][0] not in ('b', 'nb', 'blk'):
            body = '%s  begin\n%s%s  end\n' % (p, body, p)
        t = '%sif (%s)\n%s' % (p, vtext(s[1]), body)
        if s[3] is not None:
            t += '%selse\n%s' % (p, stext(s[3], ind + 1))
        return t
    if k == 'blk':
        return '%sbegin\n%s%send\n' % (p, ''.join(stext(x, ind + 1) for x in s[1]), p)
    if k == 'nblk':
        return '%sbegin : %s\n%s%send\n' % (p, s[1], ''.join(stext(x, ind + 1) for x in s[2]), p)
    if k in ('case', 'casex', 'casez', 'unique case'):
        t = '%s%s (%s)\n' % (p, k, vtext(s[1]))
        for labels, body in s[2]:
            t += '%s  %s:\n%s' % (p, 'default' if labels is None else ', '.join(vtext(x) for x in labels),
                                  stext(body, ind + 2))
        return t + '%sendcase\n' % p
    if k == 'for':
        return '%sfor (%s = %s; %s; %s = %s)\n%s' % (p, s[1], vtext(s[2]), vtext(s[3]), s[1], vtext(s[4]),
                                                    stext(s[5], ind + 1))
    if k == 'while':
        return '%swhile (%s)\n%s' % (p, vtext(s[1]), stext(s[2], ind + 1))
    raise ValueError(k)


FOLD = {'Plus': lambda a, b: a + b, 'Minus': lambda a, b: a - b, 'LessThan': lambda a, b: int(a < b),
        'LessEq': lambda a, b: int(a <= b), 'GreaterThan': lambda a, b: int(a > b), 'Times': lambda a, b: a * b,
        'Eq': lambda a, b: int(a == b), 'NotEq': lambda a, b: int(a != b), 'GreaterEq': lambda a, b: int(a >= b)}


def const(e):
    if e is None:
        return None
    if e[0] == 'V':
        return e[1]
    if e[0] == 'K' and e[1] == 'Int' and e[2].isdigit():
        return int(e[2])
    return None


def op(name, *args):
    vs = [const(a) for a in args]
    if name in FOLD and len(args) == 2 and None not in vs:
        v = FOLD[name](*vs)
        if v >= 0:
            return I(v)
    return ('op', name) + args


def decide(e, known):
    """Truth of a condition expression under the known outcomes; Need(atom) when it tests something else."""
    c = const(e)
    if c is not None:
        return c != 0
    if e[0] == 'op' and e[1] == 'Lor':
        return decide(e[2], known) or decide(e[3], known)
    if e[0] == 'op' and e[1] == 'Land':
        return decide(e[2], known) and decide(e[3], known)
    if e[0] == 'op' and e[1] == 'Ulnot':
        return not decide(e[2], known)
    if e not in known:
        raise Need(e)
    return known[e]


def value(e, env, known):
    """Value of an expression: names replaced through env, conditions decided."""
    k = e[0]
    if k == 'T':
        return env(e[1])
    if k in ('K', 'U', 'H'):
        return e
    if k == 'V':
        return I(e[1]) if isinstance(e[1], int) and e[1] >= 0 else e
    if k == '?':
        return value(e[2] if decide(value(e[1], env, known), known) else e[3], env, known)
    if k == 'op':
        return op(e[1], *[value(x, env, known) for x in e[2:]])
    if k == 'bit':
        x, i = value(e[1], env, known), value(e[2], env, known)
        return ('[:]', x, i, i)
    if k == 'delay':
        return value(e[1], env, known)
    return (k,) + tuple(value(x, env, known) if isinstance(x, tuple) else x for x in e[1:])


def execute(s, cur, nxt, known):
    """Reference execution.  cur: current values of blocking-assigned names; nxt: scheduled values."""
    def env(n):
        return cur.get(n, ('T', n))
    k = s[0]
    if k == 'b':
        cur[TOP + '.' + s[1]] = value(s[2], env, known)
    elif k == 'nb':
        nxt[TOP + '.' + s[1]] = value(s[2], env, known)
    elif k == 'if':
        if decide(value(s[1], env, known), known):
            execute(s[2], cur, nxt, known)
        elif s[3] is not None:
            execute(s[3], cur, nxt, known)
    elif k == 'blk':
        for x in s[1]:
            execute(x, cur, nxt, known)
    elif k == 'nblk':
        for x in s[2]:
            execute(x, cur, nxt, known)
    elif k in ('case', 'casex', 'casez', 'unique case'):
        for labels, body in sorted(s[2], key=lambda x: x[0] is None):    # the default item applies last
            if labels is None or any(decide(op('Eq', value(s[1], env, known), value(l, env, known)), known)
                                     for l in labels):
                execute(body, cur, nxt, known)
                return
    elif k == 'for':
        cur[TOP + '.' + s[1]] = value(s[2], env, known)
        n = 0
        while decide(value(s[3], env, known), known):
            execute(s[5], cur, nxt, known)
            cur[TOP + '.' + s[1]] = value(s[4], env, known)
            n += 1
            if n > 20:
                raise ValueError('loop')
    elif k == 'while':
        n = 0
        while decide(value(s[1], env, known), known):
            execute(s[2], cur, nxt, known)
            n += 1
            if n > 20:
                raise ValueError('loop')
    else:
        raise ValueError(k)


def outcome(bs, name, known, seen=()):
    """Value the analyzer's binding of a name selects; None when no branch assigns it."""
    l = bs.get(name, [])
    if len(l) != 1 or l[0].msb is not None or l[0].lsb is not None or l[0].ptr is not None:
        raise Malformed('%d bindings of %s' % (len(l), name))
    return tree_outcome(l[0].tree, bs, known, (name,))


def tree_outcome(t, bs, known, seen):
    if t is None:
        return None
    if t[0] == '?':
        c = tree_value(t[1], bs, known, seen)
        return tree_outcome(t[2] if decide(c, known) else t[3], bs, known, seen)
    return tree_value(t, bs, known, seen)


def tree_value(t, bs, known, seen):
    def env(n):
        last = n.split('.')[-1]
        if (last.startswith('_rn') or 'functioncall' in n) and n in bs:
            if n in seen:
                raise Malformed('%s depends on itself' % n)
            l = bs[n]
            if len(l) != 1:
                raise Malformed('%d bindings of %s' % (len(l), n))
            v = tree_outcome(l[0].tree, bs, known, seen + (n,))
            if v is None:
                raise Malformed('%s is not assigned where it is read' % n)
            return v
        return ('T', n)
    return value_none(t, env, known)


def value_none(e, env, known):
    if e is None:
        raise Malformed('a missing operand')
    if e[0] == '?':
        r = e[2] if decide(value_none(e[1], env, known), known) else e[3]
        return value_none(r, env, known)
    if e[0] in ('T', 'K', 'U', 'H', 'V'):
        return value(e, env, known)
    if e[0] == 'op':
        return op(e[1], *[value_none(x, env, known) for x in e[2:]])
    if e[0] == 'delay':
        return value_none(e[1], env, known)
    return (e[0],) + tuple(value_none(x, env, known) if isinstance(x, tuple) or x is None else x for x in e[1:])


def compare(stmt, bs, names, limit=4096):
    """Differences between the reference and the bindings: [(name, known outcomes, expected, found)]."""
    todo = [{}]
    n = 0
    while todo:
        known = todo.pop()
        n += 1
        if n > limit:
            raise Malformed('too many combinations')
        try:
            cur, nxt = {}, {}
            execute(stmt, cur, nxt, known)
            for name in names:
                full = TOP + '.' + name
                want = nxt.get(full, cur.get(full))
                if name in [x for x in names] and full not in bs:
                    if want is not None:
                        return (name, known, want, 'no binding'), n
                    continue
                try:
                    got = outcome(bs, full, known)
                except Malformed as m:
                    return (name, known, want, str(m)), n
                if (want or ('T', full)) != (got or ('T', full)):
                    return (name, known, want, got), n
        except Need as x:
            for v in (True, False):
                k2 = dict(known)
                k2[x.atom] = v
                todo.append(k2)
    return None, n
