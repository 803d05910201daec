"""Programs assigning bits, part selects, array elements and concatenations, unconditionally and under conditions, are interpreted
through the dataflow passes, and the resulting bindings read bit by bit: every bit of every target must receive the bit of the
right-hand side the program assigns to it, for each outcome of the conditions.  The merge of the bindings of a signal into one
tree is interpreted too and must have the same bits."""
import random

from .. import dfshape as S
from ..bits import Bits, Widths, apply
from ..dfrun import Failed
from ..engine import NONE, RaiseSig
from ..flow import I, Malformed, Need, T, decide, op, vtext
from ..shapes import Shape, locate, pipeline, run_all, short

ASSUMPTIONS = ['Descending constant ranges.', 'A conditional binding without a value on a path leaves its bits unchanged; later bindings apply after earlier ones.']
BV = 'dataflow.bindvisitor.BindVisitor.'
MG = 'dataflow.merge.VerilogDataflowMerge.'
HEAD = 'module TOP(input k, input [3:0] a, input [7:0] b, input c, input d, input [6:3] e);\n'
DECL = '%(reg)s [7:0] q; %(reg)s [5:2] r; %(reg)s s; %(reg)s [3:0] m [0:3]; %(reg)s [3:0] t;\n'
W = {'q': (0, 8), 'r': (2, 4), 's': (0, 1), 'm': (0, 4), 't': (0, 4)}


def tg(x):
    """Target from text: q, q[3], q[5:2], m[1], m[1][2], m[1][3:2]."""
    n, _, rest = x.partition('[')
    sel = [y.split(':') for y in rest[:-1].split('][')] if rest else []
    ptr = int(sel.pop(0)[0]) if n == 'm' else None
    if not sel:
        lo, w = W[n]
        return (n, lo + w - 1, lo, ptr)
    return (n, int(sel[0][0]), int(sel[0][-1]), ptr)


def targets(x):
    return [tg(y.strip()) for y in x.strip('{}').split(',')]


def st_text(s, o, ind='  '):
    if s[0] == '=':
        return '%s%s %s %s;\n' % (ind, s[1], o, vtext(s[2]))
    if s[0] == 'blk':
        return '%sbegin\n%s%send\n' % (ind, ''.join(st_text(x, o, ind) for x in s[1]), ind)
    return '%sif (%s)\n%s' % (ind, vtext(s[1]), st_text(s[2], o, ind)) + ('%selse\n%s' % (ind, st_text(s[3], o, ind)) if s[3] else '')


def run_ref(s, state, B):
    if s[0] == '=':
        pos = 0
        done = {}
        for n, hi, lo, ptr in reversed(targets(s[1])):
            for i in range(lo, hi + 1):
                done[('TOP.' + n, ptr, i - W[n][0])] = B.bit(s[2], pos)
                pos += 1
        state.update(done)
    elif s[0] == 'blk':
        for x in s[1]:
            run_ref(x, state, B)
    elif B.need(s[1]):
        run_ref(s[2], state, B)
    elif s[3]:
        run_ref(s[3], state, B)


def show(x):
    if isinstance(x, tuple) and x and x[0] == 'b':
        return '%s bit %d' % (x[1], x[2])
    return 'its old value' if x is None else str(x)


def judge(stmts, names, merge=False):
    def j(run):
        bs = S.binds(run)
        wd = Widths(S.terms(run))
        trees = {}
        if merge:
            trees = merged(run, names)
        todo, n = [{}], 0
        while todo:
            known = todo.pop()
            n += 1
            if n > 300:
                break
            try:
                ref = {}
                for s in stmts:
                    run_ref(s, ref, Bits(wd, known))

                def env(x):
                    if x.split('.')[-1].startswith('_rn') and len(bs.get(x, ())) == 1:
                        return bs[x][0].tree
                    return None
                for name in names:
                    full = 'TOP.' + name
                    try:
                        have = apply({}, bs.get(full, []), wd, known, env)
                    except Malformed as x:
                        return '%s: %s' % (name, x)
                    B = Kept(wd, known, env)
                    for (tn, ptr), t in trees.items():
                        if tn == name and B.some(t) is not None:
                            for i in range(wd.width(full)):
                                v, w = B.bit(t, i), ref.get((full, ptr, i), 'kept')
                                if v != w and not (w == 'kept' and v in ('x', '0')):
                                    return 'merged, bit %d of %s%s takes %s instead of %s%s' % (
                                        i + wd.low(full), name, '' if ptr is None else '[%d]' % ptr, show(v), show(w), when(known))
                    for k in sorted(set(have) | set(x for x in ref if x[0] == full), key=str):
                        if have.get(k) != ref.get(k):
                            return 'bit %d of %s%s takes %s instead of %s%s' % (k[2] + wd.low(full), name, '' if k[1] is None else '[%s]' % k[1], show(have.get(k)), show(ref.get(k)), when(known))
            except Malformed as x:
                return str(x)
            except Need as x:
                for y in (True, False):
                    todo.append(dict(known, **{}) | {x.atom: y})
        return None
    return j


def when(known):
    return ''.join(' when %s is %s' % (S.text(x), y) for x, y in known.items())


class Kept(Bits):
    """Bits of a merged tree, where a part without a value keeps its bits."""

    def some(self, t):
        while t is not None and t[0] == '?':
            t = t[2] if self.need(t[1]) else t[3]
        return t

    def width(self, e):
        if e is not None and e[0] == '?':
            x, y = (e[2], e[3]) if self.need(e[1]) else (e[3], e[2])
            return self.width(x if self.some(x) is not None else y) if x is not None or y is not None else 0
        return Bits.width(self, e)

    def bit(self, e, i):
        return 'kept' if self.some(e) is None else Bits.bit(self, e, i)


def merged(run, names):
    """name -> tree of VerilogDataflowMerge.getTree on the resolved tables."""
    E, st = run.E, run.st
    repo = E.repo
    O = E.call(E.cls_term(repo.cls('dataflow.optimizer.VerilogDataflowOptimizer')), [run.terms, run.binddict], {}, st)
    E.call(E.getattr(O, 'resolveConstant', st), [], {}, st)
    get = lambda n: E.call(E.getattr(O, n, st), [], {}, st)
    top = None
    M = E.call(E.cls_term(repo.cls('dataflow.merge.VerilogDataflowMerge')),
               [E_const('TOP'), run.terms, run.binddict, get('getResolvedTerms'), get('getResolvedBinddict'), get('getConstlist')], {}, st)
    out = {}
    for k, v in S.entries(E, run.binddict, st):
        n = S.chain(k)
        if n.startswith('TOP.') and n[4:] in names:
            for ptr in range(4) if n == 'TOP.m' else [None]:
                try:
                    p = [] if ptr is None else [E.call(E.cls_term(repo.cls('dataflow.dataflow.DFEvalValue')), [E_const(ptr)], {}, st)]
                    t = E.call(E.getattr(M, 'getTree', st), [E.thaw(k, st)] + p, {}, st)
                except RaiseSig as x:
                    raise Failed(x.exc)
                out[n[4:], ptr] = None if t is NONE else S.df(E.snap(t, st))
    return out


def E_const(x):
    from ..engine import K
    return K(x)


a, b, c, d, e = [T(x) for x in 'abcde']
bit = lambda x, i: ('[:]', x, I(i), I(i))
part = lambda x, m, l: ('[:]', x, I(m), I(l))


def cases(tier):
    """(statements, names)"""
    out = []
    one = [('q', b), ('q[3]', c), ('q[7:4]', a), ('q[5:2]', a), ('q[0]', bit(b, 7)), ('q[3:0]', part(b, 7, 4)), ('r', a), ('r[4]', c), ('r[5:3]', a),
           ('r[3:2]', part(b, 6, 5)), ('s', c), ('m[1]', a), ('m[0]', part(b, 5, 2)), ('{q[3:0], t}', b), ('{t, q[7:4]}', b), ('{s, t}', b),
           ('{s, t, r}', ('cat', c, b)), ('{q[1], q[0]}', a), ('{r[5:4], q[7:6], s}', b), ('{r, q[5:2]}', op('And', b, b)), ('{t, r}', ('cat', a, a)),
           ('{s, q}', ('cat', d, b)), ('{q[7], t, q[2:0]}', b), ('{t[0], t[1], t[2], t[3]}', a), ('{r[2], r[5:3]}', a), ('{m[1], m[2]}', b), ('{s, m[3], t[1]}', b),
           ('m[1][2]', c), ('m[2][3:1]', a), ('m[3][1:0]', part(b, 5, 4)), ('{m[1][3:0], t}', b), ('{r, m[1][3:0]}', b), ('{t, m[0][2:1]}', b), ('{m[3][3:2], s, m[2][0]}', b),
           ('{m[1][1], m[1][3:2], m[1][0]}', a), ('{m[0][1:0], m[1][3:2]}', b),
           ('{q[1:0], t[1:0]}', e), ('{q[1:0], s, t[3]}', ('?', d, e, a)), ('{q[3], t}', ('cat', c, e)), ('{t, q[1:0]}', ('cat', e, part(e, 5, 4)))]
    split = [[('q[7:4]', a), ('q[3:0]', b)], [('q[3:0]', a), ('q[7:4]', part(b, 7, 4))], [('q[7]', c), ('q[6:1]', b), ('q[0]', d)], [('r[2]', c), ('r[5:3]', a)],
             [('q[1:0]', a), ('q[5:4]', b)], [('m[0]', a), ('m[1]', b)], [('m[2]', a), ('m[0]', part(b, 7, 4)), ('m[1]', b)], [('{q[7:6], t}', b), ('q[5:0]', b)],
             [('m[1][1:0]', a), ('m[1][3:2]', b)], [('m[1][3]', c), ('m[2][3]', d), ('m[1][2:0]', part(b, 6, 4))], [('{t, m[1][1:0]}', b), ('m[1][3:2]', a)],
             [('{s, q[3:0]}', b), ('{t, q[7:4]}', b)], [('r[5]', c), ('r[4]', d), ('r[3]', c), ('r[2]', bit(a, 1))]]
    over = [[('q', b), ('q[3:0]', a)], [('q', b), ('q[7]', c), ('q[2:1]', a)], [('q[3:0]', a), ('q', b)], [('r', a), ('r[4:3]', b)], [('q[5:0]', b), ('q[7:3]', part(b, 7, 2))],
            [('q[7:3]', b), ('q[5:0]', part(b, 7, 2))], [('q', b), ('{q[0], s}', a)], [('t', a), ('t', b)], [('q[3:2]', a), ('q[3:2]', b)],
            [('t', e), ('t[1:0]', a)], [('t', e), ('t[2]', c)], [('t', e), ('t[3:1]', part(e, 5, 3))]]
    return one, split, over


def fit(x, n):
    """A value exactly as wide as the target (the merge concatenates the values as they are)."""
    w = sum(h - l + 1 for _, h, l, _ in targets(x))
    return [part(b, n % 3 + w - 1, n % 3) if w <= 5 else ('cat', part(b, w - 5, 0), a) if w > 4 else b, part(b, w - 1, 0) if w < 8 else b][n // 3 % 2]


def merges(tier):
    """(kind, statements) with values that fit their targets."""
    out = []
    parts = [['q[7:4]', 'q[3:0]'], ['q[3:0]', 'q[7:4]'], ['q[7]', 'q[6:1]', 'q[0]'], ['q[1:0]', 'q[7:2]'], ['q[7:6]', 'q[1:0]', 'q[5:2]'], ['t[3]', 't[2]', 't[1]', 't[0]'],
             ['q[1:0]', 'q[5:4]', 'q[7]'], ['t[1:0]', 't[3]'], ['{s, q[3:0]}', '{t, q[7:4]}'], ['{q[7:6], t}', 'q[5:0]'], ['m[0]', 'm[1]'], ['m[1]', 'm[0]', 'm[3]']]
    over = [['q', 'q[3:0]'], ['q', 'q[7]', 'q[2:1]'], ['t', 't[3:2]'], ['q[5:0]', 'q[7:3]'], ['q[7:3]', 'q[5:0]'], ['q', 'q[0]'], ['t', 't'], ['q[3:0]', 'q[7:4]', 'q[5:2]']]
    for n, L in enumerate(parts + over):
        for v in range(3 if tier == 'quick' else 6):
            S_ = [('=', x, fit(x, n + v + i)) for i, x in enumerate(L)]
            kind = ['clocked', 'comb'][v % 2]
            if L in parts and v == 0:
                out.append(('assign', S_))
            out.append((kind, S_))
            neg = [('=', x, ('op', 'Unot', e)) for _, x, e in S_]
            if L in parts:
                out.append((kind, [('if', c, x, y) for x, y in zip(S_, neg)]))
                out.append((kind, [('if', d, x, None) for x in S_]))
                out.append((kind, [('if', c, ('blk', S_), ('if', d, ('blk', neg), None))]))
            else:
                out.append((kind, [('if', c, ('blk', S_), ('blk', neg))]))
                out.append((kind, S_[:1] + [('if', c, x, None) for x in S_[1:]]))
                out.append((kind, S_[:1] + [('if', c, x, y) for x, y in zip(S_[1:], neg[1:])]))
                out.append((kind, [('if', c, S_[0], None)] + [('if', d, x, None) for x in S_[1:]]))
                out.append((kind, [('if', c, S_[0], neg[0])] + [('if', d, x, None) for x in S_[1:]]))
                out.append((kind, [('if', c, S_[0], None)] + S_[1:]))
                out.append((kind, [('if', c, S_[0], neg[0])] + S_[1:]))
    for kind in ('clocked', 'comb'):
        for x in ('t[1:0]', 't[3]', 't[2:1]'):
            y = ('=', x, part(e, 5, 4) if x != 't[3]' else bit(e, 4))
            out += [(kind, [('=', 't', e), y]), (kind, [('=', 't', e), ('if', c, y, None)]), (kind, [('if', c, ('=', 't', e), ('=', 't', a)), ('if', d, y, None)])]
        out.append((kind, [('=', '{s, t[2:0]}', e), ('=', 't[0]', c)]))
    R = random.Random(41)
    for i in range(40 if tier == 'quick' else 600):
        L, used = [], set()
        for _ in range(R.randint(3, 4)):
            lo = R.randint(0, 6)
            hi = R.randint(lo + 1, 7)
            if (hi, lo) not in used and (hi, lo) != (7, 0):     # an assignment to the same range later has cases of its own
                used.add((hi, lo))
                L.append('q[%d:%d]' % (hi, lo))
        if len(L) < 2:
            continue            # one part on its own: its tree carries no position
        S_ = [('=', x, fit(x, R.randint(0, 5))) for x in L]
        out.append((R.choice(['clocked', 'comb']), [R.choice([s, s, ('if', c, s, None), ('if', d, s, ('=', s[1], ('op', 'Unot', s[2])))]) for s in S_]))
    return out


def A(x):
    return ('=', x[0], x[1])


def names_of(stmts):
    out = set()

    def f(s):
        if s[0] == '=':
            out.update(t[0] for t in targets(s[1]))
        elif s[0] == 'blk':
            for x in s[1]:
                f(x)
        else:
            f(s[2])
            if s[3]:
                f(s[3])
    for s in stmts:
        f(s)
    return sorted(out)


def shapes(ctx):
    out = []
    one, split, over = cases(ctx.tier)
    w = locate(ctx.repo, BV + 'makeBind', BV + 'getDestinations')

    def add(kind, stmts, merge=False):
        names = names_of(stmts)
        reg = 'wire' if kind == 'assign' else 'reg'
        if kind == 'assign':
            body = ''.join('assign %s = %s;\n' % (s[1], vtext(s[2])) for s in stmts)
        elif kind == 'clocked':
            body = 'always @(posedge k) begin\n%send\n' % ''.join(st_text(s, '<=') for s in stmts)
        else:
            body = 'always @* begin\n%send\n' % ''.join(st_text(s, '=') for s in stmts)
        text = HEAD + DECL % dict(reg=reg) + body + 'endmodule\n'
        out.append(Shape('part', short('%s %s%s' % (kind, ' '.join(body.split()), ' merged' if merge else ''), 150), text, judge(stmts, names, merge), w,
                         'a part of a signal gets other bits'))
    flat = lambda L: ('blk', [A(x) for x in L])
    for x in one:
        for kind in ('assign', 'clocked', 'comb'):
            add(kind, [A(x)])
        add('clocked', [('if', c, A(x), None)])
        add('comb', [('if', d, A(x), ('=', x[0], ('op', 'Unot', b)))])
    for L in split + over:
        if L in split:
            add('assign', [A(x) for x in L])
        for kind in ('clocked', 'comb'):
            add(kind, [A(x) for x in L])
        add('clocked', [('if', c, flat(L), None)])
        add('clocked', [('if', c, flat(L), flat([(x, ('op', 'Unot', e)) for x, e in L]))])
        add('comb', [flat([(x, ('op', 'Unot', e)) for x, e in L][:1])] + [('if', c, flat(L[1:]), None)])
        add('clocked', [A(L[0])] + [('if', d, A(x), None) for x in L[1:]])
        add('clocked', [('if', c, A(L[0]), flat(L[1:]))])
        add('clocked', [('if', c, A(L[0]), None)] + [('if', d, A(x), None) for x in L[1:]])
    R = random.Random(14)
    atoms = [A(x) for x in one] + [('=', 't[%d]' % i, bit(b, i)) for i in range(4)]
    for i in range(40 if ctx.tier == 'quick' else 600):
        used, body = set(), []
        for _ in range(R.randint(2, 4)):
            s = R.choice(atoms)
            pos = set((n, p, x) for n, h, l, p in targets(s[1]) for x in range(l, h + 1))
            if pos & used:
                continue        # targets that overlap partly have cases of their own
            used |= pos
            z = R.random()
            body.append(s if z < 0.4 else ('if', R.choice([c, d]), s, None) if z < 0.7 else ('if', c, s, ('=', s[1], ('op', 'Unot', a))))
        add(R.choice(['clocked', 'comb']), body)
    for kind, stmts in merges(ctx.tier):
        add(kind, stmts, True)
    # defects recorded in known_findings.txt
    add('clocked', [('=', 'q[7:4]', a), ('=', 'q[3:0]', b)], True)
    add('clocked', [('=', 'r[5:4]', part(b, 1, 0)), ('=', 'r[3:2]', part(b, 7, 6))], True)
    add('clocked', [('=', 'q[6:5]', part(b, 1, 0))], True)
    add('clocked', [('if', c, ('=', 'q[1:0]', part(b, 1, 0)), None), ('=', 'q', b), ('if', d, ('=', 'q[1:0]', part(b, 4, 3)), None)])
    return out


def check(ctx):
    P = pipeline(ctx)
    run_all(ctx, P, shapes(ctx))
    ctx.floor('part', 150)
