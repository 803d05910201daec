"""The PLY grammar written in the parser's docstrings, and the abstract effect of every action."""
import re

from .engine import (Engine, Info, K, NONE, RaiseSig, St, Sym, T, gam, isK, kv, mk, show, subterms, Budget)
from .repo import AnalysisBroken


class Production(object):
    __slots__ = ('lhs', 'rhs', 'func', 'index', 'result', 'events', 'alarms', 'raises', 'st', 'prec')

    def __repr__(self):
        return '%s : %s' % (self.lhs, ' '.join(self.rhs))

    @property
    def name(self):
        return '%s -> %s' % (self.lhs, ' '.join(self.rhs))


def parse_doc(doc):
    """PLY docstring -> list of (lhs, [symbols], prec)."""
    out = []
    lhs = None
    for line in doc.splitlines():
        toks = line.split()
        if not toks:
            continue
        if toks[0] == '|':
            if lhs is None:
                raise AnalysisBroken('grammar rule starts with |')
            rhs = toks[1:]
        elif len(toks) >= 2 and toks[1] in (':', '::='):
            lhs = toks[0]
            rhs = toks[2:]
        else:
            raise AnalysisBroken('bad grammar line %r' % line)
        # several alternatives on one line
        cur = []
        alts = [cur]
        for t in rhs:
            if t == '|':
                cur = []
                alts.append(cur)
            else:
                cur.append(t)
        for a in alts:
            prec = None
            if '%prec' in a:
                i = a.index('%prec')
                prec = a[i + 1]
                a = a[:i]
            out.append((lhs, [x for x in a], prec))
    return out


class Grammar(object):
    def __init__(self, repo, cls='vparser.parser.VerilogParser'):
        self.repo = repo
        self.cls = repo.cls(cls)
        self.prods = []
        self.actions = []
        for k in repo.mro(self.cls):
            for f in k.methods.values():
                if f.name.startswith('p_') and f.name != 'p_error' and f.doc():
                    self.actions.append(f)
                    for i, (lhs, rhs, prec) in enumerate(parse_doc(f.doc())):
                        p = Production()
                        p.lhs, p.rhs, p.func, p.index, p.prec = lhs, rhs, f, i, prec
                        p.result = None
                        self.prods.append(p)
        if len(self.prods) < 250:
            raise AnalysisBroken('only %d grammar productions found' % len(self.prods))
        self.nts = set(p.lhs for p in self.prods)
        self.by_lhs = {}
        for p in self.prods:
            self.by_lhs.setdefault(p.lhs, []).append(p)
        self.terminals = set(s for p in self.prods for s in p.rhs if s not in self.nts)

    def term_for(self, p, i):
        return Sym('p%d' % i)

    def run(self, p, engine_opts=None, types=None):
        """Abstract effect of one action for one production."""
        E = Engine(self.repo, **(engine_opts or {}))
        st = St()
        P = mk('Sym', 'p')
        n = len(p.rhs) + 1
        E.info[P] = Info(length=n, truth=True)
        for i, s in enumerate(p.rhs, 1):
            it = mk('Item', P, K(i))
            if s not in self.nts:
                E.info[it] = Info(isstr=True, truth=True)
            elif types and types.get(s):
                ts = types[s]
                insts = [t for t in ts if t not in ('tuple', 'str', 'None', '?', 'list', 'True', 'False')]
                if len(insts) == len(ts):
                    E.info[it] = Info(truth=True, types=frozenset(insts))
                elif ts == {'tuple'} or ts == {'list'}:
                    E.info[it] = Info(isseq=True)
                elif ts == {'str'}:
                    E.info[it] = Info(isstr=True, truth=True)
        recv = E.new_inst(st, self.cls, open_=Sym('parser'))
        res = NONE
        raised = None
        try:
            E.call_func(p.func, [P], {}, st, recv=recv)
        except RaiseSig as r:
            st = r.st
            raised = r.exc
        val = mk('Unset')
        evs = []

        def walk(evs_, val):
            for e in evs_:
                if e.k == 'Ev' and e.a[0] == 'setitem' and e.a[1] is P and isK(e.a[2], 0):
                    val = e.a[3]
                elif e.k == 'Opt':
                    val = gam(e.a[0], walk(e.a[1], val), walk(e.a[2], val))
                evs.append(e)
            return val
        val = walk(st.ev, val)
        p.result = val
        p.events = evs
        p.raises = raised
        p.alarms = list(E.alarms)
        p.st = st
        return p

    def shapes(self, v, p, types):
        """Coarse types of a result term."""
        P = mk('Sym', 'p')
        out = set()
        todo = [v]
        while todo:
            t = todo.pop()
            if t.k == 'Gam':
                todo += [t.a[1], t.a[2]]
            elif t.k == 'Inst':
                out.add(t.a[0])
            elif t.k == 'Tup':
                out.add('tuple')
            elif t.k == 'List':
                out.add('list')
            elif t.k in ('Cat', 'Str'):
                out.add('str')
            elif t.k == 'K':
                out.add('None' if kv(t) is None else ('str' if t.a[0] == 'str' else repr(kv(t))))
            elif t.k == 'Item' and t.a[0] is P and t.a[1].k == 'K':
                s = p.rhs[kv(t.a[1]) - 1]
                if s not in self.nts:
                    out.add('str')
                else:
                    out |= types.get(s, set())
            else:
                out.add('?')
        return out

    def analyse(self):
        types = {}
        for rnd in range(6):
            changed = False
            for p in self.prods:
                self.run(p, types=types)
            # fixpoint of shapes
            while True:
                ch = False
                for p in self.prods:
                    s = self.shapes(p.result, p, types)
                    if not s <= types.get(p.lhs, set()):
                        types[p.lhs] = types.get(p.lhs, set()) | s
                        ch = True
                changed |= ch
                if not ch:
                    break
            if not changed:
                break
        self.types = types
        return self
