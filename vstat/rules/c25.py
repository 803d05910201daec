"""The identifier utilities are interpreted from source over every syntax-tree class (each field present or absent, lists
of none, one and two, nested operands) and over parsed programs.  Replacing identifiers must give the same tree, every
identifier in the table renamed, all at once (a and b can be swapped), its scope and line kept, everything else - other
identifiers, names that are texts, values, lines, absent fields - untouched; collecting identifiers must give every
identifier of the tree, in the order of the tree, as often as it occurs."""
from ..asthelp import AMOD
from ..dfrun import Failed, Pipeline, Undecided
from ..engine import Budget, Engine, K, NONE, RaiseSig, Rec, St, T, isK, kv, mk, show
from ..par import pmap
from ..repo import AnalysisBroken
from ..shapes import locate
from ..spec_ast import AST
from . import c18, c20
from .c22 import diff

ASSUMPTIONS = ['The fields of a node that are sub-trees, and their order, are those of the table in vstat/spec_ast.py.']
REPL, COLL = 'utils.identifierreplace.replaceIdentifiers', 'utils.identifiervisitor.getIdentifiers'
IDS = {'a': 'b', 'b': 'a', 'c': 'z', 'clk': 'clock'}
PROGRAMS = [
    ('one range for several names', 'module TOP (x); parameter a = 1, b = 2; input [a:b] x; wire [a + b - 1:0] u, v; reg [a:0] m [0:b], n [b:a]; endmodule\n'),
    ('parts from a computed position', 'module TOP (x, y); parameter a = 1, b = 2; input [9:0] x; output [9:0] y; assign y = x[a * b + 1 +: 2] | x[a * b -: 2]; endmodule\n'),
    ('instances', 'module TOP (a, b); input a, b; m #(.a(a + b), .c(b)) a (.a(b), .b(a)), b (.a(a), .b(b)); endmodule\nmodule m (a, b); parameter a = 1; parameter c = 2; input a, b; endmodule\n'),
    ('chains', 'module TOP (a, b, c, y); input a, b, c; output reg y; always @(posedge clk) begin : q if (a) y <= b; else case (c) a: y <= c; b, c: begin y <= a ? b : c; end default: y <= {a, b, {2{c}}}; endcase end endmodule\n'),
]
NAMES = ['a', 'b', 'c', 'q', 'a']


def engine(R):
    E = Engine(R)
    E.recurse = E.strict = True
    E.max_depth = 400
    E.budget = 3000000
    return E


class Build(object):
    def __init__(self, R):
        self.E, self.st = engine(R), St()
        self.n = 0
        self.lists = False

    def node(self, cname, *args, **kw):
        c = self.E.repo.cls(AMOD + '.' + cname)
        self.n += 1
        f = self.E.repo.find_method(c, '__init__')
        ps = [x.arg for x in f.node.args.args]
        if 'lineno' in ps:
            kw['lineno'] = K(100 + self.n)
        if 'end_lineno' in ps:
            kw['end_lineno'] = K(500 + self.n)
        return self.E.instantiate(c, list(args), kw, self.st)

    def ident(self):
        x = NAMES[self.n % len(NAMES)]
        return self.node('Identifier', K(x))

    def scoped(self):
        lab = self.node('IdentifierScopeLabel', K('a'))
        return self.node('Identifier', K(NAMES[self.n % 3]), self.node('IdentifierScope', mk('Tup', (lab,))))

    def scope(self):
        return self.node('IdentifierScope', mk('Tup', (self.node('IdentifierScopeLabel', K('a')),)))

    def deep(self):
        return self.node('Plus', self.ident(), self.node('Pointer', self.ident(), self.node('Concat', mk('Tup', (self.ident(), self.scoped())))))

    def make(self, cname, present, fill, count):
        kw = {}
        for n, k in AST[cname]:
            if k in 'no':
                kw[n] = (self.scope if n == 'scope' else fill)() if present(n) or k == 'n' and cname == 'Lvalue' else NONE
            elif k == 'l':
                xs = [fill() for _ in range(count if present(n) else 0)]
                kw[n] = self.E.new_list(self.st, xs) if self.lists else mk('Tup', tuple(xs))
            elif k == 's':
                kw[n] = K('a') if present(n) or cname == 'Identifier' else NONE
            elif n == 'default_nettype':
                pass
        f = self.E.repo.find_method(self.E.repo.cls(AMOD + '.' + cname), '__init__')
        ps = [x.arg for x in f.node.args.args]
        return self.node(cname, **{n: v for n, v in kw.items() if n in ps})


def norm(t, memo, ids=None):
    """Sequences as one kind; with ids, the identifiers of the table renamed."""
    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(i) for i in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            if x.k == 'List':
                r = mk('Tup', *[rec(i) for i in x.a])
            elif x.k == 'Inst' and x.a[0].endswith('.Identifier') and ids:
                fs = tuple((n, K(ids.get(kv(v), kv(v))) if n == 'name' and isK(v) else rec(v)) for n, v in x.a[1])
                r = mk('Inst', x.a[0], fs)
            else:
                r = mk(x.k, *[rec(i) for i in x.a])
            memo[x] = r
        return r
    return rec(t)


def idents(E, st, ref):
    """Identifiers of a tree in the order in which the nodes list their sub-trees."""
    v = E.simp(ref, st)
    r = st.heap[v.a[0]] if v.k == 'Ref' else None
    if r is None or r.kind != 'inst':
        raise Undecided(show(v, 3))
    if r.cls.name == 'Identifier':
        return [kv(E.simp(r.data['name'], st))]
    out = []
    for x in E.as_items(E.call(E.getattr(v, 'children', st), [], {}, st), st):
        out += idents(E, st, x)
    return out


def scenarios(cname, thorough):
    fs = [n for n, k in AST[cname] if k in 'nols']
    yield 'all', (lambda n: True)
    yield 'none', (lambda n: False)
    for f in fs:
        yield 'without ' + f, (lambda n, f=f: n != f)
        if thorough:
            yield 'only ' + f, (lambda n, f=f: n == f)


def table(E, st, ids):
    return E.new_ref(st, Rec('dict', None, dict((K(a), K(b)) for a, b in ids.items())))


def replaced(E, st, ref, ids, before):
    """None, or what is wrong."""
    memo = {}
    want = norm(before, {}, ids)
    r = E.call(E.fn(E.repo.func(REPL)), [ref, table(E, st, ids)], {}, st)
    got = norm(E.snap(r, st), memo)
    if got is not want:
        return 'replacing identifiers gives another tree%s' % diff(want, got)
    return None


def collected(E, st, ref, before):
    want = idents(E, st, ref)
    v = E.snap(E.call(E.fn(E.repo.func(COLL)), [ref], {}, st), st)
    if v.k not in ('Tup', 'List') or not all(isK(x) for x in v.a[0]):
        raise Undecided(show(v, 3))
    got = [kv(x) for x in v.a[0]]
    if got != want:
        return 'the identifiers collected are %s, the tree has %s' % (got, want)
    return None


def run_one(R, job):
    kind, key, payload = job
    rule = kind[0]
    try:
        if kind[1] == 'node':
            cname, present, fill, count = payload
            B = Build(R)
            B.lists = ' in a list' in key
            ref = B.make(cname, present, getattr(B, fill), count)
            E, st = B.E, B.st
        else:
            P = Pipeline(R)
            c = P.tree(payload)
            E, st, ref = P.engine(c), c.st, c.ref
            for i, rec in list(st.heap.items()):
                if rec.kind == 'inst' and 'default_nettype' in rec.data and 'portlist' in rec.data:
                    st.heap[i] = rec.copy(dict(rec.data, default_nettype=K('wire')))
        before = E.snap(ref, st)
        if rule == 'replace':
            m = replaced(E, st, ref, IDS if kind[1] == 'node' else dict(IDS, CLK='k', y='a', state='TOP'), before)
        else:
            m = collected(E, st, ref, before)
        return ('ok', '', sorted(E.called)) if m is None else ('bad', m, [])
    except RaiseSig as x:
        return ('bad', 'it raises %s' % show(x.exc, 4)[:200], [])
    except (Undecided, Budget) as x:
        return ('unknown', '%s %s' % (type(x).__name__, str(x)[:160]), [])
    except RecursionError:
        return ('unknown', 'recursion', [])
    except AnalysisBroken as x:
        return ('broken', str(x), [])


def check(ctx):
    R = ctx.repo
    jobs = []
    deep = ctx.tier == 'thorough'
    for cname in AST:
        for lab, present in scenarios(cname, deep):
            for fill, count in (('ident', 2), ('deep', 1), ('scoped', 3)) if lab in ('all',) or deep else (('ident', 2),):
                for rule in ('replace', 'collect'):
                    jobs.append(((rule, 'node'), '%s %s%s' % (cname, lab, '' if fill == 'ident' else ' (%s)' % fill), (cname, present, fill, count)))
        if any(k == 'l' for n, k in AST[cname]):
            for rule in ('replace', 'collect'):
                for count in (1, 2, 3):
                    jobs.append(((rule, 'node'), '%s %d in a list' % (cname, count), (cname, (lambda n: True), 'deep' if count == 3 else 'ident', count)))
    for n, t in PROGRAMS:
        for rule in ('replace', 'collect'):
            jobs.append(((rule, 'program'), 'program ' + n, t))
    for n, t, *_ in c20.programs() + (c18.programs() if deep else []):
        for rule in ('replace', 'collect'):
            jobs.append(((rule, 'program'), 'program ' + n, t))
    for rule, f in (('replace', REPL), ('collect', COLL)):
        if not any(f == REPL for _ in R.modules) and R.mod(f.rpartition('.')[0]).funcs.get(f.rpartition('.')[2]) is None:
            raise AnalysisBroken('%s no longer exists' % f)
    where = {'replace': R.func(REPL).where(), 'collect': R.func(COLL).where()}
    for job, (verdict, text, fs) in zip(jobs, pmap(lambda j: run_one(R, j), jobs)):
        rule, key = job[0][0], job[1]
        ctx.functions |= set(fs)
        if verdict == 'ok':
            ctx.ok(rule, key)
        elif verdict == 'unknown':
            ctx.unknown(rule, key, text)
        elif verdict == 'broken':
            raise AnalysisBroken(text)
        else:
            ctx.bad(rule, key, text, where[rule])
    ctx.floor('replace', 200)
    ctx.floor('collect', 200)
