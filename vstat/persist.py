"""State that outlives a call: mutable objects bound at module level, in a class body or as a parameter default, followed
through names, attributes, arguments and results (flow-insensitive, field-based points-to restricted to those objects),
and every place in a function that changes one of them."""
import ast

from .repo import Class, Func, Module, walk_own

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'popitem', 'remove', 'discard', 'clear',
            'sort', 'reverse', 'appendleft', 'extendleft', 'popleft', 'intersection_update', 'difference_update',
            'symmetric_difference_update', 'move_to_end', '__setitem__', '__delitem__', 'subtract'}
MAKERS = {'list', 'dict', 'set', 'bytearray', 'OrderedDict', 'defaultdict', 'deque', 'Counter', 'ChainMap'}
INPLACE_ONLY = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)


class Obj(object):
    """A persistent mutable object."""
    __slots__ = ('kind', 'name', 'where', 'builtin')

    def __init__(self, kind, name, where, builtin):
        self.kind, self.name, self.where, self.builtin = kind, name, where, builtin


def callee_name(e):
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None


class Persist(object):
    def __init__(self, R):
        self.R = R
        self.funcs = []
        for m in R.modules.values():
            self.collect(m)
        self.byname = {}
        for f in self.funcs:
            self.byname.setdefault(f.name, []).append(f)
        self.objs = []
        self.edges = {}      # var -> set of vars it flows to
        self.pts = {}        # var -> set of Obj
        self.sites = []      # (var, description, where, strong)
        self.selfs = set()   # the receivers of the package's methods: no built-in container gets there
        self.rebinds = []    # (name, where): a name that outlives the call is rebound in a function
        self.seeds()
        for f in self.funcs:
            self.scan(f)
        self.solve()

    # ---------------------------------------------------------------- collection
    def collect(self, m):
        def nested(f, cls):
            self.funcs.append(f)
            for n in walk_own(f.node):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    nested(Func(m, cls, n, outer=f), cls)
        for f in m.funcs.values():
            nested(f, None)
        for c in m.classes.values():
            for f in c.methods.values():
                nested(f, c)

    def mutable(self, m, e):
        if isinstance(e, INPLACE_ONLY):
            return True
        if isinstance(e, ast.Call):
            n = callee_name(e.func)
            if n in MAKERS:
                return True
            r = self.R.lookup(m, e.func.id) if isinstance(e.func, ast.Name) else self.R.resolve_attr(m, e.func) \
                if isinstance(e.func, ast.Attribute) else None
            return isinstance(r, Class)
        if isinstance(e, (ast.IfExp,)):
            return self.mutable(m, e.body) or self.mutable(m, e.orelse)
        return False

    def obj(self, kind, name, where, e, var):
        o = Obj(kind, name, where, isinstance(e, INPLACE_ONLY) or isinstance(e, ast.Call) and callee_name(e.func) in MAKERS)
        self.objs.append(o)
        self.pts.setdefault(var, set()).add(o)

    def seeds(self):
        for m in self.R.modules.values():
            for n, stmts in m.consts.items():
                for s in stmts:
                    v = getattr(s, 'value', None)
                    if v is not None and self.mutable(m, v):
                        self.obj('module variable', m.short + '.' + n, '%s:%d' % (m.relpath, s.lineno), v, ('mod', m.name, n))
            for c in m.classes.values():
                for s in c.node.body:
                    if isinstance(s, ast.Assign) and self.mutable(m, s.value):
                        for t in s.targets:
                            if isinstance(t, ast.Name) and not self.own(c, t.id):
                                self.obj('class attribute', c.qual + '.' + t.id, '%s:%d' % (m.relpath, s.lineno), s.value, ('attr', t.id))
        for f in self.funcs:
            a = f.args
            ps = a.posonlyargs + a.args
            for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if self.mutable(f.module, d):
                    self.obj('default of a parameter', '%s(%s)' % (f.qual, p.arg), '%s:%d' % (f.module.relpath, d.lineno), d, (id(f.node), p.arg))

        for f in self.funcs:
            if any('cache' in d.split('(')[0].split('.')[-1] for d in f.decorators()):
                self.obj('cached result', f.qual, f.where(), None, ('ret', id(f.node)))

    def own(self, c, name):
        """Every object of the class gets an attribute of its own when it is created."""
        f = self.R.find_method(c, '__init__')
        if f is None:
            return False
        for s in f.node.body:
            for t in s.targets if isinstance(s, ast.Assign) else ():
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.attr == name and f.args.args \
                        and t.value.id == f.args.args[0].arg:
                    return True
        return False

    def killed(self, f, name):
        """Line after which a parameter denotes a new object in any case."""
        if isinstance(f.node, ast.Lambda):
            return None
        for s in f.node.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                v = s.value
                fresh = isinstance(v, INPLACE_ONLY + (ast.Tuple, ast.BinOp, ast.Constant)) or isinstance(v, ast.Call) and (
                    callee_name(v.func) in MAKERS | {'tuple', 'frozenset', 'sorted', 'copy', 'deepcopy'})
                if fresh:
                    return s.end_lineno
        return None

    # ---------------------------------------------------------------- one function
    def locals_of(self, f):
        out = set()
        a = f.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
            out.add(p.arg)
        glob = set()
        for n in walk_own(f.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.Global):
                glob.update(n.names)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
        return out - glob, glob

    def var(self, f, name, line=None):
        g = f
        while g is not None:
            l, gl = self.loc(g)
            if name in gl:
                break
            if name in l:
                if line is not None and g is f:
                    k = self.killed(g, name)
                    if k is not None and line > k:
                        return (id(g.node), name, 'later')
                return (id(g.node), name)
            g = g.outer
        r = self.R.lookup(f.module, name)
        if isinstance(r, tuple) and r[0] == 'const':
            return ('mod', r[1].name, r[2])
        return None

    def loc(self, f):
        k = id(f.node)
        if not hasattr(self, '_loc'):
            self._loc = {}
        if k not in self._loc:
            self._loc[k] = self.locals_of(f)
        return self._loc[k]

    def rooted(self, f, e):
        """Module or class an attribute expression denotes, if it is one."""
        if isinstance(e, ast.Name):
            if e.id == 'cls' and 'classmethod' in f.decorators():
                return f.cls
            if self.var(f, e.id) is not None:
                return None
            r = self.R.lookup(f.module, e.id)
            return r if isinstance(r, (Module, Class)) else None
        if isinstance(e, ast.Attribute):
            b = self.rooted(f, e.value)
            if isinstance(b, Module):
                r = self.R.lookup(b, e.attr)
                return r if isinstance(r, (Module, Class)) else None
            if e.attr == '__class__' and isinstance(e.value, ast.Name) and e.value.id == 'self':
                return f.cls
        if isinstance(e, ast.Call) and callee_name(e.func) == 'type' and f.cls is not None:
            return f.cls
        return None

    def src(self, f, e):
        """Variables an expression may denote the very object of."""
        if isinstance(e, ast.Name):
            v = self.var(f, e.id, e.lineno)
            return [v] if v else []
        if isinstance(e, ast.Attribute):
            b = self.rooted(f, e.value)
            if isinstance(b, Module):
                r = self.R.lookup(b, e.attr)
                return [('mod', r[1].name, r[2])] if isinstance(r, tuple) and r[0] == 'const' else []
            return [('attr', e.attr)]
        if isinstance(e, ast.IfExp):
            return self.src(f, e.body) + self.src(f, e.orelse)
        if isinstance(e, ast.BoolOp):
            return [v for x in e.values for v in self.src(f, x)]
        if isinstance(e, ast.NamedExpr):
            return self.src(f, e.value)
        if isinstance(e, ast.Call):
            if callee_name(e.func) in ('getattr',) and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                return [('attr', e.args[1].value)]
            return [('ret', id(g.node)) for g in self.targets(f, e)]
        return []

    def targets(self, f, e):
        if isinstance(e.func, ast.Name):
            if self.var(f, e.func.id):
                return []
            r = self.R.lookup(f.module, e.func.id)
            if isinstance(r, Func):
                return [r]
            if isinstance(r, Class):
                i = self.R.find_method(r, '__init__')
                return [i] if i else []
            return [g for g in self.byname.get(e.func.id, ()) if g.outer is not None]
        if isinstance(e.func, ast.Attribute):
            b = self.rooted(f, e.func.value)
            if isinstance(b, Module):
                r = self.R.lookup(b, e.func.attr)
                if isinstance(r, Func):
                    return [r]
                if isinstance(r, Class):
                    i = self.R.find_method(r, '__init__')
                    return [i] if i else []
                return []
            return [g for g in self.byname.get(e.func.attr, ()) if g.cls is not None and g.outer is None]
        return []

    def flow(self, a, b):
        self.edges.setdefault(a, set()).add(b)

    def assign(self, f, target, value):
        if isinstance(target, ast.Name):
            v = self.var(f, target.id, target.lineno)
            if v:
                for x in self.src(f, value):
                    self.flow(x, v)
        elif isinstance(target, ast.Attribute):
            for x in self.src(f, value):
                self.flow(x, ('attr', target.attr))
        elif isinstance(target, (ast.Tuple, ast.List)) and isinstance(value, (ast.Tuple, ast.List)) and len(target.elts) == len(value.elts):
            for t, x in zip(target.elts, value.elts):
                self.assign(f, t, x)

    def mutate(self, f, e, what, node, seqonly=False):
        for v in self.src(f, e):
            self.sites.append((v, what, '%s:%d %s' % (f.module.relpath, node.lineno, f.qual), f, seqonly))

    def scan(self, f):
        glob = self.loc(f)[1]
        skip = f.cls is not None and f.name == '__init__'
        for n in walk_own(f.node) if not isinstance(f.node, ast.Lambda) else ast.walk(f.node.body):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.assign(f, t, n.value)
                    self.stored(f, t, n)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.assign(f, n.target, n.value)
                self.stored(f, n.target, n)
            elif isinstance(n, ast.AugAssign):
                self.mutate(f, n.target, 'an augmented assignment', n)
                self.stored(f, n.target, n)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    self.stored(f, t, n)
            elif isinstance(n, (ast.For,)):
                self.stored(f, n.target, n)
            elif isinstance(n, ast.Return) and n.value is not None:
                for x in self.src(f, n.value):
                    self.flow(x, ('ret', id(f.node)))
            elif isinstance(n, ast.Call):
                self.call(f, n)

    def stored(self, f, t, n):
        if isinstance(t, ast.Subscript):
            self.mutate(f, t.value, 'an element is stored', n)
        elif isinstance(t, ast.Attribute):
            b = self.rooted(f, t.value)
            if isinstance(b, (Module, Class)):
                self.rebinds.append(('%s.%s' % (b.short if isinstance(b, Module) else b.qual, t.attr),
                                     '%s:%d %s' % (f.module.relpath, n.lineno, f.qual)))
            else:
                self.mutate(f, t.value, 'an attribute is stored', n)
        elif isinstance(t, ast.Name) and t.id in self.loc(f)[1]:
            self.rebinds.append(('%s.%s' % (f.module.short, t.id), '%s:%d %s' % (f.module.relpath, n.lineno, f.qual)))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.stored(f, x, n)

    def call(self, f, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            b = self.rooted(f, n.func.value)
            if not isinstance(b, Module):
                self.mutate(f, n.func.value, '%s()' % n.func.attr, n)
        nm = callee_name(n.func)
        if nm == 'setattr' and len(n.args) == 3:
            b = self.rooted(f, n.args[0])
            if isinstance(b, (Module, Class)):
                self.rebinds.append((ast.unparse(n.args[0]), '%s:%d %s' % (f.module.relpath, n.lineno, f.qual)))
            else:
                self.mutate(f, n.args[0], 'setattr', n)
        for g in self.targets(f, n):
            a = g.args
            ps = [p.arg for p in a.posonlyargs + a.args]
            if g.cls is not None and ps and g.outer is None and 'staticmethod' not in g.decorators():
                if isinstance(n.func, ast.Attribute) and not isinstance(self.rooted(f, n.func.value), (Module, Class)):
                    self.selfs.add((id(g.node), ps[0]))
                    for x in self.src(f, n.func.value):
                        self.flow(x, (id(g.node), ps[0]))
                    ps = ps[1:]
                elif g.name == '__init__' and not (isinstance(n.func, ast.Attribute) and n.func.attr == '__init__'):
                    ps = ps[1:]
            for p, x in zip(ps, n.args):
                if isinstance(x, ast.Starred):
                    break
                for y in self.src(f, x):
                    self.flow(y, (id(g.node), p))
            names = set(p.arg for p in a.posonlyargs + a.args + a.kwonlyargs)
            for k in n.keywords:
                if k.arg in names:
                    for y in self.src(f, k.value):
                        self.flow(y, (id(g.node), k.arg))

    def solve(self):
        todo = list(self.pts)
        while todo:
            v = todo.pop()
            for w in self.edges.get(v, ()):
                s = self.pts.setdefault(w, set())
                new = self.pts[v] - s
                if w in self.selfs:
                    new = set(o for o in new if not o.builtin)
                if new:
                    s |= new
                    todo.append(w)

    def violations(self):
        out = []
        for v, what, where, f, _ in self.sites:
            for o in sorted(self.pts.get(v, ()), key=lambda o: o.name):
                out.append((o, what, where))
        return out
