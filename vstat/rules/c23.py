"""Names, attributes and calls of every function of the package are resolved against its own sources: no function reads a
name that nothing defines, an attribute its receiver's class cannot have, a visitor method for a node kind that does not
exist; no call has a shape its callee does not accept, no format string a wrong number of values; only exceptions are
raised.  Programs the analysis cannot accept are carried through it: it must reject them with one of its own errors."""
import ast
import builtins
import importlib
import re

from ..dfrun import Failed, Pipeline, Undecided
from ..engine import Budget
from ..par import pmap
from ..repo import AnalysisBroken, Class, Func, Module, walk_own
from ..shapes import short

ASSUMPTIONS = ['Attributes of the standard library and of built-in objects are those of the interpreter running the analysis.',
               'Classes with a base outside the package, and objects whose class is not known, are not judged attribute by attribute.']

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', 'unicode', 'basestring', 'xrange', 'long'}
STD = ('sys', 'os', 're', 'copy', 'collections', 'tempfile', 'subprocess', 'pathlib', 'itertools', 'functools', 'os.path',
       'optparse', 'argparse', 'math', 'string', 'io', 'operator')
PLAIN = ('sys', 'os', 're', 'copy', 'collections', 'functools', 'itertools', 'math', 'os.path', 'operator', 'string')


def distance(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a):
        prev, row[0] = row[0], i + 1
        for j, y in enumerate(b):
            prev, row[j + 1] = row[j + 1], min(row[j + 1] + 1, row[j] + 1, prev + (x != y))
    return row[-1]


BUILTIN_ATTRS = set()
for _t in (str, bytes, int, float, list, dict, set, frozenset, tuple, type, Exception, object, type(len), type(lambda: 0),
           type(re.compile('')), type(re.match('', '')), type((lambda: (yield))()), type(sys_stdout := __import__('sys').stdout), range, slice(0), property, type(iter([]))):
    BUILTIN_ATTRS |= set(dir(_t))
for _m, _ns in (('collections', 'deque OrderedDict defaultdict Counter ChainMap'), ('pathlib', 'Path'), ('io', 'StringIO BytesIO'),
                ('subprocess', 'CompletedProcess Popen'), ('threading', 'Thread'), ('enum', 'Enum')):
    for _n in _ns.split():
        BUILTIN_ATTRS |= set(dir(getattr(importlib.import_module(_m), _n)))
BUILTIN_ATTRS |= {'_replace', '_asdict', '_fields', '_make', 'returncode', 'stdout', 'stderr', 'args', 'name', 'value'}
BUILTIN_ATTRS |= {'__name__', '__dict__', '__doc__', '__module__', '__qualname__', 'im_func', 'func_code'}


def all_funcs(R):
    out = []
    for m in R.modules.values():
        def nested(f, cls):
            out.append(f)
            for n in walk_own(f.node):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    nested(Func(m, cls, n, outer=f), cls)
        for f in m.funcs.values():
            nested(f, None)
        for c in m.classes.values():
            for f in c.methods.values():
                nested(f, c)
    return out


def own_nodes(f):
    """Nodes of the body; decorators and defaults belong to the scope around."""
    if isinstance(f.node, ast.Lambda):
        yield from ast.walk(f.node.body)
        return
    for s in f.node.body:
        yield s
        if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            yield from walk_own(s)


class Names(object):
    def __init__(self, ctx):
        self.ctx, self.R = ctx, ctx.repo
        self.funcs = all_funcs(self.R)
        self.loc = {}
        self.attrs = {}          # class qual -> names its objects can have (own methods, attributes, self.x = ...)
        self.dynamic = set()
        self.known_attrs = set(BUILTIN_ATTRS)
        self.ext_attr_mods = {}
        self.collect()

    def where(self, f, n):
        return '%s:%d %s' % (f.module.relpath, getattr(n, 'lineno', f.node.lineno), f.qual)

    # -------------------------------------------------------------- tables
    def locals(self, f):
        k = id(f.node)
        if k in self.loc:
            return self.loc[k]
        a = f.args
        out = set(p.arg for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x])
        for n in own_nodes(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    out.add((x.asname or x.name).split('.')[0])
            elif isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                out.update(n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                out.add(n.rest)
        self.loc[k] = out
        return out

    def collect(self):
        for f in self.funcs:
            if f.cls is None:
                continue
            recv = None
            g = f
            while g.outer is not None:
                g = g.outer
            if g.args.args and 'staticmethod' not in g.decorators():
                recv = g.args.args[0].arg
            for n in own_nodes(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.known_attrs.add(n.attr)
                    if isinstance(n.value, ast.Name) and n.value.id == recv:
                        self.attrs.setdefault(f.cls.qual, set()).add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args:
                    x = n.args[1]
                    if isinstance(x, ast.Constant):
                        self.known_attrs.add(x.value)
                        self.attrs.setdefault(f.cls.qual, set()).add(x.value)
                    elif isinstance(n.args[0], ast.Name) and n.args[0].id == recv:
                        self.dynamic.add(f.cls.qual)
        for f in self.funcs:
            for n in own_nodes(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.known_attrs.add(n.attr)
        for m in self.R.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    own = set()
                    for b in n.body:
                        if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                            own.add(b.target.id)
                        elif isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                            own.add(b.name)
                        elif isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__slots__' for t in b.targets):
                            own.update(x.value for x in ast.walk(b.value) if isinstance(x, ast.Constant) and isinstance(x.value, str))
                    self.known_attrs.update(own)
                    if m.classes.get(n.name) is not None:
                        self.attrs.setdefault(m.classes[n.name].qual, set()).update(own)
                elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and ast.unparse(n.func).split('.')[-1] in ('namedtuple', 'make_dataclass'):
                    for x in ast.walk(n):
                        if isinstance(x, ast.Constant) and isinstance(x.value, str):
                            self.known_attrs.update(x.value.replace(',', ' ').split())
            self.known_attrs.update(m.funcs)
            self.known_attrs.update(m.classes)
            self.known_attrs.update(m.consts)
            for c in m.classes.values():
                self.known_attrs.update(c.methods)
                self.known_attrs.update(c.attrs)

    def has(self, c, name):
        """Can an object of class c (or of a subclass) have the attribute?"""
        for d in self.R.mro(c):
            if not isinstance(d, Class):
                continue
            if name in d.methods or name in d.attrs or name in self.attrs.get(d.qual, ()) or d.qual in self.dynamic:
                return True
            if name in d.__dict__.get('classes', ()):
                return True
        if name in dir(object) or name in ('__dict__', '__class__', '__name__'):
            return True
        return bool([b for b in self.R.ext_bases(c) if b not in ('object',)])

    def has_sub(self, c, name):
        return self.has(c, name) or any(self.has(d, name) for d in self.R.subclasses(c))

    # -------------------------------------------------------------- rules
    def names(self, f):
        bad = 0
        for n in own_nodes(f):
            if not isinstance(n, ast.Name) or not isinstance(n.ctx, ast.Load):
                continue
            if self.bound(f, n.id):
                continue
            bad = 1
            self.ctx.bad('name', '%s:%s' % (f.qual, n.id), '%s reads the name %s, which nothing defines' % (f.qual, n.id), self.where(f, n))
        if not bad:
            self.ctx.ok('name', f.qual)

    def around(self, f):
        """Decorators and defaults are evaluated in the scope that holds the function."""
        if isinstance(f.node, ast.Lambda):
            return
        es = list(f.node.decorator_list) + list(f.args.defaults) + [d for d in f.args.kw_defaults if d is not None]
        for e in es:
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if f.outer is None and f.cls is not None and (n.id in f.cls.attrs or n.id in f.cls.methods):
                        continue
                    if n.id in BUILTINS or self.R.lookup(f.module, n.id) is not None or f.outer is not None and self.bound(f.outer, n.id):
                        continue
                    if any(isinstance(x, ast.comprehension) for x in ast.walk(e)):
                        continue
                    self.ctx.bad('name', '%s:%s' % (f.qual, n.id), 'the definition of %s reads the name %s, which nothing defines' % (f.qual, n.id), self.where(f, n))

    def bound(self, f, name):
        g = f
        while g is not None:
            if name in self.locals(g):
                return True
            g = g.outer
        return name in BUILTINS or self.R.lookup(f.module, name) is not None

    def is_local(self, f, name):
        g = f
        while g is not None:
            if name in self.locals(g):
                return True
            g = g.outer
        return False

    def denotes(self, f, e):
        """Module, Class, Func or ('ext', dotted) an expression denotes, if that is plain."""
        if isinstance(e, ast.Name):
            if self.is_local(f, e.id):
                return None
            r = self.R.lookup(f.module, e.id)
            return r if isinstance(r, (Module, Class, Func)) or isinstance(r, tuple) and r[0] == 'ext' else None
        if isinstance(e, ast.Attribute):
            b = self.denotes(f, e.value)
            if isinstance(b, Module):
                r = self.R.lookup(b, e.attr)
                return r if isinstance(r, (Module, Class, Func)) or isinstance(r, tuple) and r[0] == 'ext' else None
            if isinstance(b, tuple):
                return ('ext', b[1] + '.' + e.attr)
        return None

    def receiver(self, f):
        g = f
        while g.outer is not None:
            g = g.outer
        if g.cls is None or not g.args.args or 'staticmethod' in g.decorators():
            return None
        return g.args.args[0].arg

    def attributes(self, f):
        recv = self.receiver(f)
        typed = self.typed(f)
        tested = set()
        for n in own_nodes(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant):
                tested.add(n.args[1].value)
        bad = 0
        for n in own_nodes(f):
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load) or n.attr in tested:
                continue
            b = self.denotes(f, n.value)
            if isinstance(b, Module):
                if self.R.lookup(b, n.attr) is None and n.attr not in ('__name__', '__file__', '__doc__', '__dict__'):
                    bad = 1
                    self.ctx.bad('attribute', '%s:%s.%s' % (f.qual, b.short, n.attr), '%s reads %s of module %s, which does not define it' % (f.qual, n.attr, b.short), self.where(f, n))
                continue
            if isinstance(b, tuple):
                if b[1] in STD:
                    if not hasattr(importlib.import_module(b[1]), n.attr):
                        bad = 1
                        self.ctx.bad('attribute', '%s:%s.%s' % (f.qual, b[1], n.attr), '%s reads %s.%s, which does not exist' % (f.qual, b[1], n.attr), self.where(f, n))
                continue
            if isinstance(b, Class):
                if not self.has(b, n.attr) and n.attr not in dir(type):
                    bad = 1
                    self.ctx.bad('attribute', '%s:%s.%s' % (f.qual, b.name, n.attr), '%s reads %s of class %s' % (f.qual, n.attr, b.name), self.where(f, n))
                continue
            if isinstance(n.value, ast.Name):
                v = n.value.id
                cs = None
                if v == recv and f.cls is not None and not self.rebound(f, v):
                    cs = [f.cls]
                elif v in typed and not self.rebound(f, v):
                    cs = typed[v]
                if cs:
                    if not any(self.has_sub(c, n.attr) for c in cs):
                        bad = 1
                        self.ctx.bad('attribute', '%s:%s.%s' % (f.qual, v, n.attr), '%s reads %s.%s, but objects of %s have no such attribute' % (
                            f.qual, v, n.attr, ' or '.join(c.name for c in cs)), self.where(f, n))
                    continue
            if n.attr not in self.known_attrs and not self.foreign(f, n.value) and (not self.outside(f.module) or self.near(n.attr)):
                bad = 1
                self.ctx.bad('attribute', '%s:.%s' % (f.qual, n.attr), '%s reads an attribute %s that no class of the package defines' % (f.qual, n.attr), self.where(f, n))
        if not bad:
            self.ctx.ok('attribute', f.qual)

    def rebound(self, f, v):
        for n in own_nodes(f):
            if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store):
                return True
        return False

    def outside(self, m):
        """The module imports a package whose objects this analysis does not know."""
        r = getattr(m, '_outside', None)
        if r is None:
            r = False
            for n in ast.walk(m.tree):
                names = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or ''] if isinstance(n, ast.ImportFrom) and not n.level else []
                for x in names:
                    if x.split('.')[0] not in ('pyverilog', '__future__') and x not in PLAIN:
                        r = True
            m._outside = r
        return r

    def near(self, a):
        """A misspelling of an attribute that exists."""
        return len(a) > 3 and any(abs(len(k) - len(a)) <= 2 and distance(a, k) <= (2 if len(a) > 7 else 1) for k in self.known_attrs if len(k) > 3)

    def foreign(self, f, e):
        """The object comes from outside the package (ply, jinja, the standard library)."""
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                d = self.denotes(f, n)
                if isinstance(d, tuple) or n.id in self.local_imports(f):
                    return True
        if isinstance(e, ast.Name) or isinstance(e, ast.Attribute):
            key = e.id if isinstance(e, ast.Name) else e.attr
            if key in self.foreign_vars():
                return True
            if f.name.startswith(('p_', 't_')) or key in ('p', 't', 'tok', 'token', 'lexer', 'parser'):
                return True
        return False

    def local_imports(self, f):
        out = set()
        for n in own_nodes(f):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                out.update((x.asname or x.name).split('.')[0] for x in n.names)
        return out

    def foreign_vars(self):
        """Variables and attributes bound from calls of foreign objects, anywhere."""
        if not hasattr(self, '_fv'):
            out = set()
            for f in self.funcs:
                for n in own_nodes(f):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        fn = n.value.func
                        d = self.denotes(f, fn)
                        if isinstance(d, tuple) or isinstance(fn, ast.Name) and fn.id == 'open' or isinstance(fn, ast.Attribute) and (
                                isinstance(fn.value, ast.Name) and fn.value.id in out or isinstance(fn.value, ast.Attribute) and fn.value.attr in out):
                            for t in n.targets:
                                if isinstance(t, ast.Name):
                                    out.add(t.id)
                                elif isinstance(t, ast.Attribute):
                                    out.add(t.attr)
            self._fv = out
        return self._fv

    def typed(self, f):
        """Parameters whose class follows from the method's name (visit_X) ."""
        if f.cls is None or f.outer is not None or not f.name.startswith('visit_'):
            return {}
        ps = [a.arg for a in f.args.args]
        if len(ps) < 2:
            return {}
        cs = self.kinds(f.name[6:])
        return {ps[1]: cs} if cs else {}

    def kinds(self, name):
        out = []
        for q in ('vparser.ast', 'dataflow.dataflow'):
            c = self.R.mod(q).classes.get(name)
            if c is not None:
                out.append(c)
        return out

    def visitors(self):
        """Every visit_X names a node kind."""
        for m in self.R.modules.values():
            for c in m.classes.values():
                line = [d for d in self.R.mro(c) if isinstance(d, Class)]
                if not any('visit' in d.methods for d in line) or not any(
                        isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.startswith('visit_')
                        for d in line for f in d.methods.values() for n in ast.walk(f.node)):
                    continue
                for n, f in c.methods.items():
                    if not n.startswith('visit_'):
                        continue
                    if self.kinds(n[6:]) or self.called_by_name(n) or any(x.name == n[6:] for mm in self.R.modules.values() for x in mm.classes.values()):
                        self.ctx.ok('visitor', f.qual)
                    else:
                        self.ctx.bad('visitor', f.qual, '%s handles a node kind %s that does not exist' % (f.qual, n[6:]), f.where())

    def called_by_name(self, n):
        if not hasattr(self, '_called'):
            self._called = set(x.func.attr for f in self.funcs for x in own_nodes(f) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute))
        return n in self._called

    def calls(self, f):
        recv = self.receiver(f)
        for n in own_nodes(f):
            if not isinstance(n, ast.Call):
                continue
            g = drop = None
            d = self.denotes(f, n.func)
            if isinstance(d, Func):
                g, drop = d, 0
            elif isinstance(d, Class):
                g = self.R.find_method(d, '__init__')
                drop = 1
                if g is None and not [b for b in self.R.ext_bases(d) if b != 'object']:
                    if n.args or n.keywords:
                        self.ctx.bad('call', '%s:%s' % (f.qual, d.name), '%s passes arguments to %s, which takes none' % (f.qual, d.name), self.where(f, n))
                    continue
            elif isinstance(n.func, ast.Attribute):
                b = self.denotes(f, n.func.value)
                if isinstance(b, Class):
                    g = self.R.find_method(b, n.func.attr)
                    drop = 0
                    if g is not None and ({'classmethod'} & set(g.decorators())):
                        drop = 1
                elif isinstance(n.func.value, ast.Name) and n.func.value.id == recv and f.cls is not None and not self.rebound(f, recv):
                    gs = [self.R.find_method(c, n.func.attr) for c in [f.cls] + list(self.R.subclasses(f.cls))]
                    gs = [x for x in gs if x is not None]
                    if n.func.attr in self.attrs.get(f.cls.qual, ()):
                        continue
                    if gs and any(self.accepts(x, n, 0 if 'staticmethod' in x.decorators() else 1) is None for x in gs):
                        self.ctx.ok('call', f.qual)
                        continue
                    g = gs[0] if gs else None
                    drop = 1
                    if g is not None and 'staticmethod' in g.decorators():
                        drop = 0
                elif isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super' and f.cls is not None:
                    for b in self.R.mro(f.cls)[1:]:
                        if isinstance(b, Class) and n.func.attr in b.methods:
                            g, drop = b.methods[n.func.attr], 1
                            break
                else:
                    # a method of an object of unknown class: some method of that name must accept the call
                    gs = [c.methods[n.func.attr] for m in self.R.modules.values() for c in m.classes.values() if n.func.attr in c.methods]
                    if gs and n.func.attr not in BUILTIN_ATTRS and not self.foreign(f, n.func.value):
                        r = [self.accepts(x, n, 0 if 'staticmethod' in x.decorators() else 1) for x in gs]
                        if all(x is not None for x in r):
                            self.ctx.bad('call', '%s:.%s' % (f.qual, n.func.attr), '%s calls %s in a way no method of that name accepts: %s' % (f.qual, n.func.attr, r[0]), self.where(f, n))
                        else:
                            self.ctx.ok('call', f.qual)
                    continue
            if g is None:
                continue
            m = self.accepts(g, n, drop)
            if m:
                self.ctx.bad('call', '%s:%s' % (f.qual, g.qual), '%s calls %s %s' % (f.qual, g.qual, m), self.where(f, n))
            else:
                self.ctx.ok('call', f.qual)

    def accepts(self, g, n, drop):
        """None, or what is wrong with the call."""
        if any(d.split('(')[0].split('.')[-1] not in ('classmethod', 'staticmethod', 'TOKEN') for d in g.decorators()):
            return None
        a = g.args
        ps = [p.arg for p in a.posonlyargs + a.args][drop:]
        if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
            return None
        if len(n.args) > len(ps) and a.vararg is None:
            return 'with %d arguments, it takes %d' % (len(n.args), len(ps))
        names = set(ps) | set(p.arg for p in a.kwonlyargs)
        got = set(ps[:len(n.args)])
        for k in n.keywords:
            if k.arg not in names and a.kwarg is None:
                return 'with an unknown argument %s' % k.arg
            if k.arg in got:
                return 'with two values for %s' % k.arg
            got.add(k.arg)
        need = ps[:len(ps) - len(a.defaults)] if len(a.defaults) <= len(ps) else []
        need += [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        miss = [p for p in need if p not in got]
        if miss:
            return 'without its argument %s' % ', '.join(miss)
        return None

    def formats(self, f):
        for n in own_nodes(f):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                s = re.sub(r'%%', '', n.left.value)
                specs = re.findall(r'%(\(\w+\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z])', s)
                if any(x[0] for x in specs):
                    continue
                want = len(specs) + sum((x[1] == '*') + (x[2] == '*') for x in specs)
                if isinstance(n.right, ast.Tuple):
                    if any(isinstance(x, ast.Starred) for x in n.right.elts):
                        continue
                    have = len(n.right.elts)
                elif isinstance(n.right, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                    if want >= 1:
                        continue
                    have = 1
                else:
                    have = 1
                if want != have:
                    self.ctx.bad('format', '%s:%s' % (f.qual, n.left.value[:40]), '%s formats %d value(s) with %r' % (f.qual, have, n.left.value[:60]), self.where(f, n))
                else:
                    self.ctx.ok('format', f.qual)

    def raises(self, f):
        for n in own_nodes(f):
            if not isinstance(n, ast.Raise) or n.exc is None:
                continue
            e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
            d = self.denotes(f, e)
            if isinstance(d, Class):
                if self.is_exception(d):
                    self.ctx.ok('raise', f.qual)
                else:
                    self.ctx.bad('raise', '%s:%s' % (f.qual, d.name), '%s raises %s, which is not an exception' % (f.qual, d.name), self.where(f, n))
            elif isinstance(e, ast.Constant) or isinstance(d, (Func, Module)):
                self.ctx.bad('raise', '%s:%s' % (f.qual, ast.unparse(e)[:30]), '%s raises something that is not an exception' % f.qual, self.where(f, n))
            else:
                self.ctx.ok('raise', f.qual)

    def is_exception(self, c):
        return any(b.split('.')[-1].endswith(('Exception', 'Error', 'BaseException', 'Warning', 'Exit', 'Interrupt', 'StopIteration')) for b in self.R.ext_bases(c))


def module_level(ctx, N):
    """Names and imported attributes of the module bodies."""
    for m in ctx.repo.modules.values():
        for b in m.stars:
            if b.split('.')[0] == 'pyverilog' and b not in ctx.repo.modules:
                ctx.bad('import', '%s:%s' % (m.short, b), '%s imports the missing module %s' % (m.short, b), m.relpath)
        for n, imp in m.imports.items():
            base = imp[1]
            if base.split('.')[0] == 'pyverilog':
                if ctx.repo.lookup(m, n) is None:
                    ctx.bad('import', '%s:%s' % (m.short, n), '%s imports %s from %s, which does not define it' % (m.short, n, base), m.relpath)
                else:
                    ctx.ok('import', '%s %s' % (m.short, n))


# ------------------------------------------------------------------ programs that are rejected
H = 'module TOP(input CLK, input [3:0] a, input b, output [3:0] y, output reg [3:0] q);\n'


def rejected():
    """(name, text): programs that name something that does not exist, or break a rule the analysis relies on."""
    S = lambda body, *mods: H + body + 'endmodule\n' + ''.join(mods)
    P = []
    add = lambda n, t, **kw: P.append((n, t, kw))
    add('no such top module', S(''), top='MISSING')
    add('no such module', S('sub s (.x(a));\n'))
    add('no such module in a generate block', S('genvar i; generate for (i = 0; i < 2; i = i + 1) begin : g sub s (.x(a)); end endgenerate\n'))
    add('no such module in an instance', S('mid s (.x(a));\n', 'module mid(input [3:0] x); sub s (.x(x)); endmodule\n'))
    add('module defined twice', S('') + S(''))
    add('no such port', S('sub s (.nope(a));\n', 'module sub(input [3:0] x); endmodule\n'))
    add('too many ports', S('sub s (a, b);\n', 'module sub(input [3:0] x); endmodule\n'))
    add('no such parameter', S('sub #(.P(1)) s (.x(a));\n', 'module sub(input [3:0] x); endmodule\n'))
    add('too many parameters', S('sub #(1, 2) s (.x(a));\n', 'module sub #(parameter P = 0) (input [3:0] x); endmodule\n'))
    add('instance defined twice', S('sub s (.x(a)); sub s (.x(a));\n', 'module sub(input [3:0] x); endmodule\n'))
    add('undefined source', S('assign y = nope;\n'))
    add('undefined source in an operator', S('assign y = a + (b ? nope : 1);\n'))
    add('undefined source in an always block', S('always @(posedge CLK) q <= nope;\n'))
    add('undefined condition', S('always @(posedge CLK) if (nope) q <= a;\n'))
    add('undefined destination part', S('assign nope[1:0] = a;\n'))
    add('undefined index', S('assign y = a[nope];\n'))
    add('undefined range', S('assign y = a[nope:0];\n'))
    add('undefined range of a declaration', S('wire [nope:0] w; assign w = a;\n'))
    add('undefined clock', S('always @(posedge nope_clk) q <= a;\n'))
    add('undefined reset', S('always @(posedge CLK or negedge nope_rst) if (!nope_rst) q <= 0; else q <= a;\n'))
    add('undefined clock bit', S('always @(posedge nope_clk[1]) q <= a;\n'))
    add('undefined case subject', S('always @(posedge CLK) case (nope) 0: q <= a; endcase\n'))
    add('undefined case label', S('always @(posedge CLK) case (a) nope: q <= a; endcase\n'))
    add('undefined port value', S('sub s (.x(nope));\n', 'module sub(input [3:0] x); endmodule\n'))
    add('undefined parameter value', S('parameter P = nope;\nassign y = P;\n'))
    add('undefined function', S('assign y = f(a);\n'))
    add('undefined function argument', S('function f; input x; f = x; endfunction\nassign y = f(nope);\n'))
    add('undefined in a function', S('function f; input x; f = nope; endfunction\nassign y = f(b);\n'))
    add('undefined generate bound', S('genvar i; generate for (i = 0; i < nope; i = i + 1) begin : g wire w; end endgenerate\n'))
    add('undefined generate condition', S('generate if (nope) begin : g wire w; end endgenerate\n'))
    add('generate condition on a signal', S('generate if (a) begin : g wire w; end endgenerate\n'))
    add('too few arguments', S('function f; input x; input z; f = x & z; endfunction\nassign y = f(b);\n'))
    add('too many arguments', S('function f; input x; f = x; endfunction\nassign y = f(b, b);\n'))
    return P


def reject(ctx):
    R = ctx.repo
    own = set(c.qual for c in R.mod('utils.verror').classes.values())
    P = Pipeline(R)
    progs = rejected()

    def one(p):
        n, t, kw = p
        try:
            P.run(t, **kw)
        except Failed as x:
            return ('raise', str(x)[:200])
        except (Undecided, Budget) as x:
            return ('unknown', str(x)[:150])
        except RecursionError:
            return ('unknown', 'recursion')
        except AnalysisBroken as x:
            return ('broken', str(x))
        return ('accept', '')
    for p, r in zip(progs, pmap(one, progs)):
        n, t, kw = p
        if r is None or r[0] == 'unknown':
            ctx.unknown('reject', n, r[1] if r else 'worker ended')
        elif r[0] == 'broken':
            raise AnalysisBroken(r[1])
        elif r[0] == 'accept':
            ctx.bad('reject', n, 'a program is accepted that must be rejected: %s' % n, 'pyverilog/dataflow', 'program: ' + short(t, 300))
        elif any(q.split('.')[-1] in r[1] for q in own):
            ctx.ok('reject', n)
        else:
            ctx.bad('reject', n, 'a program (%s) is not rejected with an error of the tool but fails with %s' % (n, r[1]), 'pyverilog/dataflow', 'program: ' + short(t, 300))


def check(ctx):
    N = Names(ctx)
    if len(N.funcs) < 800:
        raise AnalysisBroken('only %d functions found' % len(N.funcs))
    for f in N.funcs:
        ctx.functions.add(f.qual)
        N.names(f)
        N.around(f)
        N.attributes(f)
        N.calls(f)
        N.formats(f)
        N.raises(f)
    N.visitors()
    module_level(ctx, N)
    reject(ctx)
    ctx.floor('call', 1000)
    ctx.floor('visitor', 1)
