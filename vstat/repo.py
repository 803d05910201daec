"""Loading of /repo's current sources: modules, classes (with MRO), functions, imports.

Nothing here imports or executes the code under analysis; everything is read with
the standard library's `ast` module.
"""
import ast
import hashlib
import os

from .normal import normal


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: the check cannot give an answer."""


class Func(object):
    __slots__ = ('module', 'cls', 'name', 'node', 'qual', 'outer')

    def __init__(self, module, cls, node, outer=None):
        self.module = module
        self.cls = cls
        self.node = node
        self.outer = outer
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = module.short + '.' + ((cls.name + '.') if cls else '') + self.name

    @property
    def args(self):
        return self.node.args

    def decorators(self):
        return [ast.unparse(d) for d in getattr(self.node, 'decorator_list', [])]

    def is_generator(self):
        g = getattr(self.node, '_generator', None)
        if g is None:
            g = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))
            self.node._generator = g
        return g

    def doc(self):
        if isinstance(self.node, ast.Lambda):
            return None
        return ast.get_docstring(self.node, clean=False)

    def where(self):
        return '%s:%d %s' % (self.module.relpath, self.node.lineno, self.qual)

    def __repr__(self):
        return '<Func %s>' % self.qual


# public names of the external modules that the package star-imports (ply is a pinned dependency without __all__)
EXTERNAL_STARS = {
    'ply.lex': ('lex', 'TOKEN', 'Lexer', 'LexToken', 'LexError', 'LexerReflect', 'PlyLogger', 'NullLogger', 'runmain',
                'StringTypes', 're', 'sys', 'types', 'copy', 'os', 'inspect', 'func_code', 'get_caller_module_dict'),
}
EXTERNAL_MODULES = ('re', 'sys', 'types', 'copy', 'os', 'inspect')


def walk_own(fnode):
    """Nodes of a function body, not descending into nested functions/classes."""
    todo = list(ast.iter_child_nodes(fnode))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Class(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = module.short + '.' + node.name
        self.methods = {}
        self.attrs = {}        # name -> expr
        self.base_exprs = node.bases
        self.bases = None
        self._mro = None
        self.body_order = []
        for s in node.body:
            self._add(s)

    def _add(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.methods[s.name] = Func(self.module, self, s)
            self.attrs.pop(s.name, None)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.attrs[t.id] = s.value
                    self.methods.pop(t.id, None)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            self.attrs[s.target.id] = s.value
        elif isinstance(s, (ast.If, ast.Try)):
            for k in s.body:
                self._add(k)

    def __repr__(self):
        return '<Class %s>' % self.qual


class Module(object):
    def __init__(self, name, path, relpath, src):
        self.name = name
        self.short = name[len('pyverilog.'):] if name.startswith('pyverilog.') else name
        self.path = path
        self.relpath = relpath
        self.src = src
        self.tree = normal(ast.parse(src, filename=path))
        self.funcs = {}
        self.classes = {}
        self.consts = {}       # name -> list of (stmt) assigning it
        self.imports = {}      # name -> ('mod', dotted) | ('from', dotted, name)
        self.stars = []
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(self, None, s)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.consts.setdefault(n.id, []).append(s)
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                if isinstance(s.target, ast.Name):
                    self.consts.setdefault(s.target.id, []).append(s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    pkg = self.name.split('.')
                    if not self.path.endswith('__init__.py'):
                        pkg = pkg[:-1]
                    pkg = pkg[:len(pkg) - (s.level - 1)]
                    base = '.'.join(pkg + ([base] if base else []))
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                # handlers only define fall-backs
                for h in s.handlers:
                    for k in h.body:
                        if isinstance(k, (ast.FunctionDef,)) and k.name not in self.funcs \
                                and k.name not in self.consts:
                            self.funcs[k.name] = Func(self, None, k)
            elif isinstance(s, ast.If):
                if '__name__' in ast.unparse(s.test):
                    continue
                self._scan(s.body)
                self._scan(s.orelse)
            elif isinstance(s, (ast.With, ast.For)):
                self._scan(s.body)

    def __repr__(self):
        return '<Module %s>' % self.name


class Repo(object):
    def __init__(self, root='/repo', package='pyverilog'):
        self.root = root
        self.modules = {}
        self.templates = {}
        self.sources = {}
        pk = os.path.join(root, package)
        if not os.path.isdir(pk):
            raise AnalysisBroken('package directory %s is missing' % pk)
        for d, dirs, files in sorted(os.walk(pk)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                if f.endswith('.py') and f != 'parsetab.py':
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-len('.__init__')]
                    src = open(p, encoding='utf-8').read()
                    self.sources[rel] = src
                    self.modules[name] = Module(name, p, rel, src)
                elif f.endswith('.txt') and os.path.basename(d) == 'template':
                    src = open(p, encoding='utf-8').read()
                    self.sources[rel] = src
                    self.templates[f] = src
        self._by_short = dict((m.short, m) for m in self.modules.values())
        self._subs = None

    def digest(self):
        h = hashlib.sha256()
        for k in sorted(self.sources):
            h.update(k.encode())
            h.update(self.sources[k].encode())
        return h.hexdigest()

    # ---- lookups -----------------------------------------------------------
    def mod(self, short):
        m = self._by_short.get(short) or self.modules.get(short)
        if m is None:
            raise AnalysisBroken('module %s is missing' % short)
        return m

    def cls(self, qual):
        short, _, name = qual.rpartition('.')
        m = self.mod(short)
        r = self.lookup(m, name)
        if not isinstance(r, Class):
            raise AnalysisBroken('class %s is missing' % qual)
        return r

    def func(self, qual):
        """'vparser.parser.parse' or 'vparser.ast.Node.show' (inherited methods resolve)."""
        parts = qual.split('.')
        for i in range(len(parts), 0, -1):
            short = '.'.join(parts[:i])
            if short in self._by_short:
                m = self._by_short[short]
                rest = parts[i:]
                break
        else:
            raise AnalysisBroken('no module for %s' % qual)
        if len(rest) == 1:
            r = self.lookup(m, rest[0])
            if isinstance(r, Func):
                return r
        elif len(rest) == 2:
            c = self.lookup(m, rest[0])
            if isinstance(c, Class):
                f = self.find_method(c, rest[1])
                if f is not None:
                    return f
        raise AnalysisBroken('function %s is missing' % qual)

    def lookup(self, m, name, seen=None):
        """Resolve a module-level name -> Func | Class | Module | ('const', module, name) | ('ext', dotted) | None."""
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if name in m.classes:
            return m.classes[name]
        if name in m.consts:
            return ('const', m, name)
        if name in m.funcs:
            return m.funcs[name]
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                if imp[1] in self.modules:
                    return self.modules[imp[1]]
                return ('ext', imp[1])
            base, n = imp[1], imp[2]
            if base in self.modules:
                r = self.lookup(self.modules[base], n, seen)
                if r is not None:
                    return r
                if base + '.' + n in self.modules:
                    return self.modules[base + '.' + n]
                return None
            if base.split('.')[0] == 'pyverilog':
                return None
            return ('ext', base + '.' + n)
        for b in m.stars:
            if b in self.modules:
                r = self.lookup(self.modules[b], name, seen)
                if r is not None:
                    return r
            else:
                pass
        if m.path.endswith('__init__.py'):
            if m.name + '.' + name in self.modules:
                return self.modules[m.name + '.' + name]
        for b in m.stars:
            if name in EXTERNAL_STARS.get(b, ()):
                return ('ext', name if name in EXTERNAL_MODULES else b + '.' + name)
        return None

    # ---- classes -----------------------------------------------------------
    def bases(self, c):
        if c.bases is None:
            c.bases = []
            for e in c.base_exprs:
                r = None
                if isinstance(e, ast.Name):
                    r = self.lookup(c.module, e.id)
                    if r is None:
                        r = ('ext', e.id)
                elif isinstance(e, ast.Attribute):
                    r = self.resolve_attr(c.module, e)
                c.bases.append(r)
        return c.bases

    def resolve_attr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_attr(m, e.value)
            if isinstance(b, Module):
                r = self.lookup(b, e.attr)
                if r is None and b.name + '.' + e.attr in self.modules:
                    return self.modules[b.name + '.' + e.attr]
                return r
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    def mro(self, c):
        if c._mro is None:
            seqs = []
            bs = [b for b in self.bases(c) if isinstance(b, Class)]
            for b in bs:
                seqs.append(list(self.mro(b)))
            seqs.append(list(bs))
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                out.append(h)
                for s in seqs:
                    if s and s[0] is h:
                        s.pop(0)
            c._mro = out
        return c._mro

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
            if name in k.attrs:
                return None
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs:
                return k, k.attrs[name]
            if name in k.methods:
                return None
        return None

    def is_sub(self, c, d):
        return d in self.mro(c)

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

    def subclasses(self, c, strict=False):
        return [d for d in self.all_classes() if self.is_sub(d, c) and not (strict and d is c)]

    def ext_bases(self, c):
        out = []
        for k in self.mro(c):
            for b in self.bases(k):
                if isinstance(b, tuple) and b[0] == 'ext':
                    out.append(b[1])
        return out
