"""A model of the operating system for the abstract interpretation of the front end: files, temporary files, the external
preprocessor, and ply's lexer and parser objects.  Nothing is executed: every call is recorded and answered with a term."""
from .engine import Engine, FALSE, K, NONE, RaiseSig, Rec, St, Sym, TRUE, isK, kv, mk, show
from .dfrun import hook
from .printer import Undecided


class World(object):
    def __init__(self, repo, files=(), env=None, budget=4000000):
        self.repo = repo
        self.files = dict((f, Sym('content of ' + f)) for f in files)   # path -> content term
        self.temps = []
        self.env = dict(env or {})
        self.runs = []               # one dict per invocation of the external program
        self.parses = []             # (text, lexer ref, snapshot of the lexer, extra arguments)
        self.opened = {}             # handle -> [path, mode, writes]
        self.fds = {}
        self.n = 0
        self.status = 0              # exit status of the external program
        self.missing = False         # the external program cannot be started
        self.on_parse = None
        self.E = Engine(repo, budget=budget)
        self.E.recurse = True
        self.E.strict = True
        self.E.max_depth = 200
        self.E.on_raw = self.raw
        self.st = St()
        self.base = hook(None)

    def name(self, kind):
        self.n += 1
        return '%s#%d' % (kind, self.n)

    # ---------------------------------------------------------------- helpers
    def str(self, E, t, st):
        t = E.simp(t, st)
        if t.k == 'Ext' and t.a[0].startswith('Path('):
            return t.a[0][5:-1]
        if not isK(t):
            raise Undecided('a path that is not known: %s' % show(t, 3))
        return kv(t)

    def fail(self, st, name, text=''):
        raise RaiseSig(st, mk('Exc', name, (K(text),)))

    def open(self, E, a, kw, st):
        p = E.simp(a[0], st)
        mode = a[1] if len(a) > 1 else kw.get('mode', K('r'))
        mode = self.str(E, mode, st)
        if p.k == 'Ext' and p.a[0] in self.fds:
            path = self.fds[p.a[0]]
        else:
            path = self.str(E, p, st)
        if 'r' in mode and '+' not in mode:
            if path not in self.files:
                self.fail(st, 'FileNotFoundError', path)
        elif 'a' not in mode:
            self.files[path] = K('')
        else:
            self.files.setdefault(path, K(''))
        h = self.name('file')
        self.opened[h] = [path, mode]
        return mk('Ext', h)

    def handle(self, E, h, meth, a, kw, st):
        path, mode = self.opened[h]
        if meth == 'write':
            old = self.files.get(path, K(''))
            v = E.simp(a[0], st)
            if isK(old) and kv(old) == '':
                self.files[path] = v
            elif isK(old) and isK(v):
                self.files[path] = K(kv(old) + kv(v))
            else:
                self.files[path] = mk('Fun', 'concat', (old, v))
            return NONE
        if meth == 'read':
            return self.files.get(path, K(''))
        if meth in ('close', 'flush', '__exit__'):
            return NONE
        if meth in ('__enter__',):
            return mk('Ext', h)
        if meth == 'name':
            return K(path)
        raise Undecided('file.%s' % meth)

    def remove(self, E, a, st, missing_ok=False):
        p = self.str(E, a, st)
        if p not in self.files:
            if missing_ok:
                return NONE
            self.fail(st, 'FileNotFoundError', p)
        del self.files[p]
        return NONE

    def run(self, E, a, kw, st, checked):
        argv = [E.simp(x, st) for x in E.as_items(E.simp(a[0], st), st)]
        if not all(isK(x) and isinstance(kv(x), str) for x in argv):
            raise Undecided('a command that is not known: %s' % [show(x, 2) for x in argv])
        argv = [kv(x) for x in argv]
        r = {'argv': argv, 'files': dict(self.files), 'out': None, 'text': None}
        self.runs.append(r)
        if self.missing:
            self.fail(st, 'FileNotFoundError', argv[0])
        out = None
        for i, x in enumerate(argv):
            if x == '-o' and i + 1 < len(argv):
                out = argv[i + 1]
            elif x.startswith('-o') and len(x) > 2:
                out = x[2:]
        r['out'] = out
        if out is not None and self.status == 0:
            r['text'] = Sym('output of run %d' % len(self.runs))
            self.files[out] = r['text']
        if checked and self.status:
            self.fail(st, 'subprocess.CalledProcessError', argv[0])
        return K(self.status)

    # ---------------------------------------------------------------- the hook
    def raw(self, E, t, a, kw, st):
        if t.k == 'Bi' and t.a[0] == 'open':
            return self.open(E, a, kw, st)
        if t.k == 'Attr' and t.a[0] is Sym('ply lexer'):
            return NONE
        if t.k != 'Ext':
            return NotImplemented
        n = t.a[0]
        head, _, meth = n.rpartition('.')
        if head in self.opened:
            return self.handle(E, head, meth, a, kw, st)
        if head.startswith('Path('):
            p = head[5:-1]
            if meth == 'mkdir':
                return NONE
            if meth in ('is_file', 'exists'):
                return K(p in self.files)
            if meth == 'unlink':
                return self.remove(E, K(p), st, missing_ok=kw.get('missing_ok') is TRUE)
            if meth == 'read_text':
                if p not in self.files:
                    self.fail(st, 'FileNotFoundError', p)
                return self.files[p]
            if meth == 'open':
                return self.open(E, [K(p)] + list(a), kw, st)
            if meth == 'write_text':
                self.files[p] = E.simp(a[0], st)
                return NONE
        if n in ('io.open', 'codecs.open', 'os.fdopen'):
            return self.open(E, a, kw, st)
        if n in ('os.path.isfile', 'os.path.exists'):
            return K(self.str(E, a[0], st) in self.files)
        if n == 'os.path.isdir':
            return FALSE
        if n == 'os.path.join':
            return K('/'.join(self.str(E, x, st) for x in a))
        if n in ('os.path.abspath', 'os.path.normpath', 'os.path.realpath'):
            return a[0]
        if n in ('os.makedirs', 'os.mkdir', 'os.close', 'sys.setrecursionlimit'):
            return NONE
        if n == 'pathlib.Path':
            return mk('Ext', 'Path(%s)' % self.str(E, a[0], st))
        if n in ('os.environ.get', 'os.getenv'):
            k = self.str(E, a[0], st)
            return K(self.env[k]) if k in self.env else (a[1] if len(a) > 1 else NONE)
        if n == 'tempfile.mkstemp':
            fd, p = self.name('fd'), '/tmp/%s.v' % self.name('temp').replace('#', '')
            self.fds[fd] = p
            self.files[p] = K('')
            self.temps.append(p)
            return mk('Tup', (mk('Ext', fd), K(p)))
        if n == 'tempfile.NamedTemporaryFile':
            if kw.get('delete') is not FALSE:
                raise Undecided('a temporary file that deletes itself')
            p = '/tmp/%s.v' % self.name('temp').replace('#', '')
            self.files[p] = K('')
            self.temps.append(p)
            h = self.name('file')
            self.opened[h] = [p, 'w']
            return mk('Ext', h)
        if n in ('os.remove', 'os.unlink'):
            return self.remove(E, a[0], st)
        if n in ('subprocess.call', 'subprocess.check_call', 'subprocess.check_output'):
            return self.run(E, a, kw, st, n != 'subprocess.call')
        if n == 'subprocess.run':
            c = self.run(E, a, kw, st, kw.get('check') is TRUE)
            return E.new_ref(st, Rec('inst', None, {'returncode': c}))
        if n == 'ply.lex.lex':
            return E.new_ref(st, Rec('inst', None, {'lineno': K(1), 'lexpos': K(0)}, Sym('ply lexer')))
        if n == 'ply.yacc.yacc':
            return mk('Ext', self.name('YACC'))
        if n.startswith('YACC#') and meth == 'parse':
            lx = kw.get('lexer')
            text = E.simp(a[0] if a else kw.get('input', NONE), st)
            self.parses.append({'text': text, 'lexer': lx, 'state': self.lexer_state(E, lx, st), 'args': kw})
            tree = Sym('tree %d' % len(self.parses))
            if self.on_parse is not None:
                self.on_parse(E, lx, st)
            return tree
        r = self.base(E, t, a, kw, st)
        if r is NotImplemented:
            raise Undecided('call of %s' % n)
        return r

    def lexer_state(self, E, lx, st):
        """The contents of every attribute of the lexer object (and of ply's lexer inside), by name."""
        out = {}
        if lx is None:
            return out

        def rec(v, path, seen):
            v = E.simp(v, st)
            if v.k == 'Ref':
                if v.a[0] in seen:
                    return
                seen.add(v.a[0])
                r = st.heap[v.a[0]]
                if r.kind == 'inst':
                    for k, x in sorted(r.data.items()):
                        if k in ('lexdata', 'lexpos', 'filename'):
                            continue                # rewritten by input()
                        rec(x, path + (k,), seen)
                    return
                if r.kind == 'dict':
                    out[path] = mk('Tup', tuple(sorted((mk('Tup', (k, E.snap(x, st))) for k, x in r.data.items()), key=str)))
                    return
                out[path] = mk('Tup', tuple(E.snap(x, st) for x in r.data))
                return
            if v.k in ('Bnd', 'Fn', 'Attr', 'Ext', 'Cls'):
                return
            out[path] = E.snap(v, st)
        rec(lx, (), set())
        return out
