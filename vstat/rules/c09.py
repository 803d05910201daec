"""Every front-end entry point (preprocess, VerilogPreprocessor, parse, VerilogCodeParser, VerilogDataflowAnalyzer) is
interpreted from source against a model of the file system, the external preprocessor and ply.  On every mix of file and
text sources, include paths and macro definitions: the program is started once, with every include and every definition
and exactly the sources in their order; the text that is parsed is the one it wrote; the stages get the caller's
options; and nothing is left behind, even when the program cannot be started.  The example drivers' command-line options
are matched, call by call, with the parameters of the entry points they call."""
import ast
import os

from ..engine import Budget, FALSE, K, NONE, RaiseSig, Sym, TRUE, isK, kv, mk, show
from ..printer import Undecided
from ..repo import AnalysisBroken, Class, Func, Module
from ..world import World

ASSUMPTIONS = ['The external program follows iverilog: -I, -D and -o take the next argument (or are fused with it), '
               'everything that is not an option is a source, read in order.',
               'ply parses exactly the text it is given.']
PRE, PAR, DFA = 'vparser.preprocessor', 'vparser.parser', 'dataflow.dataflow_analyzer'

C1, C2 = 'module m; endmodule\n', '`define X 1\nmodule n; endmodule\n'
SOURCES = [('a.v', 'b.v'), ('b.v', 'a.v'), (C1,), (C1, C2), ('a.v', C1), (C1, 'a.v'), ('a.v', C1, 'b.v', C2),
           (C2, 'b.v', C1, 'a.v'), ('a.v',), ('a.v', 'a.v')]
SINGLE = ['a.v', C1]
OPTS = [(None, None), ((), ()), (('i1',), None), (None, ('D1',)), (('i1', 'i2'), ('D1', 'D2=3')), (('z', 'a', 'z'), ('B', 'A'))]


class Out(object):
    pass


def seq(E, st, v, kind):
    if v is None:
        return NONE
    if isinstance(v, str):
        return K(v)
    return E.new_list(st, [K(x) for x in v]) if kind == 'list' else mk('Tup', tuple(K(x) for x in v))


def entry_preprocess(W, src, inc, dfn):
    E, st = W.E, W.st
    f = E.fn(W.repo.func(PRE + '.preprocess'))
    return E.call(f, [src], {'output': K('out.txt'), 'include': inc, 'define': dfn}, st)


def entry_object(W, src, inc, dfn):
    E, st = W.E, W.st
    c = W.repo.cls(PRE + '.VerilogPreprocessor')
    o = E.call(E.cls_term(c), [src, K('out.txt')], {'include': inc, 'define': dfn}, st)
    E.call(E.getattr(o, 'preprocess', st), [], {}, st)
    t = W.files.pop('out.txt', NONE)     # the object leaves its output for the caller
    return t


def entry_parse(W, src, inc, dfn):
    E, st = W.E, W.st
    f = E.fn(W.repo.func(PAR + '.parse'))
    return E.call(f, [src], {'preprocess_include': inc, 'preprocess_define': dfn}, st)


def entry_codeparser(W, src, inc, dfn):
    E, st = W.E, W.st
    c = W.repo.cls(PAR + '.VerilogCodeParser')
    o = E.call(E.cls_term(c), [src], {'preprocess_include': inc, 'preprocess_define': dfn,
                                      'preprocess_output': K('pp.txt')}, st)
    return E.call(E.getattr(o, 'parse', st), [], {}, st)


def entry_analyzer(W, src, inc, dfn):
    E, st = W.E, W.st
    c = W.repo.cls(DFA + '.VerilogDataflowAnalyzer')
    stages(W)
    o = E.call(E.cls_term(c), [src], {'topmodule': K('T'), 'preprocess_include': inc, 'preprocess_define': dfn}, st)
    E.call(E.getattr(o, 'generate', st), [], {}, st)
    return NONE


ENTRIES = [('preprocess', entry_preprocess), ('VerilogPreprocessor', entry_object), ('parse', entry_parse),
           ('VerilogCodeParser', entry_codeparser), ('VerilogDataflowAnalyzer', entry_analyzer)]


def params(func):
    a = func.args
    return [x.arg for x in a.posonlyargs + a.args] + [x.arg for x in a.kwonlyargs]


def stages(W):
    """The analyzer's stages are recorded, not run: each method returns a symbol of its own."""
    W.stage = []

    def intercept(E, func, recv, args, kwargs, st):
        if not isinstance(func, Func) or func.module.short not in ('dataflow.modulevisitor', 'dataflow.signalvisitor', 'dataflow.bindvisitor',
                                                                  'dataflow.visit'):
            return NotImplemented
        ps = params(func)[1:]
        bound = dict(zip(ps, [E.simp(x, st) for x in args]))
        bound.update(dict((k, E.simp(v, st)) for k, v in kwargs.items()))
        W.stage.append((func.cls.name if func.cls else '', func.name, bound))
        if func.name == '__init__':
            return NONE
        return Sym('%s.%s' % (func.cls.name if func.cls else '', func.name))
    W.E.intercept = intercept


def command(argv):
    """-> includes, defines, other options, sources"""
    inc, dfn, opt, src = [], [], [], []
    i = 1
    while i < len(argv):
        x = argv[i]
        if x in ('-I', '-D', '-o'):
            v = argv[i + 1] if i + 1 < len(argv) else None
            i += 1
            if x == '-I':
                inc.append(v)
            elif x == '-D':
                dfn.append(v)
        elif x[:2] == '-I':
            inc.append(x[2:])
        elif x[:2] == '-D':
            dfn.append(x[2:])
        elif x[:2] == '-o':
            pass
        elif x[:1] == '-':
            opt.append(x)
        else:
            src.append(x)
        i += 1
    return inc, dfn, opt, src


def judge_run(W, sources, inc, dfn, prog='iverilog'):
    """-> list of (aspect, message)"""
    bad = []
    if len(W.runs) != 1:
        return [('once', 'the external program is started %d times' % len(W.runs))]
    r = W.runs[0]
    i, d, o, s = command(r['argv'])
    if r['argv'][0] != prog:
        bad.append(('program', 'the program started is %s, not %s' % (r['argv'][0], prog)))
    if i != list(inc or ()):
        bad.append(('include', 'include paths given %s, passed on %s' % (list(inc or ()), i)))
    if d != list(dfn or ()):
        bad.append(('define', 'macros given %s, passed on %s' % (list(dfn or ()), d)))
    if '-E' not in o:
        bad.append(('mode', 'the program is not told to preprocess only: %s' % r['argv']))
    if r['out'] is None:
        bad.append(('output', 'the program is not told where to write'))
    got = []
    for x in s:
        if x in W.temps:
            c = r['files'].get(x)
            if c is None:
                got.append('missing file')
            elif isK(c):
                got.append('text:' + kv(c))
            else:
                raise Undecided('contents %s' % show(c, 3))
        else:
            got.append('file:' + x)
    exp = [('file:' + x) if x.endswith('.v') else 'text:' + x for x in sources]
    if got != exp:
        what = 'order' if sorted(got) == sorted(exp) else 'sources'
        bad.append((what, 'sources given %r, read by the program %r' % (exp, got)))
    return bad


def leftovers(W):
    left = sorted(x for x in W.files if x not in ('a.v', 'b.v'))
    return ['%s' % x for x in left]


def world(ctx, env=None):
    return World(ctx.repo, files=('a.v', 'b.v'), env=env)


def run(ctx, W, entry, sources, inc, dfn, kind='list'):
    E, st = W.E, W.st
    return entry(W, seq(E, st, sources, kind), seq(E, st, inc, kind), seq(E, st, dfn, kind))


def where(ctx, name):
    for m in (PRE, PAR, DFA):
        mod = ctx.repo.mod(m)
        if name in mod.funcs:
            return mod.funcs[name].where()
        if name in mod.classes:
            return '%s:%d %s' % (mod.relpath, mod.classes[name].node.lineno, name)
    raise AnalysisBroken('entry point %s vanished' % name)


def result_ok(W, name, v):
    E, st = W.E, W.st
    r = W.runs[0]
    if name in ('preprocess', 'VerilogPreprocessor'):
        return None if E.simp(v, st) is r['text'] else 'the text returned is %s, not what the program wrote' % show(E.snap(v, st), 3)
    if len(W.parses) != 1:
        return 'the text is parsed %d times' % len(W.parses)
    if W.parses[0]['text'] is not r['text']:
        return 'the text parsed is %s, not what the program wrote' % show(W.parses[0]['text'], 3)
    tree = Sym('tree 1')
    if name == 'parse':
        xs = [E.snap(x, st) for x in E.as_items(E.simp(v, st), st)]
        if xs[:1] != [tree] or len(xs) != 2:
            return 'parse returns %s' % show(E.snap(v, st), 3)
        if xs[1].k != 'Tup' and not (xs[1].k == 'List'):
            return 'the directives returned are %s' % show(xs[1], 3)
    if name == 'VerilogCodeParser' and E.simp(v, st) is not tree:
        return 'parse returns %s' % show(E.snap(v, st), 3)
    return None


def obligations(ctx, name, entry):
    w = where(ctx, name)
    for sources in SOURCES + [x for x in SINGLE]:
        single = isinstance(sources, str)
        for n, (inc, dfn) in enumerate(OPTS):
            for kind in ('list', 'tuple'):
                if kind == 'tuple' and n not in (0, 4):
                    continue
                tag = '%s/%s/%d/%s' % (name, 'single ' + sources.strip()[:8] if single else '+'.join(
                    x if x.endswith('.v') else 'text' for x in sources), n, kind)
                W = world(ctx)
                try:
                    v = run(ctx, W, entry, sources, inc, dfn, kind)
                    msgs = judge_run(W, (sources,) if single else sources, inc, dfn)
                    if not msgs:
                        m = result_ok(W, name, v)
                        if m:
                            msgs.append(('result', m))
                    left = leftovers(W)
                    if left:
                        msgs.append(('leftover', 'files left behind: %s' % ', '.join(left)))
                except RaiseSig as x:
                    msgs = [('raises', 'raises %s' % show(x.exc, 3))]
                except (Undecided, Budget) as x:
                    ctx.unknown('sources', tag, str(x)[:120])
                    continue
                ctx.functions.update(W.E.called)
                if not msgs:
                    ctx.ok('sources', tag)
                for a, m in msgs:
                    ctx.bad('sources', '%s-%s%s' % (name, a, '-single' if single else ''), '%s: %s' % (name, m), w, tag)


def environment(ctx, name, entry):
    """The program named by PYVERILOG_IVERILOG is the one that is started."""
    W = world(ctx, env={'PYVERILOG_IVERILOG': '/opt/iv'})
    try:
        run(ctx, W, entry, ('a.v',), ('i',), ('D',))
        msgs = judge_run(W, ('a.v',), ('i',), ('D',), '/opt/iv')
    except RaiseSig as x:
        msgs = [('raises', show(x.exc, 3))]
    except (Undecided, Budget) as x:
        ctx.unknown('environment', name, str(x)[:120])
        return
    for a, m in msgs:
        ctx.bad('environment', '%s-%s' % (name, a), m, where(ctx, name))
    if not msgs:
        ctx.ok('environment', name)


def failures(ctx, name, entry):
    """The program cannot be started, or reports an error while an output of an earlier run lies there."""
    w = where(ctx, name)
    W = world(ctx)
    W.missing = True
    try:
        run(ctx, W, entry, ('a.v', C1, 'b.v'), ('i',), None)
        ctx.bad('failure', name + '-silent', '%s returns although the preprocessor could not be started' % name, w)
    except RaiseSig:
        left = [x for x in leftovers(W) if x in W.temps]
        if left:
            ctx.bad('failure', name + '-leak', '%s leaves the temporary files of text sources behind when the '
                    'preprocessor cannot be started' % name, w, ', '.join(left))
        else:
            ctx.ok('failure', name + ' not started')
    except (Undecided, Budget) as x:
        ctx.unknown('failure', name, str(x)[:120])
    W = world(ctx)
    W.status = 1
    for f in ('out.txt', 'pp.txt', 'preprocess.output'):
        W.files[f] = Sym('stale')
    try:
        v = run(ctx, W, entry, ('a.v', C1), ('i',), None)
        used = [p for p in W.parses if p['text'] is Sym('stale')] or name.lower().endswith('process') and v is Sym('stale')
        if used or name == 'VerilogPreprocessor':
            ctx.bad('failure', name + '-status', '%s goes on with an output that is not from this run when the '
                    'preprocessor reports an error' % name, w)
        else:
            ctx.ok('failure', name + ' error status')
    except RaiseSig:
        ctx.ok('failure', name + ' error status')
    except (Undecided, Budget) as x:
        ctx.unknown('failure', name + ' status', str(x)[:120])


def options(ctx):
    """The analyzer's options reach the stages, and every later stage gets what the earlier ones produced."""
    c = ctx.repo.cls(DFA + '.VerilogDataflowAnalyzer')
    w = where(ctx, 'VerilogDataflowAnalyzer')
    for nore in (FALSE, TRUE):
        for nob in (FALSE, TRUE):
            for pos in (False, True):
                W = world(ctx)
                stages(W)
                E, st = W.E, W.st
                tag = 'noreorder=%s nobind=%s%s' % (kv(nore), kv(nob), ' positional' if pos else '')
                src = E.new_list(st, [K('a.v')])
                try:
                    if pos:
                        o = E.call(E.cls_term(c), [src, K('T'), nore, nob], {}, st)
                    else:
                        o = E.call(E.cls_term(c), [src], {'topmodule': K('T'), 'noreorder': nore, 'nobind': nob}, st)
                    E.call(E.getattr(o, 'generate', st), [], {}, st)
                    ft = E.call(E.getattr(o, 'getFrameTable', st), [], {}, st)
                except RaiseSig as x:
                    ctx.bad('options', 'raises', 'the analyzer raises %s' % show(x.exc, 3), w, tag)
                    continue
                except (Undecided, Budget) as x:
                    ctx.unknown('options', tag, str(x)[:120])
                    continue
                inits = [(a, b) for a, n, b in W.stage if n == '__init__']
                visits = [(a, b) for a, n, b in W.stage if n == 'visit']
                msgs = []
                names = [a for a, _ in inits]
                for need in ('ModuleVisitor', 'SignalVisitor') + (() if nob is TRUE else ('BindVisitor',)):
                    if names.count(need) != 1:
                        msgs.append('%s is created %d times' % (need, names.count(need)))
                if nob is TRUE and 'BindVisitor' in names:
                    msgs.append('bindings are collected although nobind is given')
                for a, b in inits:
                    if 'topmodule' in b and b['topmodule'] is not K('T'):
                        msgs.append('%s gets topmodule %s' % (a, show(b['topmodule'], 2)))
                    if a == 'BindVisitor' and E.simp(b.get('noreorder', FALSE), st) is not nore:
                        msgs.append('BindVisitor gets noreorder %s' % show(b.get('noreorder', FALSE), 2))
                    if a == 'BindVisitor' and 'frametable' in b and b['frametable'] is not Sym('SignalVisitor.getFrameTable'):
                        msgs.append('BindVisitor gets frame table %s' % show(b['frametable'], 2))
                    if 'moduleinfotable' in b and b['moduleinfotable'] is not Sym('ModuleVisitor.get_moduleinfotable'):
                        msgs.append('%s gets module table %s' % (a, show(b['moduleinfotable'], 2)))
                if not any(Sym('tree 1') in b.values() for _, b in visits):
                    msgs.append('the module visitor does not get the parsed tree')
                exp = Sym('SignalVisitor.getFrameTable') if nob is TRUE else Sym('BindVisitor.getFrameTable')
                if E.simp(ft, st) is not exp:
                    msgs.append('the frame table kept is %s' % show(ft, 2))
                for m in msgs:
                    ctx.bad('options', m.split(' ')[0] + '-' + m.split(' ')[2], m, w, tag)
                if not msgs:
                    ctx.ok('options', tag)


# ------------------------------------------------------------------ the example drivers
SAME = {'include': ('preprocess_include', 'include'), 'define': ('preprocess_define', 'define'),
        'topmodule': ('topmodule',), 'noreorder': ('noreorder',), 'nobind': ('nobind',)}


def resolve(R, imports, e):
    if isinstance(e, ast.Name):
        return imports.get(e.id)
    if isinstance(e, ast.Attribute):
        b = resolve(R, imports, e.value)
        if isinstance(b, Module):
            return R.lookup(b, e.attr)
    return None


def driver(ctx, rel, tree):
    R = ctx.repo
    imports = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name in R.modules and a.asname:
                    imports[a.asname] = R.modules[a.name]
        elif isinstance(n, ast.ImportFrom) and n.module in R.modules:
            for a in n.names:
                r = R.lookup(R.modules[n.module], a.name)
                if r is None:
                    r = R.modules.get(n.module + '.' + a.name)
                imports[a.asname or a.name] = r
    dests = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_option':
            for k in n.keywords:
                if k.arg == 'dest' and isinstance(k.value, ast.Constant):
                    dests[k.value.value] = n.lineno
    used = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'options':
            used.setdefault(n.attr, n.lineno)
    for d in sorted(used):
        if d not in dests:
            ctx.bad('driver', '%s-undefined-%s' % (rel, d), '%s reads an option %s that is not defined' % (rel, d),
                    '%s:%d' % (rel, used[d]))
        else:
            ctx.ok('driver', '%s %s' % (rel, d))
    objs = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            c = resolve(R, imports, n.value.func) if isinstance(n.value, ast.Call) else None
            objs.setdefault(n.targets[0].id, set()).add(c if isinstance(c, Class) else None)
    for n in ast.walk(tree):
        if not isinstance(n, ast.Call):
            continue
        r = resolve(R, imports, n.func)
        if r is None and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            cs = objs.get(n.func.value.id, ())
            c = list(cs)[0] if len(cs) == 1 else None
            if c is not None and not R.ext_bases_nonobject(c):
                r = R.find_method(c, n.func.attr)
                if r is None and R.find_attr(c, n.func.attr) is None:
                    ctx.bad('driver', '%s-%s' % (rel, ast.unparse(n.func)), '%s calls a method %s that %s does not have' % (rel, n.func.attr, c.name),
                            '%s:%d' % (rel, n.lineno))
        f = r if isinstance(r, Func) else R.find_method(r, '__init__') if isinstance(r, Class) else None
        if f is None:
            continue
        ps = params(f)
        if isinstance(r, Class) or isinstance(r, Func) and r.cls is not None:
            ps = ps[1:]
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            continue
        name = ast.unparse(n.func)
        if len(n.args) > len(ps) and f.args.vararg is None:
            ctx.bad('driver', '%s-%s-arity' % (rel, name), '%s calls %s with too many arguments' % (rel, name),
                    '%s:%d' % (rel, n.lineno))
            continue
        bound = dict(zip(ps, n.args))
        for k in n.keywords:
            if k.arg not in ps and f.args.kwarg is None:
                ctx.bad('driver', '%s-%s-%s' % (rel, name, k.arg), '%s calls %s with an unknown parameter %s' % (
                    rel, name, k.arg), '%s:%d' % (rel, n.lineno))
            bound[k.arg] = k.value
        for d, names in SAME.items():
            if d not in dests:
                continue
            for p in ps:
                if p not in names:
                    continue
                v = bound.get(p)
                ok = isinstance(v, ast.Attribute) and v.attr == d
                if v is None:
                    ctx.bad('driver', '%s-%s-%s' % (rel, name, p), '%s defines the option %s but does not pass it to %s' % (
                        rel, d, name), '%s:%d' % (rel, n.lineno))
                elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'options' and not ok:
                    ctx.bad('driver', '%s-%s-%s' % (rel, name, p), '%s passes options.%s as %s' % (rel, v.attr, p),
                            '%s:%d' % (rel, n.lineno))
                else:
                    ctx.ok('driver', '%s %s(%s)' % (rel, name, p))


def drivers(ctx):
    d = os.path.join(ctx.repo.root, 'examples')
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else ():
        if f.endswith('.py'):
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
            except SyntaxError as x:
                ctx.bad('driver', '%s-syntax' % f, 'examples/%s does not parse: %s' % (f, x), 'examples/' + f)
                continue
            driver(ctx, 'examples/' + f, tree)


def check(ctx):
    for name, entry in ENTRIES:
        obligations(ctx, name, entry)
        environment(ctx, name, entry)
        failures(ctx, name, entry)
    options(ctx)
    drivers(ctx)
    ctx.floor('sources', 400)
    ctx.floor('options', 8)
