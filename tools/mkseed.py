#!/usr/bin/env python3
"""mkseed.py SPEC.py: write seeded/<id>/ from a list SEEDS of dicts and confirm each one in a scratch copy.

spec keys: id, prop, edits=[(file, old, new)], needs, breaks, demo (python source; runs with cwd /repo)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python3'
PRE = '''import os, sys, tempfile
sys.path.insert(0, os.getcwd())
W = tempfile.mkdtemp()
os.chdir(W)
def done(ok, what=''):
    import shutil
    os.chdir('/')
    shutil.rmtree(W)
    if not ok:
        print('BROKEN', what)
    sys.exit(0 if ok else 1)
def parse(text):
    from pyverilog.vparser.parser import VerilogParser
    return VerilogParser(outputdir=W, debug=False).parse(text)
def gen(tree):
    from pyverilog.ast_code_generator.codegen import ASTCodeGenerator
    return ASTCodeGenerator().visit(tree)
def dump(tree):
    import io
    b = io.StringIO()
    tree.show(buf=b, showlineno=False)
    return b.getvalue()
def analyze(text, top='TOP', **kw):
    from pyverilog.dataflow.dataflow_analyzer import VerilogDataflowAnalyzer
    open('in.v', 'w').write(text)
    a = VerilogDataflowAnalyzer(['in.v'], top, **kw)
    a.generate()
    return a
def binds(a):
    return {str(k): [b.tostr() for b in v] for k, v in a.getBinddict().items()}
'''
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python3; [ -x $PY ] || PY=python3
timeout 120 $PY -W ignore "$D/demo.py"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def test(repo, out):
    s = open('/opt/vp/test.sh').read().replace('/repo', repo)
    p = '/tmp/seedtest_%d.sh' % os.getpid()
    open(p, 'w').write(s)
    r = sh('bash %s %s' % (p, out))
    os.unlink(p)
    if not os.path.exists(out):
        return False, r.stdout
    return '27 passed' in r.stdout, r.stdout[-600:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    for s in ns['SEEDS']:
        if only and s['id'] not in only:
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        w = tempfile.mkdtemp(prefix='seed_')
        repo = w + '/repo'
        sh('cp -a /repo %s' % repo)
        sh('git checkout -q -- . && git clean -fdq', cwd=repo)
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'edit matches', t.count(old), 'times in', f, repr(old[:60]))
                ok = False
                break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            shutil.rmtree(w)
            continue
        diff = sh('git diff', cwd=repo).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(PRE + s['demo'])
        open(d + '/demo.sh', 'w').write(SH)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        clean = sh('bash %s/demo.sh' % d, cwd='/repo')
        bad = sh('bash %s/demo.sh' % d, cwd=repo)
        tests, log = test(repo, w + '/o.json')
        # lines of our own fix commits must not be the ones changed
        chk = sh('./check %s --root %s' % (s['prop'], repo), cwd=HERE)
        caught = chk.returncode == 1 and 'VIOLATION property=%s' % s['prop'] in chk.stdout
        print(s['id'], 'demo clean=%d seeded=%d tests=%s check=%d caught=%s' %
              (clean.returncode, bad.returncode, tests, chk.returncode, caught), flush=True)
        if clean.returncode or not bad.returncode or not tests:
            print('   REJECTED', clean.stdout[-500:], bad.stdout[-300:], log if not tests else '')
            shutil.rmtree(d)
        elif not caught:
            print(chk.stdout[-400:])
        else:
            print('   ', [l for l in chk.stdout.splitlines() if 'VIOLATION' in l or l.startswith('  ')][:2])
        shutil.rmtree(w)


main()
