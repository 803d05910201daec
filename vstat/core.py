"""Driver shared by every check: findings, known findings, evidence, exit status."""
import json
import os
import sys
import time
import traceback

from .repo import AnalysisBroken, Repo

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Finding(object):
    def __init__(self, rule, construct, message, where='', detail=''):
        self.rule = rule
        self.construct = construct      # stable key: never a line number
        self.message = message
        self.where = where
        self.detail = detail

    @property
    def key(self):
        return '%s:%s' % (self.rule, self.construct)


class Ctx(object):
    """What a rule gets: the repository, a tier, and counters for the evidence."""

    def __init__(self, pid, tier, root='/repo'):
        self.pid = pid
        self.tier = tier
        self.repo = Repo(root)
        self.findings = {}
        self.rules = {}          # rule -> {'obligations','discharged','undecided'}
        self.samples = []
        self.undecided = []
        self.functions = set()
        self.notes = []

    def rule(self, name):
        return self.rules.setdefault(name, {'obligations': 0, 'discharged': 0, 'undecided': 0, 'violated': 0})

    def ok(self, rule, what=None):
        r = self.rule(rule)
        r['obligations'] += 1
        r['discharged'] += 1
        if what and len(self.samples) < 12 and r['discharged'] % 7 == 1:
            self.samples.append('%s: %s' % (rule, what))

    def unknown(self, rule, construct, why):
        r = self.rule(rule)
        r['obligations'] += 1
        r['undecided'] += 1
        if len(self.undecided) < 200:
            self.undecided.append('%s:%s (%s)' % (rule, construct, why))

    def bad(self, rule, construct, message, where='', detail=''):
        r = self.rule(rule)
        r['obligations'] += 1
        r['violated'] += 1
        f = Finding(rule, construct, message, where, detail)
        self.findings.setdefault(f.key, f)

    def floor(self, rule, n):
        """The rule must have had at least n instances: a rule matching nothing must not pass."""
        have = self.rule(rule)['obligations']
        if have < n:
            raise AnalysisBroken('rule %s examined only %d instances (expected at least %d)' % (rule, have, n))


def load_known():
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.rstrip('\n')
            if not line or line.startswith('#'):
                continue
            if line.startswith('fixed:'):
                fixed.append(line)
                continue
            if line.startswith('known:'):
                # known: property=C01 key=<rule:construct> :: what fails
                head, _, what = line[len('known:'):].partition(' :: ')
                pid = head.split('property=')[1].split()[0]
                key = head.split('key=')[1].strip()
                known.setdefault(pid, {})[key] = what
    return known, fixed


def run_check(pid, fn, tier, explanation, assumptions, root='/repo'):
    t0 = time.time()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    evpath = os.path.join(evdir, pid + '.json')
    try:
        ctx = Ctx(pid, tier, root)
        fn(ctx)
    except (AnalysisBroken, SyntaxError) as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    known, _ = load_known()
    known = known.get(pid, {})
    viol = []
    seen_known = []
    for k, f in sorted(ctx.findings.items()):
        if k in known:
            seen_known.append(k)
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, known[k], k))
        else:
            viol.append(f)
    obligations = sum(r['obligations'] for r in ctx.rules.values())
    discharged = sum(r['discharged'] for r in ctx.rules.values())
    undecided = sum(r['undecided'] for r in ctx.rules.values())
    cov = {
        'explanation': explanation,
        'rules': ctx.rules,
        'obligations': obligations,
        'discharged': discharged,
        'undecided': undecided,
        'known_findings': len(seen_known),
        'undecided_instances': ctx.undecided[:60],
        'functions_analysed': len(ctx.functions),
        'functions': sorted(ctx.functions),
        'modules_parsed': len(ctx.repo.modules),
        'templates_parsed': len(ctx.repo.templates),
        'source_digest': ctx.repo.digest()[:16],
        'samples': ctx.samples[:12],
    }
    if ctx.notes:
        cov['notes'] = ctx.notes[:20]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    with open(evpath, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %d obligations, %d discharged, %d undecided, %d known, %d violations (%.1fs)' % (
        pid, obligations, discharged, undecided, len(seen_known), len(viol), time.time() - t0))
    rdir = os.path.join(evdir, 'reports')
    rp = os.path.join(rdir, pid + '.txt')
    if not viol and os.path.exists(rp):
        os.unlink(rp)
    if viol:
        os.makedirs(rdir, exist_ok=True)
        with open(rp, 'w') as f:
            f.write('Property %s: %d violation(s). Re-run: ./check %s\n\n' % (pid, len(viol), pid))
            for v in viol:
                f.write('[%s] %s\n  at %s\n  %s\n' % (v.key, v.message, v.where, v.detail))
                f.write('\n')
        for v in viol[:25]:
            print('  %s  %s  %s' % (v.where, v.key, v.message))
            if v.detail:
                print('      %s' % v.detail[:600])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
