"""python3 -m gk.run C01 [C02 ...]: decide properties on /repo's current tree"""
import hashlib
import importlib
import json
import os
import re
import sys
import time
import traceback

from . import facts

ROOT = facts.ROOT
REG = {}


class Ctx:
    """what a check reports"""

    def __init__(self, F, pid):
        self.F, self.pid = F, pid
        self.violations = {}      # key -> message
        self.obligations = 0
        self.samples = []
        self.analysed = set()
        self.undecided = []
        self.notes = []
        self.rule = ''
        self.counts = {}

    def violate(self, key, msg):
        self.violations.setdefault(key, msg)

    def oblige(self, ok, key, msg, sample=None):
        """one rule instance"""
        self.obligations += 1
        if sample and len(self.samples) < 12:
            self.samples.append(sample)
        if not ok:
            self.violate(key, msg)
        return ok

    def anchor(self, ok, what):
        """an anchor of the rule must exist; its absence is reported (the rule would be vacuous)"""
        self.obligations += 1
        if not ok:
            self.violate('anchor:' + what, 'the construct the rule is anchored at is gone: ' + what)
        return ok

    def floor(self, name, n, least):
        self.counts[name] = n
        self.oblige(n >= least, 'floor:' + name, '%s: only %d found, at least %d expected' % (name, n, least))

    def saw(self, *bodies):
        for b in bodies:
            self.analysed.add(b if isinstance(b, str) else b['path'])


def check(pid):
    def deco(f):
        REG[pid] = f
        return f
    return deco


def known_findings():
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def slug(key):
    return re.sub(r'[^A-Za-z0-9_.:\-]+', '_', key)[:150]


def run_one(pid, F, build_error=None):
    t0 = time.time()
    ctx = Ctx(F, pid)
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        if build_error:
            ctx.violate('build', 'the tree cannot be analysed: ' + build_error)
        else:
            REG[pid](ctx)
    except Exception:
        # a check that cannot complete has not decided anything: report, do not pass
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        last = [l.strip() for l in tb.strip().splitlines() if l.strip()][-1]
        ctx.violate('internal', 'the analysis could not complete: ' + last)
    kf = known_findings()
    viol = 0
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    for key, msg in sorted(ctx.violations.items()):
        s = slug(key)
        if (pid, s) in kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[(pid, s)]))
            continue
        viol += 1
        rp = os.path.join('evidence', 'replay', '%s-%s.txt' % (pid, hashlib.sha1(s.encode()).hexdigest()[:10]))
        with open(os.path.join(ROOT, rp), 'w') as f:
            f.write('property: %s\nkey: %s\nrule: %s\n%s\n' % (pid, s, ctx.rule, msg))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('    [%s] %s' % (s, msg.replace('\n', '\n    ')))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': ctx.rule or (REG[pid].__doc__ or pid),
            'obligations': ctx.obligations,
            'discharged': ctx.obligations - len(ctx.violations),
            'functions_analysed': sorted(ctx.analysed),
            'counts': ctx.counts,
            'samples': ctx.samples,
            'undecided': ctx.undecided,
            'notes': ctx.notes,
        },
        'wall_s': round(time.time() - t0, 2), 'violations': viol,
    }
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not viol:
        print('OK property=%s obligations=%d functions=%d %.1fs%s' % (
            pid, ctx.obligations, len(ctx.analysed), time.time() - t0,
            ' undecided=%d' % len(ctx.undecided) if ctx.undecided else ''))
    return viol


def load_checks():
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('gk.checks.' + f[:-3])


def main():
    sys.path.insert(0, ROOT)
    load_checks()
    ids = sys.argv[1:]
    if ids == ['all']:
        ids = sorted(REG)
    F, err = None, None
    try:
        F = facts.load()
    except Exception as e:
        err = str(e)
    bad = 0
    for pid in ids:
        bad += run_one(pid, F, err)
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    # run as a module of the package so that the checks register in the same table
    from gk import run as _r
    _r.main()
