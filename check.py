#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property from /repo's current sources."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
from va import build, report, known, engine   # noqa: E402
from va.prog import Program           # noqa: E402


LIMIT = 640         # seconds of a check's 900


class Ctx:
    def __init__(self, facts, tier):
        self.facts = facts
        self.tier = tier
        self.repo = build.REPO
        self._p = {}

    def program(self, name='cathlamet.lib'):
        if name not in self._p:
            self._p[name] = Program(os.path.join(self.facts, name + '.json'))
        return self._p[name]

    @property
    def P(self):
        return self.program()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod, fn = known.RULES[prop]
    facts = build.facts()
    ctx = Ctx(facts, tier)
    R = report.Report(prop)
    m = importlib.import_module('va.rules.' + mod)

    def late(*a):
        signal.alarm(10)
        raise TimeoutError('time limit of the check')
    left = max(30, int(LIMIT - (time.time() - t0)))
    engine.Budget.end = time.time() + left
    signal.signal(signal.SIGALRM, late)
    signal.alarm(left + 20)
    try:
        getattr(m, fn)(ctx, R)
    except Exception as e:       # never an alarm, never silent: undecided
        R.undecided('check:' + type(e).__name__, traceback.format_exc()[-1500:])
    signal.alarm(0)
    kn = known.findings(prop)
    new = []
    for k, v in sorted(R.viol.items()):
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[k]))
        else:
            new.append(v)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    st = list(R.obl.values())
    cov = {
        'explanation': 'abstract interpretation of the MIR of the current tree against the rule below; every obligation is one '
                       '(rule, construct) pair, discharged on all paths, violated, or undecided',
        'rule': (getattr(m, fn).__doc__ or '').strip(),
        'obligations': len(st),
        'discharged': sum(1 for x in st if x == 'ok'),
        'undecided': sum(1 for x in st if x == 'undecided'),
        'obligation_list': sorted(R.obl)[:400],
        'undecided_list': list(R.undec.values())[:60],
        'functions_analysed': len(R.functions),
        'functions': sorted(R.functions)[:200],
        'std_contracts_used': sorted(R.models),
        'samples': R.samples,
    }
    cov.update(R.counts)
    if R.notes:
        cov['notes'] = R.notes
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed,
        'level': known.level(prop), 'coverage': cov,
        'assumptions': known.ASSUME, 'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    if new:
        rp = os.path.join(ROOT, 'evidence', prop + '.violation.json')
        with open(rp, 'w') as fh:
            json.dump({'property': prop, 'violations': new}, fh, indent=1, default=str)
        for v in new:
            print('%s: %s [%s] at %s' % (prop, v['what'], v['key'], v['where']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('%s: %d obligations, %d discharged, %d undecided, %.1fs' % (
        prop, len(st), cov['discharged'], cov['undecided'], time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
