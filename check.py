#!/usr/bin/env python3
"""Run the static check of one property:  check.py <ID> [quick|thorough]"""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, 'engine'))


def known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)).get('findings', []):
            if e['property'] == pid:
                out.append(e)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    from rules import base
    import dump
    mod = importlib.import_module('rules.' + pid.lower())
    chk = base.Check(pid)
    chk.tier = tier
    try:
        mod.check(chk, tier)
    except dump.BuildError as e:
        print('ERROR: /repo does not build for analysis: %s' % e)
        return 2
    except (base.Missing, base.interp.Unsupported, base.facts.TooMany, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError,
            AssertionError) as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        traceback.print_exc()
        chk.obligations += 1
        chk.undecide('rule ' + pid, 'the rest of the rule could not be set up: %s: %s' % (type(e).__name__, e))
    kn = known(pid)
    viol, kf = [], []
    for f in chk.findings:
        m = [k for k in kn if k['key'] == f['key']]
        (kf if m else viol).append(f)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': getattr(mod, 'EXPLANATION', '').strip(),
            'rule': '; '.join(chk.rules),
            'obligations': chk.obligations, 'discharged': chk.discharged,
            'functions_analysed': len(chk.fns), 'functions': sorted(chk.fns)[:400],
            'basic_blocks_interpreted': chk.blocks,
            'undecided': chk.undecided, 'samples': chk.samples, 'notes': chk.notes[:50],
            'findings': chk.findings, 'known_findings': [k['key'] for k in kf],
            'exhaustive': False,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for f in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['key']))
    print('%s: %d obligations, %d discharged, %d undecided, %d functions, %.1fs' % (
        pid, chk.obligations, chk.discharged, len(chk.undecided), len(chk.fns), time.time() - t0))
    for u in chk.undecided:
        print('  undecided: %s: %s' % (u['key'], u['why'][:300]))
    if viol:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.json')
        with open(rp, 'w') as fh:
            json.dump(viol, fh, indent=1)
        for f in viol:
            print('  %s at %s: %s\n    %s' % (f['key'], f['where'], f['message'], f['detail'][:1200]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if chk.obligations == 0:
        print('ERROR: nothing was analysed')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
