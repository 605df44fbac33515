"""
Shared plumbing of the checks: evidence files, known findings, exit codes.
"""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    """One violation, identified by rule and construct (never by line number)."""

    def __init__(self, rule, construct, message, where='', path=()):
        self.rule = rule
        self.construct = construct
        self.message = message
        self.where = where
        self.path = list(path)

    @property
    def key(self):
        return f'{self.rule} @ {self.construct}'

    def as_dict(self):
        return dict(rule=self.rule, construct=self.construct, message=self.message, where=self.where, path=self.path)


def load_known():
    known = {}
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        with open(fn) as fh:
            for line in fh:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                # known: property=C12 key=<rule @ construct> :: text
                assert line.startswith('known: property='), line
                rest = line[len('known: property='):]
                prop, rest = rest.split(' key=', 1)
                key, text = rest.split(' :: ', 1)
                known[(prop, key.strip())] = text.strip()
    return known


def run_check(prop, level, analyse, assumptions):
    """
    `analyse()` returns (findings, coverage).  It raises for any doubt about the analysis itself.
    """
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    try:
        findings, coverage = analyse()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f'CHECK-ERROR property={prop}', flush=True)
        sys.exit(2)
    known = load_known()
    new, listed = [], []
    seen = set()
    for f in findings:
        if f.key in seen:
            continue
        seen.add(f.key)
        (listed if (prop, f.key) in known else new).append(f)
    coverage = dict(coverage)
    coverage['known_findings_seen'] = [f.key for f in listed]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=level, coverage=coverage,
        assumptions=assumptions, violations=len(new), wall_s=round(time.time() - t0, 3))
    with open(os.path.join(evdir, f'{prop}.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)
    for f in listed:
        print(f'KNOWN-FINDING: property={prop} {known[(prop, f.key)]}')
    if new:
        replay = os.path.join(evdir, f'{prop}.violations.json')
        with open(replay, 'w') as fh:
            json.dump([f.as_dict() for f in new], fh, indent=1, default=str)
        for f in new:
            print(f'  [{f.rule}] {f.construct} ({f.where}): {f.message}')
            for step in f.path:
                print(f'      via {step}')
        print(f'VIOLATION property={prop} replay={replay}')
        sys.exit(1)
    print(f'OK property={prop} ' + ', '.join(f'{k}={v}' for k, v in coverage.items() if isinstance(v, int)))
    sys.exit(0)
