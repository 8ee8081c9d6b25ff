"""Runs one property check: loads facts, applies the rule, compares with the known findings, writes the evidence."""
import json, os, sys, time, traceback
import fx

VERIF = fx.VERIF
EVID = os.environ.get('VERIF_EVID', VERIF + '/evidence')


class Result:
    def __init__(self):
        self.findings = []      # (key, message)
        self.analysed = {}      # measured counts
        self.rules = []         # rules applied
        self.assumptions = []
        self.samples = []

    def add(self, key, msg):
        if all(k != key for k, _ in self.findings):
            self.findings.append((key, msg))

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def need(self, name, at_least):
        """an instance count below what was confirmed by hand means the rule no longer sees its subject"""
        if self.analysed.get(name, 0) < at_least and not self.findings:
            raise fx.Broken('%s: %d instance(s), expected at least %d' % (name, self.analysed.get(name, 0), at_least))


def known(pid):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p):
        return {}
    return {e['key']: e for e in json.load(open(p))['findings'] if e['property'] == pid and e.get('status', 'open') == 'open'}


def main(pid, run, level='other'):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    try:
        res = run(tier)
    except fx.Broken as e:
        print('%s: analysis broken: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('%s: analysis broken' % pid)
        return 3
    kn = known(pid)
    new, old = [], []
    for k, m in res.findings:
        (old if k in kn else new).append((k, m))
    for k, m in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, m))
    cov = {'explanation': '; '.join(res.rules)}
    cov.update({k: v for k, v in res.analysed.items()})
    cov['findings_known'] = len(old)
    if res.samples:
        cov['samples'] = res.samples[:20]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': len(new), 'assumptions': res.assumptions}
    with open('%s/%s.json' % (EVID, pid), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in res.analysed.items())))
    if new:
        rp = '%s/%s.violation.txt' % (EVID, pid)
        with open(rp, 'w') as fh:
            for k, m in new:
                fh.write('%s\n    key: %s\n' % (m, k))
        for k, m in new[:20]:
            print('  ' + m)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
