"""Evidence, violations and exit codes of a check."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings():
    """lines 'finding: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith('finding:'):
                p = l.split()
                pid = [x[9:] for x in p if x.startswith('property=')][0]
                key = [x[4:] for x in p if x.startswith('key=')][0]
                out[(pid, key)] = l.strip()
    return out


class Check:
    def __init__(self, pid, tier, technique, explanation):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.technique = technique
        self.explanation = explanation
        self.viols = {}
        self.obl = 0
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.floors = []

    def ob(self, rule, ok=True, key=None, msg=None, where=None):
        """one obligation decided"""
        self.obl += 1
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if not ok:
            self.viol(key or rule, '%s: %s' % (rule, msg or ''), where)
        return ok

    def viol(self, key, msg, where=None):
        self.viols.setdefault(str(key), (msg, where))

    def floor(self, name, n, least):
        """an anchor that must not vanish"""
        self.counts.setdefault('found:' + name, n)
        if n < least:
            self.floors.append('%s: %d found, at least %d expected' % (name, n, least))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self):
        kf = known_findings()
        new = []
        for k, (m, w) in sorted(self.viols.items()):
            if (self.pid, k) in kf:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, m))
            else:
                new.append((k, m, w))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
            'coverage': {
                'explanation': self.explanation,
                'technique': self.technique,
                'obligations_decided': self.obl,
                'obligations_by_rule': self.counts,
                'analysed': self.samples,
                'violations': [{'key': k, 'what': m, 'where': w} for k, m, w in new],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if new:
            rp = os.path.join(d, self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for k, m, w in new:
                    f.write('property %s\nrule/instance: %s\nwhere: %s\n%s\n\n' % (self.pid, k, w, m))
            for k, m, w in new[:20]:
                print('  %s: %s' % (w or '?', m))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if self.floors:
            for f in self.floors:
                print('ANALYSIS-BROKEN: ' + f, file=sys.stderr)
            return 3
        print('%s: %d obligations decided, none violated (%.1f s)' % (self.pid, self.obl, time.time() - self.t0))
        return 0
