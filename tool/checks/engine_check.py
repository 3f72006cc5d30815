"""Frame of the checks built on engine runs: analyse configurations in parallel, collect obligations."""
from report import Check
from jobs import pmap
from ir import ToolError


class Obs:
    """obligations collected in a worker process"""

    def __init__(self):
        self.obs = []
        self.skipped = []

    def ob(self, rule, ok=True, key=None, msg=None, where=None):
        self.obs.append((rule, bool(ok), key, msg, where))
        return ok

    def skip(self, what):
        """an obligation that the analysis could not decide here"""
        self.skipped.append(str(what)[:300])


def run_configs(pid, tier, technique, explanation, analyse, configs, name, limit, floors=(), need=0.5):
    ck = Check(pid, tier, technique, explanation)
    res = pmap(analyse, configs, limit=limit)
    done = 0
    undecided = []
    for c, (st, r) in zip(configs, res):
        if st != 'ok':
            undecided.append('%s: %s %s' % (name(c), st, ' '.join(str(r).split())[:200]))
            continue
        done += 1
        cnt = {}
        for rule, ok, key, msg, where in r.obs:
            ck.ob(rule, ok, '%s' % (key or rule), '%s [%s]' % (msg or '', name(c)), where)
            cnt[rule] = cnt.get(rule, 0) + 1
        for s in r.skipped:
            undecided.append('%s: %s' % (name(c), s))
        ck.sample('%s: %s' % (name(c), ', '.join('%s x%d' % kv for kv in sorted(cnt.items()))))
    if undecided:
        ck.assumptions.append('not decided in this run: ' + '; '.join(undecided[:20]))
        import sys
        for u in undecided[:20]:
            print('  not decided: ' + u[:300], file=sys.stderr)
    ck.counts['configurations_analysed'] = done
    if done == 0 and not ck.viols:
        raise ToolError('no configuration could be analysed: ' + '; '.join(undecided)[:1000])
    for f, least in floors:
        # obligations that must have been met on the shipped code; fewer of them is reported as undecided, not as a violation
        if ck.counts.get(f, 0) < least:
            ck.assumptions.append('fewer than %d obligations of rule %s' % (least, f))
    return ck.finish()
