"""Evidence, verdicts and known findings, common to all the checks."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DPCHECK_REPO', '/repo')


class AnalysisBroken(Exception):
    """A public anchor of the property is gone: no verdict can be given."""


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rules = {}         # rule name -> description
        self.counts = {}        # rule name -> number of instances decided
        self.instances = []     # samples
        self.violations = []    # dicts with key, where, text
        self.undecided = []
        self.info = {}
        self.assumptions = []

    # -- instances -------------------------------------------------------
    def rule(self, name, text):
        self.rules[name] = text
        self.counts.setdefault(name, 0)

    def ok(self, rule, what):
        self.counts[rule] = self.counts.get(rule, 0) + 1
        self.instances.append('%s: %s' % (rule, what))

    def bad(self, rule, key, where, text):
        """key: stable identity of the construct (no line numbers)."""
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if any(v['rule'] == rule and v['key'] == key for v in self.violations):
            return
        self.violations.append({'rule': rule, 'key': key, 'where': where, 'text': text})

    def skip(self, rule, what, why):
        if any(u['rule'] == rule and u['what'] == what for u in self.undecided):
            return
        self.undecided.append({'rule': rule, 'what': what, 'why': why})

    def need(self, cond, text):
        if not cond:
            raise AnalysisBroken(text)

    # -- finish ----------------------------------------------------------
    def finish(self):
        known = load_known()
        new, old = [], []
        for v in self.violations:
            if (self.pid, v['rule'], v['key']) in known:
                old.append(v)
            else:
                new.append(v)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        total = sum(self.counts.values())
        samples = []
        seen = {}
        for s in self.instances:
            r = s.split(':', 1)[0]
            seen[r] = seen.get(r, 0) + 1
            if seen[r] <= 6:
                samples.append(s)
        for v in self.violations:
            samples.append('VIOLATED %s: %s' % (v['rule'], v['key']))
        if not samples:
            samples = ['no instance']
        cov = {
            'explanation': 'Static analysis of the source of /repo as it is now (nothing is executed). '
                           'Each instance of a rule is a construct found in the source and decided.',
            'evaluations': total,
            'distinct_nontrivial': len(set(self.instances)) + len(self.violations),
            'rule': '; '.join('%s = %s' % kv for kv in sorted(self.rules.items())),
            'samples': samples[:60],
            'instances_per_rule': self.counts,
            'undecided': self.undecided[:200],
            'undecided_count': len(self.undecided),
        }
        cov.update(self.info)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for v in old:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, v['where'], v['text']))
        if new:
            path = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
            with open(path, 'w') as f:
                for v in new:
                    f.write('property %s\nrule     %s: %s\ninstance %s\nwhere    %s\n%s\n\n' % (
                        self.pid, v['rule'], self.rules.get(v['rule'], ''), v['key'], v['where'], v['text']))
            for v in new:
                print('%s [%s] %s -- %s' % (v['where'], v['rule'], v['key'], v['text']))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('%s: %d instances of %d rules decided, %d undecided, %d known findings, no violation' % (
            self.pid, total, len(self.rules), len(self.undecided), len(old)))
        return 0


def load_known():
    """known_findings.txt: 'finding: property=<id> rule=<rule> key=<key> | text' and 'fixed: ...' lines."""
    path = os.path.join(VERIF, 'known_findings.txt')
    out = set()
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            line = line.rstrip('\n')
            if not line.startswith('finding: '):
                continue
            head = line[len('finding: '):].split(' | ', 1)[0]
            if ' rule=' not in head or ' key=' not in head:
                continue
            pid = head.split('property=', 1)[1].split(' ', 1)[0]
            rule = head.split(' rule=', 1)[1].split(' ', 1)[0]
            key = head.split(' key=', 1)[1]
            out.add((pid, rule, key))
    return out
