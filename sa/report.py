"""Collects what a check analysed and what it found; writes the evidence file; decides the exit code."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')


class Report:
    def __init__(self, pid, title=''):
        self.pid = pid
        self.t0 = time.time()
        self.instances = {}          # rule -> list of places analysed
        self.violations = []         # (key, where, text)
        self.problems = []           # analysis-broken reasons
        self.notes = []
        self.sources = []
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def saw(self, rule, where, detail=''):
        self.instances.setdefault(rule, []).append('%s%s' % (where, ' -- ' + detail if detail else ''))

    def count(self, rule):
        return len(self.instances.get(rule, ()))

    def bad(self, rule, where, text):
        key = '%s @ %s: %s' % (rule, where, text)
        if key not in [v[0] for v in self.violations]:
            self.violations.append((key, where, text))

    def ok(self, cond, rule, where, text):
        """one decided instance"""
        self.saw(rule, where)
        if not cond:
            self.bad(rule, where, text)
        return cond

    def broken(self, text):
        if text not in self.problems:
            self.problems.append(text)

    def floor(self, rule, n):
        """fewer instances than confirmed by reading the code means the analysis lost sight of it"""
        if self.count(rule) < n:
            self.broken('rule "%s" saw %d instances, expected at least %d' % (rule, self.count(rule), n))

    # ------------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        os.makedirs(EVID, exist_ok=True)
        shown, new = [], []
        for key, where, text in self.violations:
            k = next((x for x in known if x in key), None)
            if k:
                shown.append((k, key))
            else:
                new.append((key, where, text))
        total = sum(len(v) for v in self.instances.values())
        ev = {
            'property': self.pid, 'tier': os.environ.get('VERIF_TIER', 'quick'),
            'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
            'coverage': {
                'explanation': 'static analysis of the current source: every listed instance was decided by the named rule '
                               'over all paths of the analysed functions; nothing was executed',
                'rules': self.rules,
                'instances': {r: len(v) for r, v in self.instances.items()},
                'instances_total': total,
                'places': {r: v for r, v in self.instances.items()},
                'sources': self.sources,
                'violations': [k for k, _, _ in new],
                'known_findings': [k for _, k in shown],
                'analysis_problems': self.problems,
                'notes': self.notes,
            },
            'wall_s': round(time.time() - self.t0, 3),
        }
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for r, v in self.instances.items():
            print('%s: %s: %d instances' % (self.pid, r, len(v)))
        for k, key in shown:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, key))
        if new:
            path = os.path.join(EVID, self.pid + '.violation.txt')
            with open(path, 'w') as f:
                for key, where, text in new:
                    f.write(key + '\n')
            for key, where, text in new:
                print('  ' + key)
            for p in self.problems:
                print('  (note: %s)' % p)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if self.problems or total == 0:
            for p in self.problems or ['no instance analysed']:
                print('ANALYSIS-BROKEN property=%s %s' % (self.pid, p), file=sys.stderr)
            return 2
        print('%s: held, %d instances, %.1f s' % (self.pid, total, time.time() - self.t0))
        return 0


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    return out
