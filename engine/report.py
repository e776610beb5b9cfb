"""Common driver: evidence, known findings, exit codes."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import units  # noqa: E402


class Check:
    """Collects obligations and findings of one property."""

    def __init__(self, pid, tier, rule):
        self.pid = pid
        self.tier = tier
        self.rule = rule
        self.t0 = time.time()
        self.findings = {}      # key -> dict(text, where)
        self.obl = []           # (group, key)
        self.groups = {}
        self.assumptions = []
        self.analysed = {}
        self.minimum = {}
        self.notes = []

    # an obligation that was decided; group names classify evidence
    def ok(self, group, key=None, n=1):
        g = self.groups.setdefault(group, [0, set()])
        g[0] += n
        if key is not None and len(g[1]) < 4000:
            g[1].add(key)

    def bad(self, group, key, text, where):
        """key: stable identity of the finding (no line numbers)"""
        self.groups.setdefault(group, [0, set()])[0] += 1
        self.findings.setdefault(key, {'group': group, 'text': text, 'where': where})

    def need(self, group, n):
        """anti-vacuity: at least n decided instances of the group"""
        self.minimum[group] = n

    def fn(self, name, where=None):
        self.analysed[name] = where

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    # for work done in a forked process
    def child(self):
        return Check(self.pid, self.tier, self.rule)

    def pack(self):
        return self.findings, self.groups, self.assumptions, self.analysed, self.notes

    def merge(self, pk):
        fi, gr, asm, an, no = pk
        for k, v in fi.items():
            self.findings.setdefault(k, v)
        for g, (n, s) in gr.items():
            q = self.groups.setdefault(g, [0, set()])
            q[0] += n
            q[1] |= s
        for a in asm:
            self.assume(a)
        self.analysed.update(an)
        self.notes += no

    def known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return {}
        d = json.load(open(p))
        return {k['key']: k for k in d.get('known', []) if k['property'] == self.pid}

    def finish(self):
        kn = self.known()
        viol, old = [], []
        for k, f in sorted(self.findings.items()):
            (old if k in kn else viol).append((k, f))
        vac = [(g, self.groups.get(g, [0])[0], n) for g, n in self.minimum.items() if self.groups.get(g, [0])[0] < n]
        total = sum(g[0] for g in self.groups.values())
        cov = {
            'rule': self.rule,
            'explanation': 'Obligations are generated from the current source tree by the parser-based exporter and the '
                           'rules in /verif/engine; each is decided from the source without executing it.',
            'obligations': total,
            'discharged': total - len(self.findings),
            'functions_analysed': len(self.analysed),
            'groups': {g: {'decided': v[0], 'sites': sorted(v[1])[:60]} for g, v in sorted(self.groups.items())},
            'functions': sorted(self.analysed)[:400],
            'known_findings': [k for k, _ in old],
            'notes': self.notes,
        }
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2),
            'assumptions': self.assumptions,
            'violations': [{'key': k, 'what': f['text'], 'where': f['where']} for k, f in viol],
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        for k, f in old:
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, kn[k].get('what', f['text']), f['where']))
        for k, f in viol:
            print('  %s: %s  [%s]' % (f['where'], f['text'], k))
            rp = os.path.join('evidence', '%s.json' % self.pid)
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.join(VERIF, rp)))
        print('%s %s: %d obligations in %d functions, %d violations, %d known, %.1fs' % (
            self.pid, self.tier, total, len(self.analysed), len(viol), len(old), time.time() - self.t0))
        if viol:
            return 1
        if vac:
            for g, have, n in vac:
                print('ERROR property=%s: only %d instances of %s found (expected at least %d): the rule no longer '
                      'recognises the code it must decide' % (self.pid, have, g, n))
            return 2
        return 0


def main(argv):
    pid, tier = argv[1], (argv[2] if len(argv) > 2 else 'quick')
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    try:
        mod = __import__(pid.lower())
        c = Check(pid, tier, getattr(mod, 'RULE', (mod.__doc__ or '').strip()))
        mod.run(c, tier)
        rc = c.finish()
    except units.ToolError as ex:
        print('ERROR property=%s: %s' % (pid, ex))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main(sys.argv))
