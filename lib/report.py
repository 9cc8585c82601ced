"""Obligations, violations, known findings and the evidence file of one check run."""
import json, os, re, sys, time
import facts
from facts import Broken, VERIF

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def load_known():
    """lines `finding: property=<id> key=<key> :: <what fails>`; `fixed:` lines are a record and suppress nothing"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)$', l.rstrip('\n'))
            if m:
                r.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return r


class Check:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.counts = {}
        self.samples = {}
        self.viol = {}
        self.assumptions = []
        self.rules = []
        self.floors = []
        self.notes = []
        self._progs = {}

    def prog(self, variant='default'):
        if variant not in self._progs:
            self._progs[variant] = facts.Program(variant)
        p = self._progs[variant]
        self.count('translation units parsed (%s)' % variant, set_to=p.units)
        self.count('functions in fact base (%s)' % variant, set_to=len(p.fns))
        return p

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, what, n=1, set_to=None):
        if set_to is not None:
            self.counts[what] = set_to
        else:
            self.counts[what] = self.counts.get(what, 0) + n

    def ok(self, what, desc=None):
        """one discharged obligation of kind `what`"""
        self.count(what)
        if desc is not None:
            s = self.samples.setdefault(what, [])
            if len(s) < 12:
                s.append(desc)

    def violate(self, key, loc, msg, trace=()):
        """key: stable identity (no line numbers)"""
        if key not in self.viol:
            self.viol[key] = (loc, msg, list(trace))

    def floor(self, what, minimum):
        """instances confirmed by hand: fewer means the analysis no longer sees its subject"""
        self.floors.append((what, minimum))

    def broken(self, msg):
        raise Broken(msg)

    def finish(self):
        known = load_known().get(self.pid, {})
        new = {k: v for k, v in self.viol.items() if k not in known}
        # A violation is reported before the instance floors: a violated instance may be missing from the discharged ones.
        if not new:
            for what, minimum in self.floors:
                if self.counts.get(what, 0) < minimum:
                    raise Broken('only %d instances of "%s" (confirmed by hand: at least %d)' % (self.counts.get(what, 0), what, minimum))
        print('%s: %s' % (self.pid, '; '.join(self.rules)))
        for k in sorted(self.counts):
            print('  %-70s %s' % (k, self.counts[k]))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rep = []
        for k in sorted(self.viol):
            loc, msg, trace = self.viol[k]
            if k in known:
                print('KNOWN-FINDING: property=%s %s (%s: %s)' % (self.pid, known[k], loc, msg))
            else:
                rep.append('%s: %s\n  key: %s\n%s' % (loc, msg, k, ''.join('    %s\n' % t for t in trace)))
        rc = 0
        if rep:
            path = os.path.join(rdir, self.pid + '.txt')
            with open(path, 'w') as f:
                f.write('property %s\nrule: %s\nre-run: python3 %s/check.py %s %s\n\n' % (self.pid, '; '.join(self.rules), VERIF, self.pid, self.tier))
                f.write('\n'.join(rep))
            for r in rep:
                print(r)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            rc = 1
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the resolved program (clang 18 AST+CFG facts extracted from /repo/src on this run). Rule: ' + '; '.join(self.rules),
                'counts': self.counts,
                'samples': ['%s: %s' % (w, s) for w in sorted(self.samples) for s in self.samples[w][:6]],
                'known_findings_seen': sorted(k for k in self.viol if k in known),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(rep),
        }
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        return rc
