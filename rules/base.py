"""What every rule shares: the loaded program, violations, evidence, known findings."""
import json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Missing(Exception):
    """an anchor of the rule is gone: the rule can not decide anything (fails closed)"""


def load_known():
    res = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.level = 'other'
        self.crates = None
        self.violations = []
        self.seen = set()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.nob = 0
        self.ndis = 0
        self.explanation = ''

    def ready(self):
        self.lib = self.crates['lib']
        self.bin = self.crates.get('bin')

    # ------------------------------------------------------------------ results
    def viol(self, key, where, msg):
        key = re.sub(r'\s+', '_', key)
        if key in self.seen:
            return
        self.seen.add(key)
        self.violations.append((key, where, msg))

    def ob(self, ok, key, where, msg, sample=None):
        """one obligation; reports a violation unless it holds"""
        self.nob += 1
        if ok:
            self.ndis += 1
            if sample:
                self.sample(sample)
        else:
            self.viol(key, where, msg)
        return ok

    def need(self, x, what):
        if not x:
            raise Missing(what)
        return x

    def floor(self, name, n, least):
        """a count that must not silently shrink: fewer anchors than expected means nothing was decided"""
        self.cov[name] = n
        if n < least:
            self.viol('floor:' + name, '/repo', '%s: found %d, expected at least %d; the rule has lost its anchors'
                      % (name, n, least))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish_rule(self, mod):
        self.explanation = ' '.join((getattr(mod, 'RULE', '') or mod.__doc__ or '').split())
        self.assumptions = list(getattr(mod, 'ASSUMPTIONS', [])) + self.assumptions

    # ------------------------------------------------------------------ lookup
    def fn(self, path, crate=None):
        f = (crate or self.lib).by_path.get(path)
        if f is None:
            raise Missing('function ' + path)
        return f

    def adt(self, path, crate=None):
        a = (crate or self.lib).adts.get(path)
        if a is None:
            raise Missing('type ' + path)
        return a

    def where(self, f, ln=None):
        return '%s:%s (%s)' % (f.get('file', '?'), ln or f.get('ln', '?'), f['path'])

    # ------------------------------------------------------------------ output
    def report(self, seed, wall):
        known = load_known()
        new, old = [], []
        for v in self.violations:
            (old if (self.pid, v[0]) in known else new).append(v)
        cov = dict(self.cov)
        cov['obligations'] = self.nob
        cov['discharged'] = self.ndis
        cov['samples'] = self.samples
        cov['explanation'] = self.explanation or 'no rule was evaluated'
        cov['rule'] = self.explanation
        if self.level == 'proof':
            cov['checker_cmd'] = 'python3 check.py %s' % self.pid
            cov['trusted_base'] = [
                'rustc nightly: type checking, MIR construction, constant evaluation',
                'driver/ (fact extraction from MIR), sa/dom.py, sa/engine.py (abstract interpreter), '
                'sa/models.py (models of the standard library and of binrw)', 'rules/%s.py' % self.pid.lower()]
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(wall, 2), 'violations': len(new)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        p = os.path.join(HERE, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(p + '.tmp', p)
        rp = os.path.join(HERE, 'evidence', self.pid + '.violations.txt')
        with open(rp, 'w') as fh:
            for k, w, m in new:
                fh.write('VIOLATED %s\n  key: %s\n  at: %s\n  %s\n\n' % (self.pid, k, w, m))
        for k, w, m in old:
            print('KNOWN-FINDING: property=%s %s [%s at %s]' % (self.pid, known[(self.pid, k)], k, w))
        if new:
            for k, w, m in new[:20]:
                print('  %s: %s -- %s' % (k, w, m.splitlines()[0][:300]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s obligations=%d discharged=%d %.1fs' % (self.pid, self.nob, self.ndis, wall))
        return 0
