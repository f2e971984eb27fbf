"""Obligations, known findings, evidence and the exit code of a check."""
import json
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings():
    """{(property, key): text} of the committed list."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN, encoding='utf-8') as f:
        for line in f:
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)$', line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.obl = []           # (key, status, where, text)
        self.rules = []
        self.notes = []
        self.assumptions = []
        self.counts = {}
        self.visited = set()
        self.imprecision = []
        self.t0 = time.time()

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def note(self, t):
        if t not in self.notes:
            self.notes.append(t)

    def ok(self, key, where='', text=''):
        self.obl.append((key, 'proved', where, text))

    def bad(self, key, where, text):
        self.obl.append((key, 'violated', where, text))

    def undecided(self, key, where, text):
        self.obl.append((key, 'undecided', where, text))

    def decide(self, key, cond, where, text):
        """cond: True proved / False violated / None undecided."""
        if cond is None:
            self.undecided(key, where, text)
        elif cond:
            self.ok(key, where)
        else:
            self.bad(key, where, text)

    def diffs(self, key, diffs, where, problems=()):
        v = [d for d in diffs if d.status == 'violated']
        u = [d for d in diffs if d.status != 'violated']
        if v and not problems:
            self.bad(key, v[0].where or where, '; '.join(d.what for d in v)[:1500])
        elif v or u or problems:
            self.undecided(key, where, ('; '.join([d.what for d in v + u] + list(problems)))[:600])
        else:
            self.ok(key, where)

    def engine(self, E):
        """Account for what an engine run looked at."""
        self.visited |= set(E.visited)
        self.count('paths', E.path_count)
        for p in E.problems:
            if p not in self.imprecision:
                self.imprecision.append(p)

    # ------------------------------------------------------------------
    def finish(self, level, project, techtext):
        known = known_findings()
        viol, kf = [], []
        for (key, status, where, text) in self.obl:
            if status != 'violated':
                continue
            k = known.get((self.prop, key))
            if k is not None:
                kf.append((key, where, text, k))
            else:
                viol.append((key, where, text))
        by = {}
        for o in self.obl:
            by[o[1]] = by.get(o[1], 0) + 1
        print('%s: %d obligations: %s' % (self.prop, len(self.obl), ', '.join(
            '%d %s' % (n, s) for s, n in sorted(by.items()))))
        print('  functions entered: %d, paths: %d' % (len(self.visited), self.counts.get('paths', 0)))
        for (key, status, where, text) in self.obl:
            if status == 'undecided':
                print('  undecided %s %s: %s' % (key, where, text[:300]))
        for (key, where, text, k) in kf:
            print('KNOWN-FINDING: property=%s %s [%s at %s]' % (self.prop, k, key, where))
        replay = None
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rp = os.path.join(ev, '%s.violation.txt' % self.prop)
        if os.path.exists(rp):
            os.remove(rp)
        if viol:
            with open(rp, 'w', encoding='utf-8') as f:
                for (key, where, text) in viol:
                    f.write('obligation %s\n  construct: %s\n  %s\n' % (key, where, text))
                f.write('\nre-run: cd /verif && python3 -m sa.run %s\n' % self.prop)
            for (key, where, text) in viol[:20]:
                print('  violated %s at %s: %s' % (key, where, text[:700]))
        nviol = len(viol)
        decided = [o for o in self.obl if o[1] in ('proved', 'violated')]
        cov = {
            'explanation': ('Static analysis of the sources under %s as found in the working tree '
                            '(no code run). %s' % (project.repo, techtext)),
            'rules_applied': self.rules,
            'obligations': len(self.obl),
            'discharged': by.get('proved', 0),
            'undecided': by.get('undecided', 0),
            'known_findings': len(kf),
            'modules_parsed': len([m for m in project.modules.values() if m.path.startswith(project.repo)]),
            'functions_analysed': len(self.visited),
            'functions': sorted(x for x in self.visited if x.startswith(('pdfmajor', 'tools', 'bin')))[:200],
            'paths': self.counts.get('paths', 0),
            'counts': {k: v for k, v in self.counts.items() if k != 'paths'},
            'samples': [{'obligation': o[0], 'status': o[1], 'where': o[2]} for o in self.obl[:400]],
            'imprecision': self.imprecision[:40],
            'checker_cmd': 'python3 -m sa.run %s' % self.prop,
            'trusted_base': ['CPython ast parser', 'sa/engine.py value-flow rules', 'sa/terms.py normal forms',
                             'reference texts under /verif/specs'],
        }
        doc = {
            'property': self.prop,
            'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': level,
            'coverage': cov,
            'assumptions': self.assumptions or ['Python semantics as modelled by sa/engine.py'],
            'wall_s': round(time.time() - self.t0, 3),
            'violations': nviol,
        }
        with open(os.path.join(ev, '%s.json' % self.prop), 'w', encoding='utf-8') as f:
            json.dump(doc, f, indent=1, default=str)
        if not decided:
            print('%s: nothing was decided' % self.prop, file=sys.stderr)
        if nviol:
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0
