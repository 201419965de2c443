"""Collecting what a rule looked at and what it found; known findings; evidence; exit status."""
from __future__ import annotations
import hashlib
import json
import os
import re
import sys
import time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
KNOWN = ROOT / 'known_findings.txt'


class Violation:
    def __init__(self, rule, construct, message, where=None, detail=None):
        self.rule, self.construct, self.message = rule, construct, message
        self.where, self.detail = where, detail

    @property
    def key(self):
        return f'{self.rule}:{self.construct}'


class Report:
    """what one check analysed, obligation by obligation"""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.violations = []
        self.short = []
        self.counts = {}
        self.samples = {}
        self.analysed = set()
        self.rules = {}
        self.notes = []
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules[name] = text
        self.counts.setdefault(name, 0)

    def ok(self, rule, sample=None, n=1):
        """n obligations of `rule` were discharged"""
        self.counts[rule] = self.counts.get(rule, 0) + n
        if sample is not None:
            s = self.samples.setdefault(rule, [])
            if len(s) < 6:
                s.append(str(sample)[:300])

    def bad(self, rule, construct, message, where=None, detail=None):
        self.counts[rule] = self.counts.get(rule, 0) + 1
        construct = re.sub(r'\s+', ' ', str(construct)).strip()
        for v in self.violations:
            if v.rule == rule and v.construct == construct:
                return
        self.violations.append(Violation(rule, construct, message, where, detail))

    def uses(self, *names):
        self.analysed.update(n for n in names if n)

    def note(self, text):
        self.notes.append(text)

    def need(self, rule, minimum, what):
        """a rule that applies to (almost) nothing decides nothing: an analysis error, never a pass"""
        if self.counts.get(rule, 0) < minimum:
            self.short.append(f'{rule}: only {self.counts.get(rule, 0)} {what} found, expected at least {minimum}')


def known_findings():
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=<(.*?)> (.*)$', line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def finish(rep: Report, title, statement, method):
    known = known_findings()
    new, old = [], []
    for v in rep.violations:
        (old if (rep.prop, v.key) in known else new).append(v)
    for v in old:
        print(f'KNOWN-FINDING: property={rep.prop} {known[(rep.prop, v.key)]} [{v.key}]')
    for name, n in rep.counts.items():
        print(f'  {rep.prop} {name}: {n} instances examined')
    replay_dir = ROOT / 'evidence' / 'replay'
    for i, v in enumerate(new):
        replay_dir.mkdir(parents=True, exist_ok=True)
        h = hashlib.sha1(v.key.encode()).hexdigest()[:10]
        path = replay_dir / f'{rep.prop}-{h}.json'
        path.write_text(json.dumps(dict(property=rep.prop, rule=v.rule, rule_text=rep.rules.get(v.rule, ''),
                                        construct=v.construct, message=v.message, where=v.where,
                                        detail=v.detail, again=f'python3 check.py {rep.prop} --tier {rep.tier}'),
                                   indent=1, default=str) + '\n')
        print(f'{v.where or "?"}: [{v.rule}] {v.message}')
        print(f'VIOLATION property={rep.prop} replay={path}')
    total = sum(rep.counts.values())
    ev = dict(property=rep.prop, tier=rep.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(explanation=f'{method} Static analysis of the source text; nothing of /repo is run. '
                                        f'{total} instances of {len(rep.counts)} rules examined.',
                            instances=rep.counts, rules=rep.rules, samples=rep.samples,
                            modules_analysed=sorted(rep.analysed), notes=rep.notes,
                            known_findings=[v.key for v in old],
                            violations_found=[dict(key=v.key, where=v.where, message=v.message) for v in new]),
              assumptions=['CPython semantics of the language subset used by the package; generated parsers and '
                           'third-party packages behave as their names and signatures say'],
              wall_s=round(time.time() - rep.t0, 3), violations=len(new))
    (ROOT / 'evidence').mkdir(exist_ok=True)
    (ROOT / 'evidence' / f'{rep.prop}.json').write_text(json.dumps(ev, indent=1, default=str) + '\n')
    if rep.short and not new:
        for x in rep.short:
            print(f'ANALYSIS-BROKEN property={rep.prop}: {x}', file=sys.stderr)
        return 2
    return 1 if new else 0
