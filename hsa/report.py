"""Obligations, violations, known findings and evidence."""

from __future__ import annotations

import json
import os
import time
from typing import Callable, Dict, List, Optional

from .model import Program, AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES: Dict[str, dict] = {}


def rule(prop: str, **meta):
    """Register the decision procedure of a property."""
    def deco(fn: Callable):
        RULES[prop] = {'fn': fn, **meta}
        return fn
    return deco


class Report:
    """What one run of one check looked at and found."""

    def __init__(self, prop: str, prog: Program, thorough: bool = False):
        self.prop, self.prog, self.thorough = prop, prog, thorough
        self.obligations: List[dict] = []
        self.violations: List[dict] = []
        self.counts: Dict[str, int] = {}
        self.functions = set()
        self.paths = 0
        self.call_sites = set()
        self.notes: List[str] = []
        self.assumptions: List[str] = []
        self.start = time.time()

    def ok(self, rule: str, construct: str, detail: str = ''):
        self.obligations.append({'rule': rule, 'construct': _short(construct), 'discharged': True, 'detail': detail})

    def bad(self, rule: str, construct: str, message: str, where: str = '', path=None):
        construct = _short(construct)
        for v in self.violations:
            if v['rule'] == rule and v['construct'] == construct:
                return
        self.obligations.append({'rule': rule, 'construct': construct, 'discharged': False, 'detail': message})
        self.violations.append({'rule': rule, 'construct': construct, 'message': message, 'where': where,
                                'path': list(path or [])})

    def check(self, rule: str, construct: str, good: bool, message: str, where: str = '', path=None, detail: str = ''):
        if good:
            self.ok(rule, construct, detail)
        else:
            self.bad(rule, construct, message, where, path)
        return good

    def count(self, name: str, n: int = 1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name: str, n: int, minimum: int):
        """A rule that matched fewer places than it must is broken, not satisfied."""
        self.counts[name] = n
        if n < minimum:
            raise AnalysisBroken(f'{self.prop}: only {n} {name} found, at least {minimum} expected')

    def saw(self, ip):
        self.functions |= set(ip.functions_seen)
        self.paths += ip.paths

    def assume(self, text: str):
        if text not in self.assumptions:
            self.assumptions.append(text)


def _short(construct: str) -> str:
    return construct.replace('hypershell.', '')


# -- known findings ----------------------------------------------------------------------------------------------------

def known_findings() -> List[dict]:
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if not os.path.exists(path):
        return out
    with open(path) as stream:
        for line in stream:
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            head, _, text = line[len('finding:'):].partition('::')
            fields = dict(part.split('=', 1) for part in head.split() if '=' in part)
            out.append({**fields, 'text': text.strip()})
    return out


def finish(rep: Report, meta: dict, tier: str, seed: int) -> int:
    known = [k for k in known_findings() if k.get('property') == rep.prop]
    new, listed = [], []
    for v in rep.violations:
        hit = next((k for k in known if k.get('rule') == v['rule'] and k.get('construct') == v['construct']), None)
        (listed if hit else new).append((v, hit))
    for k in known:
        if any(h is k for _, h in listed):
            print(f'KNOWN-FINDING: property={rep.prop} {k["text"]}')
    replay = os.path.join(VERIF, 'evidence', f'{rep.prop}.violation.txt')
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if new:
        with open(replay, 'w') as out:
            for v, _ in new:
                out.write(f'{v["rule"]} at {v["construct"]} ({v["where"]})\n  {v["message"]}\n')
                for step in v['path']:
                    out.write(f'    {step}\n')
        for v, _ in new:
            print(f'{v["where"]}: [{v["rule"]}] {v["construct"]}: {v["message"]}')
        print(f'VIOLATION property={rep.prop} replay={replay}')
    elif os.path.exists(replay):
        os.remove(replay)
    write_evidence(rep, meta, tier, seed, [v for v, _ in new], [v for v, _ in listed])
    if not new:
        done = sum(1 for o in rep.obligations if o['discharged'])
        print(f'{rep.prop}: {done} obligations discharged, {len(rep.functions)} functions, '
              f'{rep.paths} paths, {round(time.time() - rep.start, 1)} s')
    return 1 if new else 0


def write_evidence(rep: Report, meta: dict, tier: str, seed: int, violations, listed):
    discharged = sum(1 for o in rep.obligations if o['discharged'])
    rules = {}
    for o in rep.obligations:
        r = rules.setdefault(o['rule'], {'obligations': 0, 'discharged': 0, 'constructs': []})
        r['obligations'] += 1
        r['discharged'] += bool(o['discharged'])
        if o['construct'] not in r['constructs'] and len(r['constructs']) < 40:
            r['constructs'].append(o['construct'])
    data = {
        'property': rep.prop, 'tier': tier, 'seed': seed, 'level': meta.get('level', 'other'),
        'coverage': {
            'explanation': meta.get('explanation') or meta.get('technique', 'static analysis of the current source'),
            'source': f'{rep.prog.repo}/src/hypershell', 'source_sha256': rep.prog.digest,
            'modules': len(rep.prog.modules), 'obligations': len(rep.obligations), 'discharged': discharged,
            'functions_analysed': len(rep.functions), 'functions': sorted(_short(f) for f in rep.functions)[:200],
            'paths': rep.paths, 'counts': rep.counts, 'rules': rules, 'notes': rep.notes,
            'violations': [{k: v[k] for k in ('rule', 'construct', 'message', 'where', 'path')} for v in violations],
            'known_findings': [{'rule': v['rule'], 'construct': v['construct']} for v in listed],
        },
        'assumptions': rep.assumptions,
        'wall_s': round(time.time() - rep.start, 3),
        'violations': len(violations),
    }
    path = os.path.join(VERIF, 'evidence', f'{rep.prop}.json')
    with open(path, 'w') as out:
        json.dump(data, out, indent=1, sort_keys=True)
        out.write('\n')
