"""Obligations, findings, evidence and exit status of one check."""
import json
import os
import sys
import time
import traceback

from .cxx import AnalysisBroken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Finding:
    def __init__(self, rule, construct, where, detail):
        self.rule, self.construct = rule, construct
        self.where, self.detail = where, detail

    @property
    def key(self):
        return f'{self.rule} @ {self.construct}'

    def __str__(self):
        return f'{self.rule}: {self.construct} [{self.where}] {self.detail}'


class Report:
    """Collects what one check analysed and concluded."""

    def __init__(self, prop):
        self.prop = prop
        self.rules = {}        # rule -> description
        self.done = []         # (rule, construct, where, verdict, detail)
        self.findings = []
        self.analysed = {}
        self.assumptions = []
        self._seen = set()

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct, where='', detail=''):
        self.done.append((rule, construct, where, 'holds', detail))

    def undecided(self, rule, construct, where='', detail=''):
        self.done.append((rule, construct, where, 'undecided', detail))

    def bad(self, rule, construct, where, detail):
        f = Finding(rule, construct, where, detail)
        if f.key in self._seen:
            return
        self._seen.add(f.key)
        self.done.append((rule, construct, where, 'violated', detail))
        self.findings.append(f)

    def check(self, cond, rule, construct, where='', detail='', ok=''):
        if cond:
            self.ok(rule, construct, where, ok)
        else:
            self.bad(rule, construct, where, detail)

    def count(self, rule):
        return sum(1 for d in self.done if d[0] == rule)

    def need(self, rule, least):
        """A rule matching (nearly) nothing passes vacuously: refuse."""
        n = self.count(rule)
        if n < least and not self.findings:
            raise AnalysisBroken(
                f'rule {rule!r} matched {n} constructs, expected at least '
                f'{least}: the anchors of this rule have vanished')


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding='utf-8') as f:
            for ln in f:
                ln = ln.strip()
                if not ln.startswith('known: property='):
                    continue
                rest = ln[len('known: property='):]
                pid, _, rest = rest.partition(' ')
                key, _, what = rest.partition(' :: ')
                if pid == prop:
                    out[key.strip()] = what.strip()
    return out


def run(prop, fn, explanation):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rep = Report(prop)
    try:
        sys.setrecursionlimit(20000)
        fn(rep, tier)
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={prop}: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={prop}: internal error')
        return 2
    if not rep.done:
        print(f'ANALYSIS-BROKEN property={prop}: no obligations found')
        return 2
    known = known_findings(prop)
    new = [f for f in rep.findings if f.key not in known]
    old = [f for f in rep.findings if f.key in known]
    byrule = {}
    for r, c, w, v, d in rep.done:
        b = byrule.setdefault(r, {'holds': 0, 'violated': 0, 'undecided': 0})
        b[v] += 1
    n = len(rep.done)
    held = sum(1 for d in rep.done if d[3] == 'holds')
    und = [d for d in rep.done if d[3] == 'undecided']
    step = max(1, n // 40)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': explanation,
            'source_root': REPO,
            'analysed': rep.analysed,
            'rules': rep.rules,
            'obligations': n,
            'discharged': held,
            'undecided': [f'{r}: {c} [{w}] {d}' for r, c, w, v, d in und],
            'per_rule': byrule,
            'samples': [f'{v}: {r}: {c} [{w}] {d}'
                        for r, c, w, v, d in rep.done[::step]][:60],
            'known_findings': [str(f) for f in old],
        },
        'assumptions': rep.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    with open(os.path.join(evdir, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    vio = os.path.join(evdir, f'{prop}.violations.txt')
    with open(vio, 'w') as f:
        for x in new:
            f.write(str(x) + '\n')
    for x in old:
        print(f'KNOWN-FINDING: property={prop} {x.key} [{x.where}] '
              f'{known[x.key]}')
    for x in new:
        print(f'  {x}')
    print(f'{prop}: {n} obligations, {held} hold, {len(und)} undecided, '
          f'{len(new)} new violations, {len(old)} known findings '
          f'({ev["wall_s"]} s)')
    if new:
        print(f'VIOLATION property={prop} replay={vio}')
        return 1
    return 0
