"""Check driver: findings, known-findings file, evidence, exit codes."""

import json
import os
import sys
import time
import traceback

from .repo import Repo, AnalysisBroken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Finding:

    def __init__(self, key, where, msg):
        self.key = ' '.join(str(key).split())
        self.where = where
        self.msg = msg


class Check:
    """accumulates what one property's analysis covered and found."""

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.findings = {}
        self.obligations = 0
        self.discharged = 0
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self.floors = []
        self._repo = None

    @property
    def repo(self):
        if self._repo is None:
            self._repo = Repo()
        return self._repo

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def bad(self, key, where, msg):
        self.obligations += 1
        f = Finding(key, where, msg)
        self.findings.setdefault(f.key, f)

    def check(self, cond, key, where, msg, sample=None):
        if cond:
            self.ok(sample)
        else:
            self.bad(key, where, msg)
        return cond

    def floor(self, name, n, least):
        """the analysis must have seen at least `least` instances, otherwise it has no verdict."""
        self.counts[name] = n
        self.floors.append((name, n, least))


def load_known(pid):
    """known findings of a property: key -> text."""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    with open(KNOWN, encoding='utf-8') as fh:
        for line in fh:
            line = line.strip()
            if not line.startswith('known: '):
                continue
            rest = line[len('known: '):]
            head, _, text = rest.partition(' :: ')
            p, _, key = head.partition(' ')
            if p == f'property={pid}':
                out[' '.join(key.split())] = text
    return out


def run(pid, fn):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    chk = Check(pid, tier, seed)
    try:
        sys.setrecursionlimit(20000)
        fn(chk)
        broken = [f'{n}: {k} instances analysed, at least {least} expected' for n, k, least in chk.floors if k < least]
    except AnalysisBroken as e:
        print(f'ANALYSIS-BROKEN property={pid} {e}')
        return 2
    except SyntaxError as e:
        print(f'ANALYSIS-BROKEN property={pid} source does not parse: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={pid} internal error')
        return 2
    known = load_known(pid)
    listed = {k: f for k, f in chk.findings.items() if k in known}
    viol = {k: f for k, f in chk.findings.items() if k not in known}
    os.makedirs(EVID, exist_ok=True)
    for k in sorted(listed):
        print(f'KNOWN-FINDING: property={pid} {k} :: {known[k]}')
    replay = os.path.join(EVID, f'{pid}.violations.json')
    if viol:
        with open(replay, 'w', encoding='utf-8') as fh:
            json.dump([{'key': f.key, 'where': f.where, 'message': f.msg} for f in viol.values()], fh, indent=1)
    elif os.path.exists(replay):
        os.remove(replay)
    for k in sorted(viol):
        f = viol[k]
        print(f'{f.where}: [{pid}] {f.msg} (key: {f.key})')
    cov = {
        'explanation': 'Static analysis of /repo\'s current source (syntax trees of every module of the package; nothing is executed). '
                       'Rules: ' + ' '.join(chk.rules),
        'obligations': chk.obligations,
        'discharged': chk.discharged,
        'modules_parsed': len(chk.repo.mods),
        'functions_indexed': len(chk.repo.fns),
        'counts': chk.counts,
        'samples': chk.samples,
        'violation_keys': sorted(viol),
        'known_findings_seen': sorted(listed),
        'floors': [{'what': n, 'analysed': k, 'least': l} for n, k, l in chk.floors],
    }
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
        'assumptions': chk.assumptions, 'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
    }
    with open(os.path.join(EVID, f'{pid}.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, indent=1)
    if viol:
        for k in sorted(viol)[:20]:
            print(f'VIOLATION property={pid} replay={replay}')
            break
        return 1
    if broken:
        print(f'ANALYSIS-BROKEN property={pid} ' + '; '.join(broken))
        return 2
    print(f'OK property={pid} obligations={chk.obligations} discharged={chk.discharged} known={len(listed)} wall={time.time() - t0:.1f}s')
    return 0
