"""Findings, known findings, evidence, exit status of one check run."""
import json
import os
import sys
import time
import traceback

import sa

KNOWN = f'{sa.VERIF}/known_findings.json'


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.work = sa.Work()
        self.viols = []          # (key, text)
        self.counts = {}
        self.functions = set()
        self.samples = []
        self.rules = {}
        self.assumptions = []
        self.undecided = []

    # ---- what was analysed ----
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def saw(self, fn):
        self.functions.add(fn.short() if hasattr(fn, 'short') else fn)

    def sample(self, text, cap=40):
        if len(self.samples) < cap:
            self.samples.append(text)

    def rule(self, name, text):
        self.rules[name] = text

    def assume(self, text):
        self.assumptions.append(text)

    # ---- verdicts ----
    def ob(self, kind, ok, key, text='', readable=True):
        """one obligation: counted, and a violation when it does not hold (undecided when the construct is not readable)"""
        if not ok and not readable:
            self.unsure(kind, key, text)
            return False
        self.count(f'obligations:{kind}')
        if ok:
            self.count(f'held:{kind}')
        else:
            self.viol(f'{kind}|{key}', text)
        return ok

    def unsure(self, kind, key, text=''):
        """an obligation on a construct the rule cannot read: counted and listed in the evidence, no alarm"""
        self.count(f'obligations:{kind}')
        self.count(f'undecided:{kind}')
        if len(self.undecided) < 60:
            self.undecided.append({'key': f'{kind}|{key}', 'why': text})

    def viol(self, key, text):
        if key not in [k for k, _ in self.viols]:
            self.viols.append((key, text))

    def need(self, what, n):
        """the rule must have matched at least n constructs"""
        got = self.counts.get(what, 0)
        if got < n:
            raise sa.Broken(f'{what}: {got} instances, at least {n} expected: the rule no longer matches the code')

    def finish(self):
        self.work.done()
        known = []
        if os.path.exists(KNOWN):
            known = json.load(open(KNOWN))['findings']
        known = {k['key']: k for k in known if k['property'] == self.pid and k['status'] == 'known'}
        new = []
        for key, text in self.viols:
            if key in known:
                print(f'KNOWN-FINDING: property={self.pid} {known[key]["what"]} [{key}]')
            else:
                new.append((key, text))
        obl = sum(v for k, v in self.counts.items() if k.startswith('obligations:'))
        held = sum(v for k, v in self.counts.items() if k.startswith('held:'))
        cov = {
            'explanation': 'static analysis of the current source tree; rules: ' +
                           '; '.join(f'{k}: {v}' for k, v in self.rules.items()),
            'functions_analysed': len(self.functions),
            'obligations': obl, 'discharged': held,
            'counts': self.counts,
            'undecided': self.undecided,
            'samples': self.samples or sorted(self.functions)[:10],
            'known_findings': [k for k, _ in self.viols if k in known],
            'reported': [{'key': k, 'what': t} for k, t in new],
        }
        os.makedirs(f'{sa.VERIF}/evidence', exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
              'level': 'other', 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        json.dump(ev, open(f'{sa.VERIF}/evidence/{self.pid}.json', 'w'), indent=1)
        print(f'{self.pid}: {len(self.functions)} functions, {obl} obligations, {held} held, '
              f'{len(self.viols) - len(new)} known findings, {len(new)} violations, {ev["wall_s"]} s')
        for k, v in sorted(self.counts.items()):
            print(f'   {k}: {v}')
        if new:
            path = f'{sa.VERIF}/evidence/{self.pid}.violations.txt'
            with open(path, 'w') as f:
                for k, t in new:
                    f.write(f'{k}\n    {t}\n')
            for k, t in new:
                print(f'  {k}\n      {t}')
            print(f'VIOLATION property={self.pid} replay={path}')
            return 1
        return 0


def main(pid, tier, run):
    c = Check(pid, tier)
    try:
        run(c)
        return c.finish()
    except sa.Broken as e:
        if c.viols:
            # constructs already shown to be wrong stay reported
            c.viol('analysis-incomplete', str(e))
            print(f'note: {e}')
            return c.finish()
        c.work.done()
        print(f'{pid}: BROKEN CHECK: {e}', file=sys.stderr)
        return 2
    except sa.CompileError as e:
        c.work.done()
        print(f'{pid}: witness {e.unit} does not compile:\n{e.text[:6000]}', file=sys.stderr)
        return 2
    except Exception:
        c.work.done()
        traceback.print_exc()
        return 2
