"""Running a property check: obligations, findings, evidence."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

import extract
from extract import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')


def known_findings(pid):
    try:
        with open(KNOWN) as f:
            j = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in j.get('findings', []) if k['property'] == pid]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.results = []
        self.violations = []
        self.rules = []
        self.assumptions = []
        self.minimums = []

    def add(self, r):
        if isinstance(r, list):
            self.results += r
        else:
            self.results.append(r)

    def finish(self, units):
        known = known_findings(self.pid)
        self.violations = [v for r in self.results for v in r.violations]
        rc = 0
        ok = sum(1 for r in self.results if r.agree or r.vacuous or r.violations)
        if not self.violations and ok * 3 < len(self.results):
            raise AnalysisBroken('only %d of %d obligations could be analysed: %s' %
                                 (ok, len(self.results), [u for r in self.results for u in r.undecided][:2]))
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        hit = {}
        new = []
        for k, t in self.violations:
            for f in known:
                if f['key'] == k:
                    hit.setdefault(k, (f, t))
                    break
            else:
                new.append((k, t))
        for k, (f, t) in sorted(hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        if new:
            path = os.path.join(VERIF, 'evidence', 'replay', self.pid + '.txt')
            with open(path, 'w') as f:
                for k, t in new:
                    f.write('%s\n  %s\n\n' % (k, t))
            for k, t in new[:8]:
                print('  [%s] %s' % (k, t[:700]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            rc = 1
        ob = len(self.results)
        paths = sum(r.paths for r in self.results)
        agree = sum(r.agree for r in self.results)
        und = [u for r in self.results for u in r.undecided]
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': ' '.join(self.rules),
                'obligations': ob,
                'discharged': sum(1 for r in self.results if not r.violations and not r.undecided),
                'abstract_paths': paths, 'paths_decided': agree,
                'paths_vacuous': sum(r.vacuous for r in self.results),
                'interpretations': sum(r.samples for r in self.results),
                'units_analysed': units,
                'undecided': len(und), 'undecided_examples': und[:25],
                'instances': [{'name': r.name, 'anchor': r.fn, 'paths': r.paths, 'decided': r.agree, 'undecided': len(r.undecided),
                               'violations': len(r.violations)} for r in self.results][:400],
            },
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new),
        }
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d paths, %d decided, %d undecided, %d violations, %d known, %.1fs' %
              (self.pid, ob, paths, agree, len(und), len(new), len(hit), time.time() - self.t0))
        return rc


def parallel(jobs, nproc=None):
    """jobs: list of zero-argument callables returning Result or list of Result.
    Runs them in forked workers; keeps the order."""
    nproc = nproc or int(os.environ.get('DXT_JOBS', '0')) or (os.cpu_count() or 4)
    import multiprocessing as mp
    if len(jobs) <= 1 or nproc == 1:
        out = []
        for j in jobs:
            x = j()
            out += x if isinstance(x, list) else [x]
        return [x for x in out if x is not None]
    global _JOBS
    _JOBS = jobs
    ctx = mp.get_context('fork')
    with ctx.Pool(min(nproc, len(jobs))) as pool:
        res = pool.map(_one, range(len(jobs)), chunksize=1)
    out = []
    for i, x in enumerate(res):
        if isinstance(x, str):
            import equiv
            r = equiv.Result('obligation %d' % i)
            r.undecided.append(x[:1500])
            r.broken = True
            x = r
        out += x if isinstance(x, list) else [x]
    return [x for x in out if x is not None]


_JOBS = []


def _one(i):
    try:
        return _JOBS[i]()
    except AnalysisBroken as e:
        return 'broken: ' + str(e)
    except Exception:
        return 'internal error: ' + traceback.format_exc()


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import importlib
    mods = {'S': 'props_cell', 'T': 'props_t', 'U': 'props_u', 'P': 'props_p', 'C': 'props_c'}
    try:
        mod = importlib.import_module(mods[pid[0]])
        fn = getattr(mod, 'check_' + pid)
        c = Check(pid, tier, seed)
        units = fn(c)
        return c.finish(units)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv))
