"""Runs a property's contract on the real code over generated inputs.

run.py <ID> quick|thorough|replay <seed> <budget s> [case#index]"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('DV_REPO', '/repo'))
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True

import numpy as np


class Log(dict):
    def short(self):
        return {k: _r(v) for k, v in self.items()}


def _r(v):
    if isinstance(v, np.ndarray):
        return np.array2string(v, threshold=400, max_line_width=10000, separator=',')[:1500]
    return repr(v)[:1500]


def main():
    pid, tier, seed, budget = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    only = sys.argv[5] if len(sys.argv) > 5 else None
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    m = importlib.import_module('rac.' + pid.lower())
    real_stdout = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    t0 = time.time()
    viol, samples, counts, distinct = [], [], {}, set()
    n = 0
    cases = m.CASES
    todo = {c: 0 for c in cases}
    want = {c: (cases[c][1] if tier != 'thorough' else cases[c][1] * 12) for c in cases}
    per = {c: 0 for c in cases}

    def run(c, i):
        rng = np.random.default_rng([seed, zlib.crc32(c.encode()), i])
        log = Log()
        try:
            r = cases[c][0](rng, i, log)
            return True, log, None, None
        except Exception as e:
            kn = getattr(e, 'known', None)
            tb = ''.join(traceback.format_exc().splitlines(True)[-6:])
            return False, log, kn, f'{type(e).__name__}: {e}\n{tb}'
    if only:
        c, _, i = only.partition('#')
        ok, log, kn, msg = run(c, int(i))
        sys.stdout = real_stdout
        print(json.dumps(dict(ok=ok, inputs=log.short(), message=msg), indent=1))
        sys.exit(0 if ok else 1)
    active = list(cases)
    known = set()
    while active and time.time() - t0 < budget:
        for c in list(active):
            if time.time() - t0 >= budget:
                break
            i = todo[c]
            todo[c] += 1
            ok, log, kn, msg = run(c, i)
            n += 1
            counts[c] = counts.get(c, 0) + 1
            sh = log.short()
            distinct.add((c, zlib.crc32(repr(sorted(sh.items())).encode()) if sh else i))
            if i == 0:
                samples.append(dict(case=f'{c}#{i}', **{k: v[:200] for k, v in sh.items()}))
            if not ok:
                per[c] += 1
                if kn:
                    known.add(kn)
                viol.append(dict(case=f'{c}#{i}', seed=seed, inputs=sh, message=msg, known=kn))
            if todo[c] >= want[c] or per[c] >= 3:
                active.remove(c)
    sys.stdout = real_stdout
    print('@@RAC ' + json.dumps(dict(evaluations=n, distinct=len(distinct), violations=viol, samples=samples, cases=counts,
                                     known=sorted(known))))


main()
