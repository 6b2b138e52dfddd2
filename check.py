#!/opt/venv/bin/python
"""check.py <ID>: decide one property on /repo's current source.

1. every obligation generated from the current source by the contracts in
   contracts/<id>.py must be discharged (one process per target);
2. the same contract, executed on the real code over generated inputs
   (rac/<id>.py), must hold: this is the cross-check of the verifier and the
   search for a failing input when an obligation fails.
"""
import importlib
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DV_REPO', '/repo')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', NUMBA_NUM_THREADS='1', PYTHONPATH=REPO)


def targets_of(pid):
    src = open(os.path.join(HERE, 'contracts', pid.lower() + '.py')).read()
    names = re.findall(r"^@target\(\s*'([^']+)'", src, re.M)
    return names, src


def run_target(pid, name, limit):
    cmd = [os.path.join(HERE, 'pydv', 'py.sh'), os.path.join(HERE, 'pydv', 'run_target.py'), pid, name]
    t0 = time.time()
    try:
        p = subprocess.run(['timeout', '-k', '5', str(int(limit))] + cmd, capture_output=True, text=True, env=ENV, cwd=HERE)
        for line in p.stdout.splitlines():
            if line.startswith('@@RESULT '):
                return json.loads(line[9:])
        err = f'no result (exit {p.returncode}) ' + (p.stderr or p.stdout)[-1500:]
    except Exception as e:
        err = repr(e)
    return dict(target=name, error=err, obligations=0, discharged=0, failed=[], backends={}, solver_s=0, paths=0, reached=0,
                names=[], functions=[], wall=round(time.time() - t0, 2))


def run_rac(pid, tier, seed, budget, only=None):
    cmd = ['timeout', '-k', '5', str(int(budget + 120)), '/opt/venv/bin/python', os.path.join(HERE, 'rac', 'run.py'), pid, tier,
           str(seed), str(budget)] + ([only] if only else [])
    p = subprocess.run(cmd, capture_output=True, text=True, env=ENV, cwd='/tmp')
    for line in p.stdout.splitlines():
        if line.startswith('@@RAC '):
            return json.loads(line[6:])
    return dict(evaluations=0, distinct=0, violations=[dict(case='harness', message='the contract run on the real code did not finish: '
                                                            + (p.stderr or p.stdout)[-2500:])], samples=[], cases={}, known=[])


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    names, src = targets_of(pid)
    level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
    limit = 420 if tier == 'quick' else 1500
    budget = 40 if tier == 'quick' else 400
    with ThreadPoolExecutor(8) as ex:
        frac = ex.submit(run_rac, pid, tier, seed, budget)
        fts = [ex.submit(run_target, pid, n, limit) for n in names]
        res = [f.result() for f in fts]
        rac = frac.result()
    ns = {}
    mod = dict(ASSUME=[], EXCLUDED=[])
    m = re.search(r"^ASSUME = (\[.*?^\])", src, re.M | re.S)
    if m:
        mod['ASSUME'] = eval(m.group(1))
    bad = []
    for r in res:
        if r.get('error'):
            bad.append(dict(obligation=f"{r['target']}: verification completes", why=r['error']))
        for f in r['failed']:
            bad.append(dict(obligation=f['name'], why=f"{f['status']} ({f['backend']}): {f['detail']}"))
        if not r.get('error') and (r['obligations'] == 0 or r['reached'] == 0):
            bad.append(dict(obligation=f"{r['target']}: not vacuous", why=f"obligations={r['obligations']} reached={r['reached']}"))
    viol = rac['violations']
    if bad and not viol and rac.get('evaluations'):
        # look harder for a failing input
        rac2 = run_rac(pid, 'thorough' if tier == 'quick' else tier, seed + 7919, 90 if tier == 'quick' else 300)
        viol = rac2['violations']
        rac['search_evaluations'] = rac2['evaluations']
    known = json.load(open(os.path.join(HERE, 'known_findings.json'))).get('known', [])
    kn = {k['id']: k for k in known if k['property'] == pid}
    rest = [v for v in viol if v.get('known') not in kn]
    for kid in sorted({v['known'] for v in viol if v.get('known') in kn} | {k for k in rac.get('known', []) if k in kn}):
        print(f"KNOWN-FINDING: property={pid} {kn[kid]['what']}")
    full = [r for r in res if not r.get('bounded')]
    part = [r for r in res if r.get('bounded')]
    obl = sum(r['obligations'] for r in full)
    dis = sum(r['discharged'] for r in full)
    back = {}
    for r in res:
        for k, v in r['backends'].items():
            back[k] = back.get(k, 0) + v
    failed = bool(bad or rest)
    evid = dict(
        property=pid, tier=tier, seed=seed, level=level,
        coverage=dict(
            obligations=obl, discharged=dis,
            checker_cmd=f'python3 check.py {pid}',
            trusted_base=['pydv (own verifier: ' + HERE + '/pydv)', 'z3 5.3.2', 'cvc5 1.1.2', 'CPython 3.12'],
            back_ends=back,
            bounded=dict(obligations=sum(r['obligations'] for r in part), discharged=sum(r['discharged'] for r in part),
                         targets={r['target']: r['bounded'] for r in part}),
            solver_s=round(sum(r['solver_s'] for r in res), 2),
            functions_under_contract=sorted({f for r in res for f in r['functions']}),
            targets=[dict(target=r['target'], paths=r['paths'], obligations=r['obligations'], discharged=r['discharged'],
                          wall_s=r['wall']) for r in res],
            evaluations=rac['evaluations'], distinct_nontrivial=rac['distinct'],
            rule='contract executed on the real code; a case counts when its generated input is distinct',
            samples=rac['samples'][:8], real_code_cases=rac.get('cases', {}),
            search_evaluations=rac.get('search_evaluations', 0),
        ),
        assumptions=mod['ASSUME'],
        wall_s=round(time.time() - t0, 2),
        violations=len(bad) + len(rest),
    )
    if level != 'proof':
        evid['coverage']['explanation'] = 'see DESIGN.md'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evid, f, indent=1)
    if '-v' in sys.argv:
        for r in res:
            print(f"  {r['target']}: {r['discharged']}/{r['obligations']} paths={r['paths']} {r['wall']}s {(r['error'] or '')[-600:]}")
        print(f"  real code: {rac['evaluations']} runs, {rac['distinct']} distinct, {rac.get('cases')}")
    if not failed:
        print(f"OK property={pid} obligations={obl} discharged={dis} bounded={sum(r['obligations'] for r in part)} runs={rac['evaluations']} wall={time.time() - t0:.1f}s")
        return 0
    rp = os.path.join(HERE, 'evidence', f'replay_{pid}.json')
    with open(rp, 'w') as f:
        json.dump(dict(property=pid, failed_obligations=bad[:40], failing_inputs=rest[:10],
                       replay=f'VERIF_SEED=<seed> /opt/venv/bin/python rac/run.py {pid} replay <seed> 0 <case>#<index>'), f, indent=1)
    for b in bad[:6]:
        print('failed obligation:', b['obligation'], '|', str(b['why'])[:300].replace('\n', ' '))
    for v in rest[:4]:
        print('failing input:', v.get('case'), '|', str(v.get('message'))[:400].replace('\n', ' '))
    print(f'VIOLATION property={pid} replay={rp}' + ('' if rest else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        pid = sys.argv[1]
        rp = os.path.join(HERE, 'evidence', f'replay_{pid}.json')
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=pid, error=traceback.format_exc()), open(rp, 'w'))
        print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
        sys.exit(1)
