"""tools/t.py ID target...: development helper, prove some targets and print what failed"""
import json, subprocess, sys, os
from concurrent.futures import ThreadPoolExecutor
pid, *names = sys.argv[1:]
sys.path.insert(0, '/verif')
import importlib.util, re
if not names:
    names = re.findall(r"^@target\(\s*'([^']+)'", open(f'/verif/contracts/{pid.lower()}.py').read(), re.M)
env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
def go(n):
    p = subprocess.run(['timeout', os.environ.get('LIM', '200'), '/verif/pydv/py.sh', '/verif/pydv/run_target.py', pid, n], capture_output=True, text=True, env=env)
    for l in p.stdout.splitlines():
        if l.startswith('@@RESULT '):
            return json.loads(l[9:])
    return dict(target=n, error='no result ' + (p.stdout + p.stderr)[-1500:], obligations=0, discharged=0, failed=[], wall=0, paths=0)
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(go, names):
        print(f"{r['target']}: {r['discharged']}/{r['obligations']} paths={r['paths']} {r['wall']}s")
        if r.get('error'):
            print('   ', r['error'][-500:].replace('\n', '\n    '))
        for f in r['failed'][:int(os.environ.get('NF', '6'))]:
            print('   FAILED', f['name'], f['status'], (f['detail'][:int(os.environ.get('DL', '160'))] if not r.get('error') else ''))
