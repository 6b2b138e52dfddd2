"""python run_target.py <ID> <target>: prove one target, print JSON."""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    pid, name = sys.argv[1], sys.argv[2]
    t0 = time.time()
    out = dict(target=name)
    try:
        from pydv.explore import Explorer
        from pydv import rt
        m = importlib.import_module('contracts.' + pid.lower())
        from pydv.contract import S
        S()
        rt.ENTERED.clear()
        fn, opts, functions = m.TARGETS[name]
        ex = Explorer(name, fn, **opts)
        ex.run()
        out = ex.summary()
        out['bounded'] = getattr(fn, 'bounded', None)
        out['names'] = [r.name for r in ex.results]
        out['functions'] = sorted(rt.ENTERED)
    except Exception as e:
        out.update(error=f'{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}', obligations=0, discharged=0, failed=[],
                   backends={}, solver_s=0, paths=0, reached=0, names=[], functions=[])
    out['wall'] = round(time.time() - t0, 2)
    sys.stdout.write('\n@@RESULT ' + json.dumps(out) + '\n')


main()
