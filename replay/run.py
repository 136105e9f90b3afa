"""run.py MODULE CASES.json OUT.json : run cases on the real code; or run.py --replay FILE.json"""
import importlib
import json
import os
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def run_case(lib, mod, case):
    import numpy as np
    import random
    tf = lib.tf
    tf.reset_default_graph()
    seed = int(case.get('seed', 0))
    np.random.seed(seed)
    random.seed(seed)
    tf.set_random_seed(seed)
    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='pvreplay') as d:
        os.chdir(d)
        try:
            with lib.quiet():
                mod.run(case)
            return None
        except lib.Violated as e:
            return str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            at = [x for x in tb if x.filename.startswith(lib.REPO + '/')]
            loc = ' at %s:%d' % (at[-1].filename, at[-1].lineno) if at else ''
            if not at and not getattr(mod, 'ANY_ERROR', True):
                raise
            return 'raises %s: %s%s' % (type(e).__name__, str(e).split('\n')[0][:300], loc)
        finally:
            os.chdir(old)


def main():
    from replay import lib
    lib.setup()
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        mod = importlib.import_module('replay.' + d['property'])
        r = run_case(lib, mod, d['case']) if d.get('case') else None
        print('VIOLATED: ' + r if r else 'holds')
        sys.exit(1 if r else 0)
    modname, src, dst = sys.argv[1:4]
    cases = json.load(open(src))
    deadline = time.time() + float(os.environ.get('PV_BUDGET', '300'))
    mod = importlib.import_module('replay.' + modname)
    out = []
    for c in cases:
        if time.time() > deadline:
            break
        t = time.time()
        try:
            r = run_case(lib, mod, c)
        except BaseException as e:
            out.append(dict(case=c, harness=traceback.format_exc()[-800:]))
            continue
        out.append(dict(case=c, fail=r, secs=round(time.time() - t, 4)))
    json.dump(out, open(dst, 'w'))


if __name__ == '__main__':
    main()
