"""run.py --pid C07 --budget 20 --out F   |   run.py --replay FILE"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def run_case(mod, case, ns):
    """None when the contract holds, else a message"""
    try:
        mod.check(dict(case))
        return None
    except ns['Fail'] as e:
        return 'contract violated: %s' % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inner = [f for f in tb if '/parallel_control/' in f.filename]
        if inner:
            f = inner[-1]
            return 'the call raised %s: %s (%s:%d)' % (type(e).__name__, str(e)[:300], os.path.basename(f.filename), f.lineno)
        if isinstance(e, (AttributeError, ImportError)):
            return None     # interface changed: nothing to evaluate here, reported as an error by the caller
        raise


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--pid')
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--hints', default='[]')
    ap.add_argument('--part', default='0/1')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    from conc import common
    ns = {'Fail': common.Fail}
    if a.replay:
        r = json.load(open(a.replay))
        if 'case' not in r:
            print('no concrete input recorded; failed obligations:')
            print(json.dumps(r, indent=1))
            return 0
        mod = importlib.import_module('conc.' + r['module'])
        msg = run_case(mod, r['case'], ns)
        print('case', json.dumps(r['case']))
        print('REPRODUCED: ' + msg if msg else 'not reproduced')
        return 1 if msg else 0
    mod = importlib.import_module('conc.' + a.pid.lower())
    mod.check, mod.cases     # the harness itself must be complete
    i, n = [int(x) for x in a.part.split('/')]
    ctx = common.Ctx(a.seed, a.tier, json.loads(a.hints))
    t0 = time.time()
    res = {'evaluations': 0, 'distinct': 0, 'failures': [], 'errors': [], 'samples': [], 'complete': True}
    seen = set()
    for j, case in enumerate(mod.cases(ctx)):
        if j % n != i:
            continue
        if time.time() - t0 > a.budget:
            res['complete'] = False
            break
        key = json.dumps(case, sort_keys=True)
        res['evaluations'] += 1
        if key not in seen:
            seen.add(key)
        if len(res['samples']) < 3:
            res['samples'].append(case)
        try:
            msg = run_case(mod, case, ns)
        except Exception:
            res['errors'].append({'case': case, 'error': traceback.format_exc()[-1500:]})
            if len(res['errors']) > 5:
                break
            continue
        if msg:
            res['failures'].append({'case': case, 'message': msg})
            if len(res['failures']) >= 3:
                break
    res['distinct'] = len(seen)
    res['rule'] = getattr(mod, 'RULE', '')
    res['wall'] = time.time() - t0
    json.dump(res, open(a.out, 'w')) if a.out else print(json.dumps(res, indent=1)[:3000])
    return 0


if __name__ == '__main__':
    sys.exit(main())
