#!/usr/bin/env python3-vt
"""Decide one property of properties.jsonl on the current tree of /repo.

   python3-vt check.py C07 [--tier quick|thorough]

1. Every contract unit of the property is run: the functions are re-parsed from /repo, executed symbolically for all
   inputs admitted by the precondition, and every obligation is discharged (vc/).
2. The same contracts are evaluated on concrete inputs against the real code (conc/): as replay of failed obligations,
   as labelled bounded stand-in for functions out of the verifier's reach, and as a cross-check of the trusted library
   contracts.
Exit 0: nothing refuted.  Exit 1: VIOLATION line with a replay file.
"""
import argparse
import ast
import glob
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'

CONTRACTS = json.load(open(os.path.join(HERE, 'contracts.json')))


def conc_env():
    env = dict(os.environ)
    env.update(MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mpl', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
               JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', TF_NUM_INTRAOP_THREADS='1', TF_NUM_INTEROP_THREADS='1', VERIF_REPO=REPO,
               JAX_ENABLE_X64='1')
    if not os.access('/opt/vp/mpl', os.W_OK):
        env['MPLCONFIGDIR'] = '/tmp'
    return env


def literals(files):
    """numeric literals of the code under contract: candidate sizes and magnitudes for the witness search"""
    out = set()
    for f in files:
        p = os.path.join(REPO, f)
        if not os.path.exists(p):
            continue
        try:
            tree = ast.parse(open(p).read())
        except SyntaxError:
            continue
        for nd in ast.walk(tree):
            if isinstance(nd, ast.Constant) and isinstance(nd.value, (int, float)) and not isinstance(nd.value, bool):
                if 2 < nd.value <= 400 or 0 < abs(nd.value) < 1e-3 or 400 < abs(nd.value) < 1e30:
                    out.add(nd.value)
    return sorted(out)


def run_conc(pid, budget, seed, tier, hints, jobs, deadline):
    ps = []
    outd = os.path.join(HERE, 'evidence', 'tmp')
    os.makedirs(outd, exist_ok=True)
    for i in range(jobs):
        out = os.path.join(outd, '%s.%d.%d.json' % (pid, os.getpid(), i))
        cmd = [VENV, os.path.join(HERE, 'conc', 'run.py'), '--pid', pid, '--budget', str(budget), '--seed', str(seed),
               '--tier', tier, '--hints', json.dumps(hints), '--part', '%d/%d' % (i, jobs), '--out', out]
        ps.append((subprocess.Popen(cmd, cwd=HERE, env=conc_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), out))
    tot = {'evaluations': 0, 'distinct': 0, 'failures': [], 'errors': [], 'samples': [], 'rule': '', 'complete': True, 'crashed': 0}
    for p, out in ps:
        try:
            _, err = p.communicate(timeout=max(5, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
        if os.path.exists(out):
            r = json.load(open(out))
            os.remove(out)
            for k in ('evaluations', 'distinct'):
                tot[k] += r[k]
            tot['failures'] += r['failures']
            tot['errors'] += r['errors']
            tot['samples'] = (tot['samples'] + r['samples'])[:6]
            tot['rule'] = r['rule'] or tot['rule']
            tot['complete'] = tot['complete'] and r['complete']
        else:
            tot['crashed'] += 1
            tot['complete'] = False
            tot['errors'].append({'case': None, 'error': (err or b'').decode(errors='replace')[-1500:]})
    return tot


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def replay_known(k):
    """True when the listed finding still fails on this tree"""
    f = os.path.join(HERE, 'evidence', 'tmp', 'known.%d.json' % os.getpid())
    os.makedirs(os.path.dirname(f), exist_ok=True)
    json.dump({'module': k['property'].lower(), 'case': k['case']}, open(f, 'w'))
    r = subprocess.run([VENV, os.path.join(HERE, 'conc', 'run.py'), '--replay', f], cwd=HERE, env=conc_env(),
                       capture_output=True, text=True, timeout=300)
    os.remove(f)
    return r.returncode == 1


def is_known(known, fail):
    for k in known:
        if k.get('status') != 'open':
            continue
        if all(fail['case'].get(a) == b for a, b in k['match'].items()) and k.get('message', '') in fail['message']:
            return True
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-conc', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = CONTRACTS[pid]
    jobs = min(8, os.cpu_count() or 2)
    from vc import runner
    for m in cfg.get('contracts', []):
        importlib.import_module('vc.contracts.' + m)
    units = runner.UNITS.get(pid, [])
    if tier == 'thorough':
        for u in units:
            u.timeout *= 3
    res = runner.run_units(units, jobs=jobs, wall=380 if tier == 'quick' else 1500) if units else []
    trouble = [r for r in res if r['status'] != 'proved']
    unb = [r for r in res if r.get('kind') != 'bounded']
    nob = sum(len(r['obligations']) for r in unb)
    ndis = sum(1 for r in unb for b in r['obligations'] if b['status'] == 'proved')
    bob = [b for r in res if r.get('kind') == 'bounded' for b in r['obligations']]
    t1 = time.time()

    # ---------------------------------------------------------------- concrete contract evaluation
    hints = literals(cfg['files'])
    known = [k for k in load_known() if k['property'] == pid]
    conc = None
    if not a.no_conc and os.path.exists(os.path.join(HERE, 'conc', pid.lower() + '.py')):
        b = cfg.get('budget', 20)
        if trouble:
            b = max(b, cfg.get('budget_trouble', 120))
        if tier == 'thorough':
            b *= 6
        limit = (840 if tier == 'quick' else 6000)
        conc = run_conc(pid, b, seed, tier, hints, min(jobs, cfg.get('jobs', jobs)), t0 + limit)

    # ---------------------------------------------------------------- verdict
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    for f in glob.glob(os.path.join(HERE, 'evidence', 'replay', pid + '-*.json')):
        os.remove(f)
    bad = 0
    lines = []
    if conc:
        new = [f for f in conc['failures'] if not is_known(known, f)]
        for i, f in enumerate(new[:3]):
            p = os.path.join('evidence', 'replay', '%s-%d.json' % (pid, i))
            fo = [{'unit': r['unit'], 'label': b['label'], 'detail': b['detail'][:600]} for r in res for b in r['obligations']
                  if b['status'] != 'proved'][:6]
            json.dump({'property': pid, 'module': pid.lower(), 'case': f['case'], 'message': f['message'],
                       'failed_obligations': fo,
                       'replay': VENV + ' conc/run.py --replay ' + p}, open(os.path.join(HERE, p), 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (pid, os.path.join(HERE, p)))
            print('  ', f['message'][:300])
            print('   case', json.dumps(f['case'])[:300])
            bad += 1
            break
    if not bad:
        ref = []
        for r in res:
            for b in r['obligations']:
                if b['status'] == 'refuted':
                    ref.append((r, b))
        ref = [(r, b) for r, b in ref if not any(k.get('status') == 'open' and k.get('unit') == r['unit'] for k in known)]
        if ref:
            p = os.path.join('evidence', 'replay', '%s-obligation.json' % pid)
            json.dump({'property': pid, 'module': pid.lower(), 'failed_obligations':
                       [{'unit': r['unit'], 'functions': r['functions'], 'label': b['label'], 'kind': b['kind'],
                         'back_end': b['by'], 'verifier_output': b['detail'][:3000], 'path_condition': b['path']}
                        for r, b in ref[:20]]}, open(os.path.join(HERE, p), 'w'), indent=1)
            for r, b in ref[:4]:
                print('   obligation failed: %s: %s' % (r['unit'], b['label']))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, os.path.join(HERE, p)))
            bad += 1
    for k in known:
        if k.get('status') == 'open' and replay_known(k):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    # ---------------------------------------------------------------- evidence
    trusted = sorted(set(x for r in res for x in r.get('trusted', [])))
    assum = sorted(set(x for r in res for x in r.get('assumptions', []))) + cfg.get('assumptions', [])
    back = {}
    for r in unb:
        for b in r['obligations']:
            if b['status'] == 'proved':
                back[b['by'] or 'syntactic'] = back.get(b['by'] or 'syntactic', 0) + 1
    cov = {
        'obligations': nob, 'discharged': ndis,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (pid, tier),
        'trusted_base': ['vc/: symbolic interpreter and obligation generator for Python (re-reads /repo on every run)',
                         'vc/ncalg.py: non-commutative algebra prover (every discharged goal is cross-evaluated numerically)',
                         'z3 ' + _z3v()] + ['library contract: ' + x for x in trusted],
        'discharged_by': back,
        'units': [{'unit': r['unit'], 'kind': r.get('kind'), 'status': r['status'], 'functions': r['functions'],
                   'obligations': len(r['obligations']),
                   'discharged': sum(1 for b in r['obligations'] if b['status'] == 'proved'),
                   'seconds': r['seconds'], 'error': r['error'],
                   'functions_executed': [x for x in r.get('functions_executed', [])],
                   'solver': {'smt': r.get('smt'), 'nc': r.get('nc')}} for r in res],
        'undischarged': [{'unit': r['unit'], 'label': b['label'], 'status': b['status']} for r in res
                         for b in r['obligations'] if b['status'] != 'proved'][:50],
        'functions_under_contract': sorted(set(x for r in res for x in r['functions'])),
        'bounded_only': cfg.get('bounded', []),
        'bounded_obligations': {'label': 'bounded, not counted as proved', 'generated': len(bob),
                                'discharged': sum(1 for b in bob if b['status'] == 'proved')},
    }
    if conc:
        cov.update({'evaluations': conc['evaluations'], 'distinct_nontrivial': conc['distinct'], 'rule': conc['rule'],
                    'samples': conc['samples'],
                    'concrete': {'label': 'bounded: concrete evaluation of the same contracts on the real code (not counted as proved)',
                                 'failures': len(conc['failures']), 'errors': conc['errors'][:3],
                                 'literal_hints': hints[:60], 'budget_exhausted': not conc['complete']}})
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': cfg['level'],
          'coverage': cov, 'assumptions': assum, 'wall_s': round(time.time() - t0, 2), 'violations': bad}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d units (%.1f s); %d concrete evaluations, %d failures (%.1f s)' % (
        pid, ndis, nob, len(res), t1 - t0, conc['evaluations'] if conc else 0, len(conc['failures']) if conc else 0,
        time.time() - t1))
    for r in trouble:
        print('   %s %s %s' % (r['status'], r['unit'], (r['error'] or '')[:200]))
    if conc and conc['errors']:
        print('   concrete harness errors: %d: %s' % (len(conc['errors']), conc['errors'][0]['error'][-300:]))
    for l in lines:
        print(l)
    if bad:
        return 1
    if not nob and not (conc and conc['evaluations']):
        print('nothing was checked')
        return 3
    return 0


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.exit(main())
