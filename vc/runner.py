"""Run verification units: each unit symbolically executes functions of /repo and discharges obligations."""
import multiprocessing as mp
import time
import traceback
import sys
import os
from . import smt
from . import ncalg as N
from . import terms as T
from . import values as V
from . import interp as I
from .values import Unsupported, PyRaise
from . import shims

UNITS = {}     # property id -> list of Unit


class Unit:
    def __init__(self, pid, name, fn, functions, timeout=200, tf=False, kind='contract'):
        self.pid, self.name, self.fn, self.functions = pid, name, fn, functions
        self.timeout, self.tf, self.kind = timeout, tf, kind


def unit(pid, name, functions=(), timeout=200, tf=False, kind='contract'):
    def deco(fn):
        for p in ([pid] if isinstance(pid, str) else pid):
            UNITS.setdefault(p, []).append(Unit(p, name, fn, list(functions), timeout, tf, kind))
        return fn
    return deco


def run_unit(u):
    t0 = time.time()
    res = {'unit': u.name, 'functions': u.functions, 'kind': u.kind, 'status': 'proved', 'obligations': [], 'error': None}
    e = I.Engine(u.timeout)
    shims.install(e, tf=u.tf)
    try:
        th = u.fn(e)
        if callable(th):
            outs = e.explore(th)
            n_ok = 0
            for o in outs:
                if o.exc is None:
                    n_ok += 1
                    continue
                r = smt.check(list(e.pc) + o.conds, None)
                e.pc, sav = list(e.pc) + o.conds, e.pc
                e.obl('no exception under the precondition', 'proved' if r == 'unsat' else e.model_of(r, T.TRUE),
                      str(o.exc), 'safety', 'z3')
                e.pc = sav
            if n_ok == 0:
                # vacuity: the contract's precondition admits no terminating run
                e.obl('some run terminates normally', 'refuted', '', 'vacuity', '')
        if smt.check(e.hyps(), None) == 'unsat':
            res['status'] = 'error'
            res['error'] = 'contradictory precondition'
    except Unsupported as x:
        if os.environ.get("VC_TB"): traceback.print_exc()
        res['status'] = 'unsupported'
        res['error'] = '%s' % (x,)
        tb = traceback.extract_tb(sys.exc_info()[2])
        res['where'] = ['%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in tb[-4:]]
        res['at'] = list(e.stack)
    except PyRaise as x:
        res['status'] = 'unsupported'
        res['error'] = 'exception outside exploration: %s' % x
    except Exception as x:  # engine trouble is never a verdict
        res['status'] = 'unsupported'
        res['error'] = 'internal: %r' % (x,)
        res['where'] = traceback.format_exc()[-1500:]
        if os.environ.get('VC_TB'): traceback.print_exc()
    ob = []
    for b in e.obligations:
        b = dict(b)
        b.pop('pcterms', None)
        ob.append(b)
    res['obligations'] = ob
    st = [b['status'] for b in ob]
    if res['status'] == 'proved':
        if 'refuted' in st:
            res['status'] = 'refuted'
        elif 'unknown' in st:
            res['status'] = 'unknown'
        elif not ob:
            res['status'] = 'unsupported'
            res['error'] = 'no obligation generated'
    elif res['status'] == 'unsupported' and 'refuted' in st:
        pass
    res['functions_executed'] = sorted(x for x in e.funcs_seen if x)
    res['trusted'] = sorted(shims.TRUSTED)
    res['assumptions'] = sorted(getattr(e, 'assumptions', []))
    res['seconds'] = round(time.time() - t0, 3)
    res['smt'] = dict(smt.STATS)
    res['nc'] = dict(N.STATS)
    return res


def _child(u, q):
    try:
        q.put(run_unit(u))
    except BaseException as x:
        q.put({'unit': u.name, 'functions': u.functions, 'status': 'unsupported', 'obligations': [],
               'error': 'crash: %r' % (x,), 'seconds': 0, 'kind': u.kind, 'functions_executed': [], 'trusted': [],
               'assumptions': []})


def run_units(units, jobs=8, wall=600):
    """run units in parallel processes with individual time limits"""
    ctx = mp.get_context('fork')
    pending = list(units)
    live = []
    out = {}
    t0 = time.time()
    while pending or live:
        while pending and len(live) < jobs:
            u = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=(u, q))
            p.start()
            live.append((u, p, q, time.time()))
        nxt = []
        for (u, p, q, s) in live:
            if not q.empty():
                out[u.name] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                out[u.name] = {'unit': u.name, 'functions': u.functions, 'status': 'unsupported', 'obligations': [],
                               'error': 'worker died', 'seconds': time.time() - s, 'kind': u.kind,
                               'functions_executed': [], 'trusted': [], 'assumptions': []}
            elif time.time() - s > u.timeout + 30 or time.time() - t0 > wall:
                p.kill()
                out[u.name] = {'unit': u.name, 'functions': u.functions, 'status': 'unsupported', 'obligations': [],
                               'error': 'time limit', 'seconds': time.time() - s, 'kind': u.kind,
                               'functions_executed': [], 'trusted': [], 'assumptions': []}
            else:
                nxt.append((u, p, q, s))
        live = nxt
        time.sleep(0.02)
    return [out[u.name] for u in units]


def main():
    import importlib
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('unit', nargs='?')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    importlib.import_module('vc.contracts.' + a.module)
    us = [u for l in UNITS.values() for u in l if not a.unit or a.unit in u.name]
    seen = set()
    us = [u for u in us if not (u.name in seen or seen.add(u.name))]
    if len(us) == 1:
        rs = [run_unit(us[0])]
    else:
        rs = run_units(us)
    for r in rs:
        c = {}
        for b in r['obligations']:
            c[b['status']] = c.get(b['status'], 0) + 1
        print('%-12s %-45s %6.2fs %s %s' % (r['status'], r['unit'], r['seconds'], c, r['error'] or ''))
        if r['error'] and a.v:
            print('   ', r.get('where'), r.get('at'))
        for b in r['obligations']:
            if a.v or b['status'] != 'proved':
                print('     ', b['status'], '|', b['kind'], '|', b['label'], '|', b['detail'][:400], '|', b['path'] if b['status'] != 'proved' else '')


if __name__ == '__main__':
    # run as `python3-vt -m vc.runner module` : make sure UNITS is shared with the imported module
    from vc import runner as R
    R.main()
