from .common import *
import parallel_control.lqt_np as lqt
import parallel_control.fsc_np as fsc

RULE = ('random horizons, dimensions, list/shared/omitted form of every parameter, and single inconsistencies (length, rows, columns, rank, transposition, '
        'at a random index); independent expansion and consistency oracle; distinct in all case fields')
REQ = ['F', 'L', 'X', 'U']
OPT = ['c', 'H', 'r', 'Z', 's', 'M']
END = ['XT', 'HT', 'rT']


def cases(ctx):
    i = 0
    bad = ['none', 'len+', 'len-', 'rows', 'cols', 'both', 'rank', 'transpose', 'endrows', 'endcols', 'noT']
    while True:
        i += 1
        yield dict(kind='fsc' if i % 4 == 0 else 'lqt', seed=i + 6007 * ctx.seed, bad='none' if i % 5 in (0, 2) else bad[(i // 5) % len(bad)],
                   T=1 + (i * 7) % 6, n=1 + i % 4, m=1 + (i // 3) % 3, p=1 + (i // 2) % 3)


def lqt_consistent(q, T):
    """q: expanded lists"""
    if any(len(q[k]) != T for k in REQ + OPT):
        return False
    n, m = q['F'][0].shape[0], q['L'][0].shape[1] if q['L'][0].ndim > 1 else -1
    for k in range(T):
        p = q['X'][k].shape[0]
        want = dict(F=(n, n), L=(n, m), X=(p, p), U=(m, m), c=(n,), H=(p, n), r=(p,), Z=(m, m), s=(m,), M=(p, m))
        if any(q[a][k].shape != want[a] for a in want):
            return False
    pT = q['XT'].shape[0]
    return q['XT'].shape == (pT, pT) and q['HT'].shape == (pT, n) and q['rT'].shape == (pT,)


def mutate(rng, a, bad):
    sh = list(a.shape)
    if bad in ('rows', 'both', 'endrows'):
        sh[0] += 1 if rng.random() < 0.6 or sh[0] == 1 else -1
    if bad in ('cols', 'both', 'endcols') and len(sh) > 1:
        sh[1] += 1 if rng.random() < 0.6 or sh[1] == 1 else -1
    if bad == 'rank':
        sh = sh[:-1] + [sh[-1], 1] if rng.random() < 0.5 else sh[:-1]
    if bad == 'transpose':
        return a.T
    return rng.standard_normal(sh)


def check(case):
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'fsc':
        return check_fsc(case, rng)
    T, n, m, p, bad = [case[k] for k in ('T', 'n', 'm', 'p', 'bad')]
    forms = {}
    for k in REQ:
        forms[k] = 'list' if rng.random() < 0.6 else 'shared'
    for k in OPT:
        forms[k] = ['list', 'shared', 'omit'][int(rng.integers(0, 3))]
    for k in END:
        forms[k] = 'shared' if rng.random() < 0.7 else 'omit'
    if case['seed'] % 9 == 0:
        forms.update({k: 'shared' for k in REQ})
    varp = forms['X'] == 'list' and rng.random() < 0.5 and all(forms[k] == 'list' for k in ('H', 'r', 'M'))
    ps = [1 + int(rng.integers(0, 3)) for _ in range(T)] if varp else [p] * T
    pT = p if any(forms[k] == 'omit' for k in END) else 1 + int(rng.integers(0, 3))
    if varp:
        for k in END:
            forms[k] = 'shared'
    sh = lambda k, q: dict(F=(n, n), L=(n, m), X=(q, q), U=(m, m), c=(n,), H=(q, n), r=(q,), Z=(m, m), s=(m,), M=(q, m))[k]
    if varp and any(forms[k] == 'shared' for k in ('H', 'r', 'M')):
        ps = [p] * T
    a, q = {}, {}
    for k in REQ + OPT:
        if forms[k] == 'list':
            a[k] = [rng.standard_normal(sh(k, ps[j])) for j in range(T)]
        elif forms[k] == 'shared':
            a[k] = rng.standard_normal(sh(k, p))
    for k, s in (('XT', (pT, pT)), ('HT', (pT, n)), ('rT', (pT,))):
        if forms[k] == 'shared':
            a[k] = rng.standard_normal(s)
    lists = [k for k in REQ if forms[k] == 'list']
    kw = {}
    if not lists or rng.random() < 0.3:
        kw['T'] = T
    # one inconsistency
    if bad in ('len+', 'len-'):
        c = [k for k in REQ + OPT if forms[k] == 'list']
        if c:
            k = c[int(rng.integers(0, len(c)))]
            a[k] = a[k] + [a[k][-1]] if bad == 'len+' else a[k][:-1]
            if k in REQ:
                kw.pop('T', None)
    elif bad in ('rows', 'cols', 'both', 'rank', 'transpose'):
        c = [k for k in REQ + OPT if forms[k] != 'omit']
        k = c[int(rng.integers(0, len(c)))]
        if forms[k] == 'list':
            j = int(rng.integers(0, T))
            a[k] = list(a[k])
            a[k][j] = mutate(rng, a[k][j], bad)
        else:
            a[k] = mutate(rng, a[k], bad)
    elif bad in ('endrows', 'endcols'):
        c = [k for k in END if forms[k] == 'shared']
        if c:
            k = c[int(rng.integers(0, len(c)))]
            a[k] = mutate(rng, a[k], bad)
    elif bad == 'noT' and not lists:
        kw = {}
    fz = freeze(a)
    # expected expansion
    ok, T2 = True, None
    for k in REQ:
        if isinstance(a[k], list):
            T2 = len(a[k])
            break
    if T2 is None:
        T2 = kw.get('T')
    if T2 is None or T2 == 0:
        ok = False
    try:
        one = lambda k: (a[k][0] if isinstance(a[k], list) else a[k])
        n0, m0, p0 = one('F').shape[0], one('L').shape[1], one('X').shape[0]
        dflt = dict(c=np.zeros(n0), H=np.eye(p0, n0), r=np.zeros(p0), Z=np.eye(m0), s=np.zeros(m0), M=np.zeros((p0, m0)),
                    XT=np.eye(p0), HT=np.eye(p0, n0), rT=np.zeros(p0))
        for k in REQ + OPT:
            v = a.get(k, dflt.get(k))
            q[k] = list(v) if isinstance(v, list) else [v] * (T2 or 0)
        for k in END:
            q[k] = a.get(k, dflt.get(k))
        ok = ok and lqt_consistent(q, T2)
    except (IndexError, ValueError):
        ok = False
    if T2 == 0:
        return      # an empty problem: no stage to be inconsistent
    what = 'forms %s, %s' % ({k: v[0] for k, v in forms.items()}, bad)
    try:
        o = lqt.LQT.checkAndExpand(**a, **kw)
    except Exception as x:
        need(not ok, 'consistent parameters rejected (%s): %r', what, x)
        return
    need(ok, 'inconsistent parameters accepted (%s)', what)
    for k in REQ + OPT:
        g = getattr(o, k)
        need(isinstance(g, list) and len(g) == T2, '%s has not one entry per stage (%s)', k, what)
        for j in range(T2):
            need(np.shape(g[j]) == q[k][j].shape and np.array_equal(g[j], q[k][j]), '%s[%d] is not the given parameter (%s)', k, j, what)
    for k in END:
        need(np.shape(getattr(o, k)) == q[k].shape and np.array_equal(getattr(o, k), q[k]), '%s is not the given parameter (%s)', k, what)
    unchanged(fz, a, what='parameters')


def check_fsc(case, rng):
    T, nx, nu, bad = case['T'], case['n'], case['m'], case['bad']
    ff, lf = [('list', 'list'), ('list', 'shared'), ('shared', 'list'), ('shared', 'shared')][int(rng.integers(0, 4))]
    mkf = lambda: rng.integers(0, nx, (nx, nu))
    it = rng.random() < 0.3
    mkl = lambda: rng.integers(0, 9, (nx, nu)) if it else rng.standard_normal((nx, nu))
    f = [mkf() for _ in range(T)] if ff == 'list' else mkf()
    L = [mkl() for _ in range(T)] if lf == 'list' else mkl()
    LT = None if rng.random() < 0.3 else (rng.integers(0, 9, nx) if it else rng.standard_normal(nx))
    kw = {}
    if (ff, lf) == ('shared', 'shared') or rng.random() < 0.3:
        kw['T'] = T
    which = int(rng.integers(0, 2))
    tgt, form = (f, ff) if which == 0 else (L, lf)
    if bad in ('len+', 'len-') and form == 'list':
        tgt = tgt + [tgt[-1]] if bad == 'len+' else tgt[:-1]
        kw.pop('T', None)
    elif bad in ('rows', 'cols', 'both', 'transpose'):
        j = int(rng.integers(0, T))
        x = (tgt[j] if form == 'list' else tgt).astype(float)
        y = mutate(rng, x, bad)
        y = (np.abs(y) * 0).astype(int) if which == 0 else y
        if form == 'list':
            tgt = list(tgt)
            tgt[j] = y
        else:
            tgt = y
    elif bad == 'endrows' and LT is not None:
        LT = mutate(rng, LT.astype(float), bad)
    elif bad == 'noT':
        kw = {}
    if which == 0:
        f = tgt
    else:
        L = tgt
    T2 = len(f) if isinstance(f, list) else len(L) if isinstance(L, list) else kw.get('T')
    if T2 == 0:
        return
    ok = bool(T2)
    if ok:
        qf = f if isinstance(f, list) else [f] * T2
        qL = L if isinstance(L, list) else [L] * T2
        ok = len(qf) == len(qL) == T2 and all(a.shape == qf[0].shape for a in qf + qL) and (LT is None or LT.shape == (qf[0].shape[0],))
    what = 'f %s, L %s, %s' % (ff, lf, bad)
    fz = freeze(f, L, LT)
    try:
        o = fsc.FSC.checkAndExpand(f, L, LT, **kw)
    except Exception as x:
        need(not ok, 'consistent parameters rejected (%s): %r', what, x)
        return
    need(ok, 'inconsistent parameters accepted (%s)', what)
    for nm, g, q in (('f', o.f, qf), ('L', o.L, qL)):
        need(isinstance(g, list) and len(g) == T2 and all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(g, q)), '%s is not the given parameter per stage (%s)', nm, what)
    wt = np.ones(qf[0].shape[0]) if LT is None else LT
    need(np.shape(o.LT) == wt.shape and np.array_equal(o.LT, wt), 'terminal cost is not the given one or the default (%s)', what)
    unchanged(fz, f, L, LT, what='parameters')
