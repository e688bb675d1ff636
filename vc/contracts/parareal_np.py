"""Contracts for parareal_clqt_np.py (C13).

Ghost state: X[i, k] is the iterate at block boundary k after i iterations, Fi[i, k, .] the fine integration over block k started from
iterate i, Co[i, k, .] the coarse step over block k started from iterate i.  The contract of the update is
X[i+1, k] = Co[i+1, k] + Fi[i, k] - (coarse value of iteration i); the lemma unit derives from exactly these equations that after i
iterations the i boundaries next to the given end equal the fine sequential solution."""
from .clqt_np import *
from .. import smt

PM = 'parallel_control.parareal_clqt_np'
PQ = PM + ':Parareal_CLQT_np.'


def setup(e, niter_given, zoh=None):
    install(e)
    P = CT(e)
    B, n = dims(e)
    it = n
    if niter_given:
        it = T.var('niter', I)
        e.pc.append(T.le(0, it))
    H = T.div(P.tend, T.toreal(B))
    h = T.div(H, T.toreal(n))
    o = Obj(e.load(PM).g.vars['Parareal_CLQT_np'])
    o.f['clqt'] = P.obj('CLQT')
    return P, B, n, it, H, h, o


class Iter:
    """the iterates; comps: state components; back: value functions (given at boundary B, swept down) or forward (given at 0, swept up)"""

    def __init__(self, e, P, B, n, it, H, h, comps, rhs, back, fixed, par=None, tag='', rev=None, stack=None):
        self.e, self.P, self.B, self.n, self.back, self.comps, self.fixed = e, P, B, n, back, comps, fixed
        d = -1 if back else 1
        self.stack = stack
        self.end = B if back else T.const(0)
        # rev: which of the loops over blocks run from the last block to the first
        rev = rev or {'Fi': back, 'Co': back, 'Fin': back}
        ftime = lambda k, j: T.mul(T.add(T.mul(T.toreal(k), T.toreal(n)), T.toreal(j)), h)
        ctime = lambda k, j: T.mul(T.add(T.toreal(k), T.toreal(j)), H)
        src = (lambda k: T.add(k, 1)) if back else (lambda k: k)
        blk = lambda fam, st, q: T.sub(T.sub(B, 1), st[q][0]) if rev[fam] else st[q][0]
        sN = n if back else T.const(0)
        s1 = T.const(1 if back else 0)
        par = par or {}
        mk = lambda nm, start, init, time, hh, outer, pr: Family(P, tag + nm, comps, rhs, d, start, init, time, hh, outer, pr)
        self.G0 = mk('G0', B if back else T.const(0), lambda c: fixed[c], lambda k: T.mul(T.toreal(k), H), H, (), par.get('G0'))
        o2 = [lambda st: st[0][0], lambda st: blk('Fi', st, 1)]
        o2n = [lambda st: T.add(st[0][0], 1), lambda st: blk('Co', st, 1)]
        self.Fi = mk('Fi', sN, lambda c, i, k: self.X(c, i, src(k)), lambda i, k, j: ftime(k, j), h, o2, par.get('Fi'))
        self.Co = mk('Co', s1, lambda c, i, k: self.X(c, i, src(k)), lambda i, k, j: ctime(k, j), H, o2n, par.get('Co'))
        self.Fin = mk('Fin', sN, lambda c, k: self.X(c, it, src(k)), lambda k, j: ftime(k, j), h, [lambda st: blk('Fin', st, 0)], par.get('Fin'))
        self.res = T.const(0) if back else n       # grid index of the result of a fine block pass
        self.res1 = T.const(0 if back else 1)
        self.blkof = (lambda k: k) if back else (lambda k: T.sub(k, 1))     # the block whose integration yields boundary k
        self.xs, self.gs = {}, {}
        for c in comps:
            self.specs(c, tag)

    def specs(self, c, tag):
        e, P = self.e, self.P

        def base(eng, i, k):
            if eng.entails_h(T.eq(k, self.end)):
                return self.fixed[c]
            if eng.entails_h(T.eq(i, 0)):
                return self.G0.at(c, k)

        def stepX(eng, i, k):
            if not eng.entails_h(T.and_(T.lt(0, i), T.not_(T.eq(k, self.end)))):
                return None
            b, i1 = self.blkof(k), T.sub(i, 1)
            return ad(sb(self.Co.at(c, i, b, self.res1), self.G(c, i1, k)), self.Fi.at(c, i1, b, self.res))

        def stepG(eng, i, k):
            if not eng.entails_h(T.and_(T.lt(0, i), T.not_(T.eq(k, self.end)))):
                return None
            return self.Co.at(c, i, self.blkof(k), self.res1)
        sh = self.Fi.shape(c)
        sx = Spec(tag + 'X' + c, sh, stepX, sym=c in SYM, recursive=True, pred=lambda i, k: (T.sub(i, 1), k), family=(tag + 'X' + c, tag + 'G' + c), base=base)
        sg = Spec(tag + 'G' + c, sh, stepG, sym=c in SYM, recursive=True, pred=lambda i, k: (T.sub(i, 1), k), family=(tag + 'X' + c, tag + 'G' + c), base=base)
        self.xs[c], self.gs[c] = sx, sg
        n1 = T.add(self.B, 1)
        for s in (sx, sg):
            e.specs[s.name] = s
            e.templates.append(Template('list ' + s.name, lambda i, s=s: (self.stack or (lambda n_, f, sh: tl(n_, f)))(n1, lambda k: self.arr(s, i, k), sh), [T.const(0)], (1,)))
        d = -1 if self.back else 1

        def nxt(k):
            if not e.loop_stack:
                raise Unsupported('template outside its loop nest')
            return self.arr(sx, T.add(e.loop_stack[0][0], 1), k)
        e.templates.append(Template(sx.name, nxt, [self.end], (d,)))

    def arr(self, s, i, k):
        k = T.L(k)
        if k is self.end or self.e.entails(T.eq(k, self.end)):
            return mat(self.P, self.fixed[s.name[-1]], self.Fi.shape(s.name[-1]))
        return mat(self.P, s.at(i, k), self.Fi.shape(s.name[-1]))

    def X(self, c, i, k):
        return self.arr(self.xs[c], i, k).data

    def G(self, c, i, k):
        return self.arr(self.gs[c], i, k).data


def bw_unit(given):
    @unit('C13', 'parareal_clqt_np.backwardPass' + ('' if given else '[default iterations]'),
          [PQ + x for x in ('backwardPass', 'initBackwardPass', 'denseBackwardPass', 'coarseBackwardPass', 'finalBackwardPass')] +
          [Q + 'CLQT.seqBackwardPass', Q + 'CLQT.riccati_ode_f'])
    def body(e):
        P, B, n, it, H, h, o = setup(e, given)
        fam = Iter(e, P, B, n, it, H, h, ['S', 'v'], rhs_riccati, True, {'S': P.ST, 'v': P.vT})

        def th():
            fam.Fi.lemma_symmetry()
            fr = frame_of(o.f['clqt'])
            r = e.call(meth(e, o, 'backwardPass'), [B, n] + ([it] if given else []))
            K, d, S, v = r
            w = 'backwardPass'
            F = fam.Fin
            time = lambda k, i: F.time(k, i)
            end = lambda c: mat(P, fam.fixed[c], F.shape(c))
            check_list(e, S, nest(e, B, n, lambda k, i: F.arr('S', k, i), end('S')), w + ': value matrices at every fine grid point, in time order')
            check_list(e, v, nest(e, B, n, lambda k, i: F.arr('v', k, i), end('v')), w + ': value vectors at every fine grid point, in time order')
            lk = lambda k, i: law(P, F.at('S', k, i), F.at('v', k, i), time(k, i))
            check_list(e, K, nest(e, B, n, lambda k, i: mat(P, lk(k, i)[0], (P.m, P.n))), w + ': gains of every fine step, in time order')
            check_list(e, d, nest(e, B, n, lambda k, i: mat(P, lk(k, i)[1], (P.m,))), w + ': offsets of every fine step, in time order')
            check_frame(e, o.f['clqt'], fr, w)
        return th


for g in (True, False):
    bw_unit(g)


def fw_unit(zoh, given):
    @unit('C13', 'parareal_clqt_np.forwardPass[%s%s]' % ('zero-order hold' if zoh else 'feedback', '' if given else ', default iterations'),
          [PQ + x for x in ('forwardPass', 'initForwardPass', 'denseForwardPass', 'coarseForwardPass', 'finalForwardPass')] + [Q + 'CLQT.seqForwardPass'])
    def body(e):
        P, B, n, it, H, h, o = setup(e, given)
        Kf, df, K, d = given_law(P, T.mul(B, n))
        # step k*n + j of the law on the fine grid; the coarse step over block k uses the law at the start of the block
        fi = lambda k, j: T.add(T.mul(k, n), j)
        co = lambda k, j: T.mul(T.add(k, j), n)

        box = []

        def mkpar(name, gi):
            def p(*ix):
                g = gi(*ix)
                return control(P, Kf, df, g, getattr(box[0], name).at('x', *ix)) if zoh else (Kf(g), df(g))
            return p
        pars = {'G0': mkpar('G0', lambda k: T.mul(k, n)), 'Fi': mkpar('Fi', lambda i, k, j: fi(k, j)),
                'Co': mkpar('Co', lambda i, k, j: co(k, j)), 'Fin': mkpar('Fin', fi)}
        fam = Iter(e, P, B, n, it, H, h, ['x'], rhs_zoh if zoh else rhs_closed, False, {'x': P.x0.data}, pars)
        box.append(fam)

        def th():
            fr = frame_of(o.f['clqt'])
            r = e.call(meth(e, o, 'forwardPass'), [B, n, P.x0, K, d], dict(u_zoh=zoh, **({'niter': it} if given else {})))
            F = fam.Fin
            check_two(e, r, nest(e, B, n, lambda k, i: mat(P, control(P, Kf, df, fi(k, i), F.at('x', k, i)), (P.m,))),
                      nest(e, B, n, lambda k, i: F.arr('x', k, i), F.arr('x', T.sub(B, 1), n)), 'forwardPass')
            check_frame(e, o.f['clqt'], fr, 'forwardPass')
        return th


for z in (False, True):
    fw_unit(z, True)
fw_unit(False, False)


def fb_unit(given):
    @unit('C13', 'parareal_clqt_np.fwdBwdPass' + ('' if given else '[default iterations]'),
          [PQ + x for x in ('fwdBwdPass', 'initFwdBwdPass', 'denseFwdBwdPass', 'coarseFwdBwdPass', 'finalFwdBwdPass')] +
          [Q + 'CLQT.seqFwdBwdPass', Q + 'CLQT.fwdbwdpass_ode_f'], timeout=400)
    def body(e):
        P, B, n, it, H, h, o = setup(e, given)
        nn = (P.n, P.n)
        fam = Iter(e, P, B, n, it, H, h, ['A', 'b', 'C'], rhs_fw, False, {'A': N.zero(nn), 'b': P.x0.data, 'C': N.zero(nn)})

        def th():
            fam.Fi.lemma_symmetry()
            fr = frame_of(o.f['clqt'])
            r = e.call(meth(e, o, 'fwdBwdPass'), [B, n, P.x0], {'niter': it} if given else {})
            F = fam.Fin
            for q, c in enumerate('AbC'):
                check_list(e, r[q], nest(e, B, n, lambda k, i, c=c: F.arr(c, k, i), F.arr(c, T.sub(B, 1), n)),
                           'fwdBwdPass: forward value functions at every fine grid point, in time order (%s)' % c)
            check_frame(e, o.f['clqt'], fr, 'fwdBwdPass')
        return th


for g in (True, False):
    fb_unit(g)


@unit('C13', 'parareal: the iteration equations make boundary k exact after k iterations', [])
def lemma_unit(e):
    """X(i, k): iterate i at the k-th boundary counted from the given end; fine(k) the fine solution; G(k, x), C(k, x) the fine and
    coarse solution operators of the k-th block (functions of their start value).  Uninterpreted throughout; the only law used is
    (g + f) - g = f."""
    import z3
    V = z3.DeclareSort('V')
    Z = z3.IntSort()
    X, fine = z3.Function('X', Z, Z, V), z3.Function('fine', Z, V)
    F, C = z3.Function('F', Z, V, V), z3.Function('C', Z, V, V)
    upd = z3.Function('upd', V, V, V, V)       # upd(new coarse, fine, old coarse) = new + fine - old
    g, f = z3.Consts('g f', V)
    i, k = z3.Ints('i k')
    B, I0, K0 = z3.Ints('B i0 k0')
    ax = [z3.ForAll([g, f], upd(g, f, g) == f, patterns=[upd(g, f, g)]),
          z3.ForAll([i], z3.Implies(i >= 0, X(i, 0) == fine(0)), patterns=[X(i, 0)]),
          z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < B), fine(k + 1) == F(k, fine(k))), patterns=[F(k, fine(k))]),
          z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, 0 <= k, k < B), X(i + 1, k + 1) == upd(C(k, X(i + 1, k)), F(k, X(i, k)), C(k, X(i, k)))),
                    patterns=[z3.MultiPattern(X(i + 1, k), X(i, k))])]

    def th():
        def ask(hyp, goal, label):
            s = z3.Solver()
            s.set('timeout', 10000)
            s.add(ax + hyp)
            if s.check() == z3.unsat:
                raise RuntimeError('inconsistent lemma hypotheses')
            s.add(z3.Not(goal))
            r = s.check()
            e.obl(label, 'proved' if r == z3.unsat else 'unknown', '', 'lemma', 'z3')
        ask([I0 >= 0, B >= 1], X(I0, 0) == fine(0), 'lemma: the given boundary is exact in every iterate')
        # outer induction over i (hypothesis: the first i0 boundaries of iterate i0), inner induction over k
        hyp = [I0 >= 0, B >= 1, 0 <= K0, K0 < B, K0 + 1 <= I0 + 1,
               z3.Implies(K0 <= I0, X(I0, K0) == fine(K0)), X(I0 + 1, K0) == fine(K0)]
        ask(hyp, X(I0 + 1, K0 + 1) == fine(K0 + 1), 'lemma: boundary k+1 of iterate i+1 is exact when k <= i, iterate i is exact at k and iterate i+1 at k')
        # the update of the code has this form
        nn = (T.var('n', I), T.var('n', I))
        a, b = N.of_atom(N.atom('lg', nn)), N.of_atom(N.atom('lf', nn))
        e.prove_zero(sb(ad(sb(a, a), b), b), 'lemma: new coarse value minus equal old coarse value plus fine value is the fine value', 'lemma')
        # the fine grid of the blocks is the grid of one sequential pass with blocks*steps steps
        Bt, n, k0, j0, Te = T.var('blocks', I), T.var('steps', I), T.var('k0', I), T.var('j0', I), T.var('Tend', R)
        e.assume(T.le(1, Bt))
        e.assume(T.le(1, n))
        h = T.div(T.div(Te, T.toreal(Bt)), T.toreal(n))
        seq = T.div(Te, T.toreal(T.mul(Bt, n)))
        e.prove_bool(T.eq(T.mul(T.add(T.mul(T.toreal(k0), T.toreal(n)), T.toreal(j0)), h),
                          T.mul(T.toreal(T.add(T.mul(k0, n), j0)), seq)), 'lemma: fine time of step j in block k is the time of grid point k*steps+j')
        e.prove_bool(T.eq(h, seq), 'lemma: fine step is the step of the sequential pass with blocks*steps steps')
    return th
