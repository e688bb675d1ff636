"""Contract pieces shared by the TensorFlow modules: parallelism limit of the library scan."""
from .. import terms as T
from ..values import *

I, R = T.INT, T.REAL


def pow2(x):
    return T.app('exp2i', (T.L(x),), I)


def ceil_logs(t, out):
    if isinstance(t, T.Term):
        if t.op == 'app' and t.args[0] == 'ceil' and t.args[1].op == 'app' and t.args[1].args[0] == 'log2':
            out.append((t, t.args[1].args[1]))
        for a in t.args:
            ceil_logs(a, out)
    elif isinstance(t, (tuple, list)):
        for a in t:
            ceil_logs(a, out)
    return out


def install_levels(e):
    """precondition of scan_associative: fewer than 2**(max_num_levels+1) elements.  Facts used about the level count:
    2**(x+1) = 2*2**x, monotonicity, 2**ceil(log2(p)) >= p for p >= 1"""
    def hook(en, n, lv):
        lv = T.L(lv)
        facts = [T.eq(pow2(T.add(lv, 1)), T.mul(T.const(2), pow2(lv))),
                 T.implies(T.le(1, lv), T.le(2, pow2(lv))), T.implies(T.le(0, lv), T.le(1, pow2(lv)))]
        for c, p in ceil_logs(lv, []):
            if p.sort == T.REAL:
                raise Unsupported('level count of a real number')
            facts += [T.implies(T.le(1, p), T.and_(T.le(p, pow2(c)), T.le(0, c))), T.implies(T.le(c, lv), T.le(pow2(c), pow2(lv)))]
        k = len(e.facts)
        e.facts += facts
        e.require_h(T.lt(n, pow2(T.add(lv, 1))), 'scan_associative: element count below 2**(max_num_levels+1)', 'pre')
        del e.facts[k:]
    e.levels_hook = hook
