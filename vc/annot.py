"""Loops verified against a stated invariant (instead of an inferred one)."""
import ast
from . import terms as T
from .values import *


def loops_of(closure, cls=None, depth=2):
    """loops of a function in source order; a function without loops that only delegates stands for the functions it calls"""
    ls = sorted((x for b in closure.node.body for x in ast.walk(b) if isinstance(x, (ast.For, ast.While))),
                key=lambda x: (x.lineno, x.col_offset))
    if ls or not depth:
        return ls
    seen = []
    for b in closure.node.body:
        for x in ast.walk(b):
            if not isinstance(x, ast.Call):
                continue
            f = None
            if isinstance(x.func, ast.Name):
                try:
                    f = closure.frame.lookup(x.func.id)
                except Exception:
                    continue
            elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and cls is not None:
                f = cls.find(x.func.attr)
            if isinstance(f, Closure) and f is not closure and f not in seen:
                seen.append(f)
                ls += loops_of(f, cls, depth - 1)
    return ls


def invariant_loop(it, s, fr, n, bind, setstate, checkstate, what):
    """establish the invariant at 0, preserve it from an arbitrary t < n, continue from it at n"""
    e = it.e
    assigned = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    if isinstance(s, ast.For):
        assigned |= {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    for b in s.body:
        for x in ast.walk(b):
            if isinstance(x, (ast.Break, ast.Return, ast.Nonlocal, ast.Global)):
                raise Unsupported('control flow in a loop with a stated invariant')
    heap = [o for o in list(e.heap)]
    checkstate(T.const(0), what + ': invariant holds on entry')

    def body():
        t = T.fresh('t', T.INT)
        e.assume(T.le(0, t))
        e.assume(T.lt(t, n))
        for v in assigned:
            if v in fr.vars:
                fr.vars[v] = Poison(v)
        setstate(t)
        bind(t)
        before = {id(o): o.snap() for o in heap if o is not fr and not getattr(o, '_inv_managed', False)}
        from .interp import ContinueExc
        try:
            it.exec_body(s.body, fr)
        except ContinueExc:
            pass
        for o in heap:
            if id(o) in before and not _same(o.snap(), before[id(o)]):
                raise Unsupported('loop with a stated invariant modifies other state')
        checkstate(T.add(t, 1), what + ': invariant is preserved')
    outs = e.explore(body)
    for o in outs:
        if o.exc:
            raise Unsupported('exception inside a loop with a stated invariant: %s' % o.exc)
    for v in assigned:
        fr.vars[v] = Poison(v)
    setstate(n)


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_same(a[k], b[k]) for k in a)
    return a == b if isinstance(a, (int, str)) else False


def target_list(s, fr):
    """the one list the loop writes"""
    nm = {x.value.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store)
          and isinstance(x.value, ast.Name)}
    nm = [v for v in nm if isinstance(fr.vars.get(v), PyList)]
    if len(nm) != 1:
        raise Unsupported('loop does not write exactly one list')
    return fr.vars[nm[0]]
