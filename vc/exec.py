"""AST interpreter: statements, expressions, calls, loops."""
import ast
from fractions import Fraction
import itertools
from . import terms as T
from . import ncalg as N
from . import smt
from .values import *
from . import values as V
from . import arrops as A


def _interp():
    from . import interp
    return interp


NUM = (int, Fraction)


def is_num(x):
    return isinstance(x, NUM) and not isinstance(x, bool)


def lower(x):
    """Term constants -> python numbers"""
    if isinstance(x, T.Term):
        if x.op == 'const':
            c = T.cval(x)
            return int(c) if x.sort == T.INT else c
        if x is T.TRUE:
            return True
        if x is T.FALSE:
            return False
    return x


def term(x):
    if isinstance(x, T.Term):
        return x
    if isinstance(x, bool):
        return T.TRUE if x else T.FALSE
    if isinstance(x, int):
        return T.const(x)
    if isinstance(x, Fraction):
        return T._mk('const', (x,), T.REAL)
    if isinstance(x, Arr) and x.ndim == 0:
        return A.to_scalar_term(x)
    raise Unsupported('scalar expected, got %r' % (type(x).__name__,))


BUILTIN_EXC = ('ValueError', 'TypeError', 'Exception', 'RuntimeError', 'NotImplementedError', 'AssertionError',
               'IndexError', 'KeyError', 'ZeroDivisionError')


class Interp:
    def __init__(self, eng, module):
        self.e = eng
        self.m = module

    # ================================================================ statements
    def exec_body(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        getattr(self, 's_' + type(s).__name__, self.s_unsup)(s, fr)

    def s_unsup(self, s, fr):
        raise Unsupported('statement %s at line %s' % (type(s).__name__, getattr(s, 'lineno', '?')))

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Import(self, s, fr):
        for a in s.names:
            nm = a.name
            if a.asname:
                fr.vars[a.asname] = self.imp(nm)
            else:
                top = nm.split('.')[0]
                fr.vars[top] = self.imp(top)

    def s_ImportFrom(self, s, fr):
        base = s.module or ''
        for a in s.names:
            if a.name == '*':
                raise Unsupported('import *')
            key = base + '.' + a.name
            if base.split('.')[0] == 'parallel_control':
                import os
                p = os.path.join(_interp().REPO, *base.split('.'), a.name + '.py')
                if os.path.exists(p):
                    v = self.e.load(key)
                else:
                    m = self.e.load(base)
                    v = m.g.vars.get(a.name)
                    if v is None:
                        raise Unsupported('import %s' % key)
            else:
                mod = self.imp(base)
                v = self.attr(mod, a.name) if not (isinstance(mod, ModVal) and mod.g is None) else ModVal(key, None)
            fr.vars[a.asname or a.name] = v

    def imp(self, nm):
        if nm.split('.')[0] == 'parallel_control':
            import os
            if os.path.isdir(os.path.join(_interp().REPO, *nm.split('.'))):
                raise Unsupported('package import')
            return self.e.load(nm)
        if nm in self.e.shims:
            return self.e.shims[nm]
        return ModVal(nm, None)          # unknown module: only its use is unsupported

    def s_FunctionDef(self, s, fr):
        f = self.mkfun(s, fr, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            if isinstance(dv, Builtin) and dv.name in ('classmethod', 'staticmethod', 'property'):
                f = (dv.name, f)
            elif isinstance(dv, Builtin):
                f = dv.fn(self, [f], {})
            else:
                raise Unsupported('decorator')
        fr.vars[s.name] = f

    def mkfun(self, s, fr, name):
        dfl = tuple(self.ev(d, fr) for d in s.args.defaults)
        kwd = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        mod = self.m
        q = (mod.name + ':' if mod else '') + (getattr(fr, 'clsname', '') + '.' if getattr(fr, 'clsname', '') else '') + name
        return Closure(s, fr, self.m, name, dfl, kwd, q)

    def s_ClassDef(self, s, fr):
        c = ClassVal(s.name, self.m)
        for b in s.bases:
            bv = self.ev(b, fr)
            if isinstance(bv, ClassVal):
                c.bases.append(bv)
        f2 = Frame(fr, s.name)
        f2.clsname = s.name
        self.exec_body(s.body, f2)
        for k, v in f2.vars.items():
            if isinstance(v, Closure):
                v.frame = fr
            if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], Closure):
                v[1].frame = fr
            c.f[k] = v
        fr.vars[s.name] = c

    def s_Return(self, s, fr):
        raise _interp().ReturnExc(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise _interp().BreakExc()

    def s_Continue(self, s, fr):
        raise _interp().ContinueExc()

    def s_Raise(self, s, fr):
        e = s.exc
        nm = 'Exception'
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            nm = e.id
        elif isinstance(e, ast.Attribute):
            nm = e.attr
        raise PyRaise(nm, 'line %d' % s.lineno)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise('AssertionError', 'line %d' % s.lineno)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, fr)
        elif isinstance(t, ast.Attribute):
            ob = self.ev(t.value, fr)
            old = self.attr(ob, t.attr)
        elif isinstance(t, ast.Subscript):
            ob = self.ev(t.value, fr)
            ix = self.index(t.slice, fr)
            old = self.getitem(ob, ix)
        else:
            raise Unsupported('augassign')
        rhs = self.ev(s.value, fr)
        if isinstance(old, Arr) and old.ndim > 0 and old.lib == 'np':
            # numpy in-place operator mutates the array object
            new = self.binop(s.op, old, rhs)
            A.inplace(self.e, old, new)
            val = old
        elif isinstance(old, PyList) and isinstance(s.op, ast.Add):
            r = self.as_seq(rhs)
            old.seq = Seq(old.seq.segs + r.segs)
            val = old
        else:
            val = self.binop(s.op, old, rhs)
        if isinstance(t, ast.Name):
            self.setname(t.id, val, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(ob, t.attr, val)
        else:
            self.setitem(ob, ix, val)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_Nonlocal(self, s, fr):
        for n in s.names:
            fr.__dict__.setdefault('nl', set()).add(n)

    def s_Global(self, s, fr):
        for n in s.names:
            fr.__dict__.setdefault('nl', set()).add(n)

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.exec_body(s.body, fr)
        else:
            self.exec_body(s.orelse, fr)

    def s_With(self, s, fr):
        opened = []
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if isinstance(v, CtxVal):
                opened.append(v)
                v = v.enter(self)
            elif not (isinstance(v, Opaque)):
                raise Unsupported('with')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        try:
            self.exec_body(s.body, fr)
        finally:
            for v in reversed(opened):
                v.exit(self)

    def s_Try(self, s, fr):
        raise Unsupported('try')

    # ---------------------------------------------------------------- loops
    def s_For(self, s, fr):
        h = self.e.loop_handlers.get(id(s))
        if h is not None:
            return h(self, s, fr)
        it = self.ev(s.iter, fr)
        seq = self.iter_seq(it)
        self._loop_broke = False
        off, mixed = T.const(0), len(seq.segs) > 1
        for seg in seq.segs:
            if seg.items is not None:
                for q, x in enumerate(list(seg.items)):
                    self.assign(s.target, x, fr)
                    if mixed:
                        self.e.loop_stack.append((T.add(off, q), seq.length()))
                    try:
                        self.exec_body(s.body, fr)
                    except _interp().BreakExc:
                        return
                    except _interp().ContinueExc:
                        pass
                    finally:
                        if mixed:
                            self.e.loop_stack.pop()
            else:
                n = lower(seg.n)
                if isinstance(n, int):
                    for i in range(n):
                        self.assign(s.target, lower(seg.fn(T.const(i))), fr)
                        try:
                            self.exec_body(s.body, fr)
                        except _interp().BreakExc:
                            return
                        except _interp().ContinueExc:
                            pass
                else:
                    from . import loops
                    if self.e.peel and not self.e.loop_stack and self.e.entails(T.le(1, T.L(seg.n))):
                        # for j in range(n), n >= 1: the first n-1 iterations, then the last one
                        n1 = T.sub(T.L(seg.n), 1)
                        loops.sym_for(self, Seg(n1, seg.fn), s, fr, off)
                        self.assign(s.target, lower(seg.fn(n1)), fr)
                        self.e.loop_stack.append((T.add(off, n1), seq.length()))
                        try:
                            self.exec_body(s.body, fr)
                        except _interp().BreakExc:
                            return
                        except _interp().ContinueExc:
                            pass
                        finally:
                            self.e.loop_stack.pop()
                    else:
                        loops.sym_for(self, seg, s, fr, off)
            if mixed:
                off = T.add(off, T.L(seg.n) if seg.items is None else len(seg.items))
        self.exec_body(s.orelse, fr)

    def s_While(self, s, fr):
        from . import loops
        h = self.e.loop_handlers.get(id(s))
        if h is not None:
            return h(self, s, fr)
        k = 0
        while True:
            c = self.guard(s.test, fr)
            tv = self.static_truth(c)
            if tv is None or (tv and not k and self.symbolic_guard(c)):
                loops.sym_while(self, s, fr, k)
                return
            if not tv:
                break
            try:
                self.exec_body(s.body, fr)
            except _interp().BreakExc:
                return
            except _interp().ContinueExc:
                pass
            k += 1
            if k > 5000:
                raise Unsupported('while unrolling')

    def symbolic_guard(self, c):
        """the guard holds, but because of the path condition: the first iteration is not peeled off, so that iteration numbers stay
        those of the program"""
        return isinstance(c, T.Term) and bool(T.free_vars(c))

    def guard(self, t, fr):
        """loop guard as one formula (a conjunction or disjunction of comparisons does not fork the path)"""
        if isinstance(t, ast.BoolOp) and all(isinstance(x, (ast.Compare, ast.BoolOp)) for x in t.values):
            isand = isinstance(t.op, ast.And)
            acc = None
            for x in t.values:
                v = self.guard(x, fr)
                if isinstance(v, bool) or v is T.TRUE or v is T.FALSE:
                    if (v is True or v is T.TRUE) != isand:
                        return not isand
                    continue
                if not (isinstance(v, T.Term) and v.sort == T.BOOL):
                    return self.ev(t, fr)
                acc = v if acc is None else (T.and_(acc, v) if isand else T.or_(acc, v))
            return isand if acc is None else acc
        return self.ev(t, fr)

    def static_truth(self, c):
        """truth value if decided by the path condition, else None"""
        if isinstance(c, T.Term):
            if c.sort != T.BOOL:
                c = T.ne(c, 0)
            if c is T.TRUE or self.e.entails(c):
                return True
            if c is T.FALSE or self.e.entails(T.not_(c)):
                return False
            return None
        return self.truth(c)

    def iter_seq(self, it):
        """iterable -> Seq"""
        if isinstance(it, RangeVal):
            lo, hi, st = term(it.lo), term(it.hi), it.step
            if all(isinstance(lower(x), int) for x in (lo, hi)):
                return Seq([Seg(items=list(range(lower(lo), lower(hi), st)))])
            if st == 1:
                n = T.sub(hi, lo)
            elif st == -1:
                n = T.sub(lo, hi)
            elif st > 0:
                n = T.idiv(T.add(T.sub(hi, lo), st - 1), T.const(st))
            else:
                n = T.idiv(T.add(T.sub(lo, hi), -st - 1), T.const(-st))
            if not self.e.entails(T.le(0, n)):
                if not self.e.branch(T.le(0, n)):
                    return Seq([])
            return Seq([Seg(n, lambda i: T.add(lo, T.mul(T.const(st), i)))])
        return self.as_seq(it)

    def as_seq(self, it):
        if isinstance(it, Seq):
            return it
        if isinstance(it, PyList):
            return it.seq
        if isinstance(it, tuple):
            return Seq([Seg(items=list(it))])
        if isinstance(it, Arr):
            return A.rows(self.e, it)
        if isinstance(it, RangeVal):
            return self.iter_seq(it)
        if isinstance(it, PyDict):
            return Seq([Seg(items=list(it.d.keys()))])
        if isinstance(it, str):
            return Seq([Seg(items=list(it))])
        raise Unsupported('iteration over %r' % (type(it).__name__,))

    # ================================================================ assignment
    def setname(self, n, v, fr):
        if 'nl' in fr.__dict__ and n in fr.nl:
            f = fr.parent
            while f is not None and n not in f.vars:
                f = f.parent
            if f is None:
                raise Unsupported('nonlocal')
            f.vars[n] = v
            return
        fr.vars[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            seq = self.as_seq(v)
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                items = self.concrete_items(seq)
                k = star[0]
                post = len(t.elts) - k - 1
                for x, y in zip(t.elts[:k], items[:k]):
                    self.assign(x, y, fr)
                self.assign(t.elts[k].value, PyList(items[k:len(items) - post]), fr)
                for x, y in zip(t.elts[k + 1:], items[len(items) - post:]):
                    self.assign(x, y, fr)
                return
            items = self.concrete_items(seq, len(t.elts))
            if len(items) != len(t.elts):
                raise PyRaise('ValueError', 'unpack')
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.index(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def concrete_items(self, seq, want=None):
        c = seq.concrete()
        if c is not None:
            return c
        n = lower(seq.length())
        if isinstance(n, int):
            return [seq.get(T.const(i), self.e) for i in range(n)]
        if want is not None and self.e.dim_eq(n, want):
            return [seq.get(T.const(i), self.e) for i in range(want)]
        raise Unsupported('unpacking a sequence of symbolic length')

    def setattr(self, ob, a, v):
        if isinstance(ob, Obj):
            ob.f[a] = v
        else:
            raise Unsupported('setattr on %r' % type(ob).__name__)

    def setitem(self, ob, ix, v):
        if isinstance(ob, PyList):
            from . import loops
            loops.list_write(self, ob, ix, v)
        elif isinstance(ob, PyDict):
            if not isinstance(ix, (str, int)):
                raise Unsupported('dict key')
            ob.d[ix] = v
        elif isinstance(ob, Arr):
            A.write(self.e, ob, ix, v)
        else:
            raise Unsupported('setitem on %r' % type(ob).__name__)

    # ================================================================ expressions
    def ev(self, x, fr):
        return getattr(self, 'e_' + type(x).__name__, self.e_unsup)(x, fr)

    def e_unsup(self, x, fr):
        raise Unsupported('expression %s at line %s' % (type(x).__name__, getattr(x, 'lineno', '?')))

    def e_Constant(self, x, fr):
        v = x.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if v is Ellipsis:
            return ELLIPSIS
        if isinstance(v, complex):
            raise Unsupported('complex')
        return v

    def e_Name(self, x, fr):
        return self.name(x.id, fr)

    def name(self, n, fr):
        try:
            v = fr.lookup(n)
        except KeyError:
            v = self.builtin(n)
        if isinstance(v, Lazy):
            v = v.fn()
            f = fr
            while n not in f.vars:
                f = f.parent
            f.vars[n] = v
        if isinstance(v, Poison):
            raise NeedCarried(v)
        return v

    def e_Tuple(self, x, fr):
        return tuple(self.elts(x.elts, fr))

    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out += self.concrete_items(self.as_seq(self.ev(e.value, fr)))
            else:
                out.append(self.ev(e, fr))
        return out

    def e_List(self, x, fr):
        return PyList(self.elts(x.elts, fr))

    def e_Dict(self, x, fr):
        return PyDict({self.ev(k, fr): self.ev(v, fr) for k, v in zip(x.keys, x.values)})

    def e_JoinedStr(self, x, fr):
        return '<fstring>'

    def e_Lambda(self, x, fr):
        return self.mkfun(x, fr, '<lambda>')

    def e_IfExp(self, x, fr):
        return self.ev(x.body if self.truth(self.ev(x.test, fr)) else x.orelse, fr)

    def e_NamedExpr(self, x, fr):
        v = self.ev(x.value, fr)
        self.assign(x.target, v, fr)
        return v

    def e_BoolOp(self, x, fr):
        v = None
        for e in x.values:
            v = self.ev(e, fr)
            tv = self.truth(v)
            if isinstance(x.op, ast.And) and not tv:
                return v if not isinstance(v, T.Term) else False
            if isinstance(x.op, ast.Or) and tv:
                return v if not isinstance(v, T.Term) else True
        return v

    def e_UnaryOp(self, x, fr):
        v = self.ev(x.operand, fr)
        if isinstance(x.op, ast.Not):
            return not self.truth(v)
        if isinstance(x.op, ast.USub):
            if is_num(v) or isinstance(v, bool):
                return -v
            if isinstance(v, T.Term):
                return lower(T.neg(v))
            return A.neg(self.e, v)
        if isinstance(x.op, ast.UAdd):
            return v
        if isinstance(x.op, ast.Invert) and isinstance(v, Arr):
            return A.emap(self.e, lambda t: T.not_(t), v, 'b')
        raise Unsupported('unary')

    def e_BinOp(self, x, fr):
        a = self.ev(x.left, fr)
        b = self.ev(x.right, fr)
        return self.binop(x.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, TypeTag) or isinstance(b, TypeTag):
            raise Unsupported('arithmetic on types')
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(op, ast.Add):
                return A.add(self.e, a, b)
            if isinstance(op, ast.Sub):
                return A.sub(self.e, a, b)
            if isinstance(op, ast.Mult):
                return A.emul(self.e, a, b)
            if isinstance(op, ast.MatMult):
                return A.matmul(self.e, a, b)
            if isinstance(op, ast.Div):
                return A.ediv(self.e, a, b)
            if isinstance(op, ast.Pow):
                return A.epow(self.e, a, b)
            if isinstance(op, ast.BitAnd):
                return A.elementwise(self.e, T.and_, a, b, 'b')
            if isinstance(op, ast.BitOr):
                return A.elementwise(self.e, T.or_, a, b, 'b')
            raise Unsupported('array operator %s' % type(op).__name__)
        if isinstance(op, ast.Mult):
            # list replication
            for p, q in ((a, b), (b, a)):
                if isinstance(p, PyList) and (is_num(q) or isinstance(q, T.Term)):
                    return self.replicate(p.seq, q)
                if isinstance(p, tuple) and isinstance(q, int):
                    return p * q
                if isinstance(p, str) and isinstance(q, int):
                    return p * q
        if isinstance(op, ast.Add):
            if isinstance(a, StrVal) or isinstance(b, StrVal):
                p, q = [StrVal([]) if isinstance(v, str) and not v else v for v in (a, b)]
                if isinstance(p, StrVal) and isinstance(q, StrVal):
                    return StrVal(Seq(p.seq.segs + q.seq.segs))
                raise Unsupported('string concatenation')
            if isinstance(a, PyList) and isinstance(b, PyList):
                return PyList(Seq(a.seq.segs + b.seq.segs))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, str) and isinstance(b, str):
                return a + b
        if is_num(a) and is_num(b):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
            if isinstance(op, ast.Div):
                if b == 0:
                    raise PyRaise('ZeroDivisionError')
                return Fraction(a) / Fraction(b)
            if isinstance(op, ast.FloorDiv):
                return a // b
            if isinstance(op, ast.Mod):
                return a % b
            if isinstance(op, ast.Pow):
                if isinstance(b, int):
                    return a ** b if b >= 0 else Fraction(a) ** b
                raise Unsupported('fractional power')
            raise Unsupported('operator')
        ta, tb = term(a), term(b)
        if isinstance(op, ast.Add):
            return lower(T.add(ta, tb))
        if isinstance(op, ast.Sub):
            return lower(T.sub(ta, tb))
        if isinstance(op, ast.Mult):
            return lower(T.mul(ta, tb))
        if isinstance(op, ast.Div):
            return lower(T.div(ta, tb))
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and ta.sort == T.INT and tb.sort == T.INT and not T.is_const(tb) and self.e.entails(T.le(1, tb)):
            return lower(divmod_terms(self.e, ta, tb)[isinstance(op, ast.Mod)])
        if isinstance(op, ast.FloorDiv):
            return lower(T.idiv(ta, tb))
        if isinstance(op, ast.Mod):
            return lower(T.imod(ta, tb))
        if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 6:
            r = T.const(1)
            for _ in range(b):
                r = T.mul(r, ta)
            return lower(r)
        if isinstance(op, ast.Pow) and a == 2:
            return T.app('pow2', (tb,), T.INT)
        if isinstance(op, ast.Pow) and ta.sort == T.INT and tb.sort == T.INT:
            # integer power with a symbolic exponent: positive for a positive base, n * n**(k-1) = n**k
            self.e.require(T.le(0, tb), 'exponent is non-negative')
            r = T.app('ipow', (ta, tb), T.INT)
            for f in (T.implies(T.le(1, ta), T.le(1, r)), T.implies(T.eq(tb, 0), T.eq(r, 1)),
                      T.implies(T.le(1, tb), T.eq(r, T.mul(ta, T.app('ipow', (ta, T.sub(tb, 1)), T.INT))))):
                if f not in self.e.facts:
                    self.e.facts.append(f)
            return lower(r)
        raise Unsupported('operator %s' % type(op).__name__)

    def replicate(self, seq, q):
        q = lower(q)
        if isinstance(q, int):
            segs = []
            for _ in range(max(q, 0)):
                segs += seq.segs
            return PyList(Seq(segs))
        c = seq.concrete()
        if c is None or len(c) != 1:
            raise Unsupported('list replication')
        x = c[0]
        if not self.e.entails(T.le(0, q)):
            if not self.e.branch(T.le(0, q)):
                return PyList([])
        return PyList(Seq([Seg(q, lambda i: x)]))

    def e_Compare(self, x, fr):
        a = self.ev(x.left, fr)
        res = True
        for op, ce in zip(x.ops, x.comparators):
            b = self.ev(ce, fr)
            r = self.compare(op, a, b)
            if len(x.ops) == 1:
                return r
            if not self.truth(r):
                return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
                if isinstance(a, (Obj, Arr, PyList)) and isinstance(b, (Obj, Arr, PyList)):
                    r = a is b
                return r if isinstance(op, ast.Is) else not r
            r = a is b
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, PyDict):
                r = a in b.d
            else:
                items = self.concrete_items(self.as_seq(b))
                r = False
                for y in items:
                    if self.truth(self.compare(ast.Eq(), a, y)):
                        r = True
                        break
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, tuple) and isinstance(b, tuple):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if len(a) != len(b):
                    r = False
                else:
                    cs = []
                    for p, q in zip(a, b):
                        c = self.compare(ast.Eq(), p, q)
                        cs.append(term(c))
                    r = lower(T.and_(*cs)) if cs else True
                if isinstance(op, ast.NotEq):
                    return lower(T.not_(term(r)))
                return r
            raise Unsupported('tuple ordering')
        if isinstance(a, StrVal) and isinstance(b, StrVal) and isinstance(op, (ast.Eq, ast.NotEq)):
            # equal lengths and equal characters everywhere
            n, p, q = a.seq.length(), a.seq, b.seq
            if any(len(x.segs) > 1 or x.segs and x.segs[0].items is not None and len(x.segs[0].items) > 1 for x in (p, q)):
                raise Unsupported('comparison of composed strings')
            ch = lambda x, j: T.L(x.segs[0].items[0] if x.segs[0].items is not None else x.segs[0].fn(j))
            r = T.eq(n, q.length())
            if p.segs and q.segs:
                r = T.and_(r, T.binder('forall', n, lambda j: T.eq(ch(p, j), ch(q, j))))
            return lower(T.not_(r) if isinstance(op, ast.NotEq) else r)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, Arr) and a.ndim == 0 and not isinstance(b, Arr):
                a = A.to_scalar_term(a)
            elif isinstance(b, Arr) and b.ndim == 0 and not isinstance(a, Arr):
                b = A.to_scalar_term(b)
            elif isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == 0 and b.ndim == 0:
                a, b = A.to_scalar_term(a), A.to_scalar_term(b)
            else:
                return A.elementwise(self.e, {ast.Lt: T.lt, ast.LtE: T.le, ast.Gt: T.gt, ast.GtE: T.ge,
                                              ast.Eq: T.eq, ast.NotEq: T.ne}[type(op)], a, b, 'b')
        inf = [isinstance(x, Opaque) and x.tag == 'inf' for x in (a, b)]
        fin = [is_num(x) or isinstance(x, T.Term) for x in (a, b)]
        if inf[0] and (fin[1] or inf[1]) or inf[1] and fin[0]:
            # positive infinity is above every finite number
            p, q = [1 if x else 0 for x in inf]
            return {ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q, ast.Eq: p == q, ast.NotEq: p != q}[type(op)]
        if isinstance(a, (str, type(None), Opaque, TypeTag)) or isinstance(b, (str, type(None), Opaque, TypeTag)):
            if isinstance(op, ast.Eq):
                return a is b or (type(a) is type(b) and isinstance(a, str) and a == b)
            if isinstance(op, ast.NotEq):
                return not (a is b or (type(a) is type(b) and isinstance(a, str) and a == b))
            raise Unsupported('comparison')
        if is_num(a) and is_num(b):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}[type(op)]
        ta, tb = term(a), term(b)
        f = {ast.Lt: T.lt, ast.LtE: T.le, ast.Gt: T.gt, ast.GtE: T.ge, ast.Eq: T.eq, ast.NotEq: T.ne}[type(op)]
        return lower(f(ta, tb))

    def truth(self, v):
        if isinstance(v, T.Term):
            return self.e.branch(v if v.sort == T.BOOL else T.ne(v, 0))
        if isinstance(v, PyList):
            return self.e.branch(T.ne(v.seq.length(), 0))
        if isinstance(v, Arr):
            if v.ndim == 0:
                t = A.to_scalar_term(v)
                return self.e.branch(t if t.sort == T.BOOL else T.ne(t, 0))
            raise Unsupported('truth of array')
        if isinstance(v, PyDict):
            return bool(v.d)
        if isinstance(v, (Obj, Closure, Bound, ClassVal, Opaque, Builtin, TypeTag)):
            return True
        return bool(v)

    def e_Attribute(self, x, fr):
        return self.attr(self.ev(x.value, fr), x.attr)

    def attr(self, v, a):
        if isinstance(v, Obj):
            if a in v.f:
                r = v.f[a]
                if isinstance(r, Poison):
                    raise NeedCarried(r)
                return r
            if v.cls is not None:
                m = v.cls.find(a)
                if m is not None:
                    if isinstance(m, tuple) and len(m) == 2 and m[0] == 'classmethod':
                        return Bound(m[1], v.cls)
                    if isinstance(m, tuple) and len(m) == 2 and m[0] == 'staticmethod':
                        return m[1]
                    if isinstance(m, tuple) and len(m) == 2 and m[0] == 'property':
                        return self.call(m[1], [v], {})
                    if isinstance(m, Closure):
                        return Bound(m, v)
                    return m
            raise PyRaise('AttributeError', a)
        if isinstance(v, ClassVal):
            m = v.find(a)
            if m is None:
                raise PyRaise('AttributeError', a)
            if isinstance(m, tuple) and len(m) == 2 and m[0] == 'classmethod':
                return Bound(m[1], v)
            if isinstance(m, tuple) and len(m) == 2 and m[0] == 'staticmethod':
                return m[1]
            return m
        if isinstance(v, ModVal):
            if v.g is None:
                raise Unsupported('module %s' % v.name)
            g = v.g.vars if isinstance(v.g, Frame) else v.g
            if a in g:
                return g[a]
            raise Unsupported('%s.%s has no contract' % (v.name, a))
        if isinstance(v, Arr):
            return A.attr(self, v, a)
        if isinstance(v, (PyList, tuple, PyDict, str)):
            return Builtin(a, lambda it, args, kw: self.method(v, a, args, kw))
        if isinstance(v, TypeTag) and v.name == 'list':
            return Builtin('list.' + a, lambda it, args, kw: self.method(args[0], a, args[1:], kw))
        if isinstance(v, CtxVal):
            return v.attr(self, a)
        if isinstance(v, TypeTag) or isinstance(v, Opaque):
            raise Unsupported('attribute %s' % a)
        if isinstance(v, (int, Fraction, T.Term)) and a in ('dtype',):
            return Opaque('dtype')
        if isinstance(v, (Fraction, T.Term)) and a == 'shape':
            return ()          # a scalar tensor
        if isinstance(v, Poison):
            raise NeedCarried(v)
        raise Unsupported('attribute %s of %s' % (a, type(v).__name__))

    def method(self, v, a, args, kw):
        if isinstance(v, PyList):
            if a == 'append':
                from . import loops
                v.seq = Seq(v.seq.segs + [Seg(items=[args[0]])])
                return None
            if a == 'extend':
                v.seq = Seq(v.seq.segs + self.as_seq(args[0]).segs)
                return None
            if a == 'reverse':
                v.seq = v.seq.rev()
                return None
            if a == 'copy':
                return PyList(v.seq)
            if a == 'insert':
                i = args[0]
                if i == 0:
                    v.seq = Seq([Seg(items=[args[1]])] + v.seq.segs)
                    return None
            if a == 'pop':
                n = v.seq.length()
                i = args[0] if args else -1
                if i == -1:
                    r = v.seq.get(T.sub(n, 1), self.e)
                    v.seq = v.seq.slice(0, T.sub(n, 1), self.e)
                    return r
                if i == 0:
                    r = v.seq.get(T.const(0), self.e)
                    v.seq = v.seq.slice(1, n, self.e)
                    return r
        if isinstance(v, PyDict):
            if a == 'get':
                return v.d.get(args[0], args[1] if len(args) > 1 else None)
            if a == 'keys':
                return PyList(list(v.d.keys()))
            if a == 'items':
                return PyList([(k, x) for k, x in v.d.items()])
            if a == 'values':
                return PyList(list(v.d.values()))
        raise Unsupported('method %s of %s' % (a, type(v).__name__))

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SliceVal(*[self.ev(q, fr) if q is not None else None for q in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(q, fr) for q in s.elts)
        return self.ev(s, fr)

    def e_Subscript(self, x, fr):
        return self.getitem(self.ev(x.value, fr), self.index(x.slice, fr))

    def norm_index(self, i, n):
        """python index -> nonnegative Term"""
        if isinstance(i, Arr):
            i = A.to_scalar_term(i)
        t = term(i)
        if T.is_const(t):
            if T.cval(t) < 0:
                return T.add(n, t)
            return t
        if self.e.entails(T.le(0, t)):
            return t
        if self.e.branch(T.le(0, t)):
            return t
        return T.add(t, n)

    def clamp_slice(self, sl, n):
        lo, hi, st = sl.lo, sl.hi, sl.step
        st = lower(st) if st is not None else 1
        if st != 1:
            if st == -1 and lo is None and hi is None:
                return None, None, -1
            raise Unsupported('slice step')

        def cl(x, d):
            if x is None:
                return d
            t = term(x)
            if T.is_const(t) and T.cval(t) < 0:
                t = T.add(n, t)
                if self.e.branch(T.le(0, t)):
                    return t
                return T.const(0)
            if T.is_const(t) and T.cval(t) == 0:
                return t
            if not T.is_const(t) and not self.e.branch(T.le(0, t)):
                t = T.add(t, n)
                if not self.e.branch(T.le(0, t)):
                    return T.const(0)
            if t is n or self.e.branch(T.le(t, n)):
                return t
            return n
        a = cl(lo, T.const(0))
        b = cl(hi, n)
        if not (a is T.const(0)) and not self.e.branch(T.le(a, b)):
            b = a
        return a, b, 1

    def slice_count(self, a, b, step):
        ln = T.sub(b, a)
        q, r = divmod_terms(self.e, ln, step)
        return q if r is T.const(0) else divmod_terms(self.e, T.add(ln, T.sub(step, 1)), step)[0]

    def step_slice(self, seq, ix):
        """every step-th entry of a slice (step >= 2); None for other slices"""
        step = lower(ix.step) if ix.step is not None else 1
        if step in (1, -1) or not self.e.entails(T.le(1, term(step))):
            return None
        a, b, _ = self.clamp_slice(SliceVal(ix.lo, ix.hi, None), seq.length())
        step, cnt = term(step), self.slice_count(a, b, term(step))
        return Seq([Seg(cnt, lambda i: seq.get(T.add(a, T.mul(i, step)), self.e))])

    def getitem(self, v, ix):
        if isinstance(v, MapVal):
            return v.fn(self, ix)
        if isinstance(v, StrVal):
            r = self.getitem(PyList(v.seq), ix)
            return StrVal(r.seq) if isinstance(r, PyList) else StrVal([r])
        if isinstance(v, (PyList, tuple)):
            seq = self.as_seq(v)
            n = seq.length()
            if isinstance(ix, SliceVal):
                r = self.step_slice(seq, ix) if isinstance(v, PyList) else None
                if r is not None:
                    return PyList(r)
                a, b, st = self.clamp_slice(ix, n)
                if st == -1:
                    r = seq.rev()
                else:
                    r = seq.slice(a, b, self.e)
                return PyList(r) if isinstance(v, PyList) else tuple(self.concrete_items(r))
            if isinstance(v, PyList):
                i = self.norm_index(ix, n)
                if not self.e.entails_h(T.and_(T.le(0, i), T.lt(i, n))):
                    if not self.e.branch(T.and_(T.le(0, i), T.lt(i, n))):
                        raise PyRaise('IndexError', 'list index out of range')
                r = seq.get(i, self.e)
                r = lower(r)
                if isinstance(r, Poison):
                    raise NeedCarried(r)
                return r
            if not isinstance(lower(ix), int):
                raise Unsupported('tuple index')
            try:
                return v[lower(ix)]
            except IndexError:
                raise PyRaise('IndexError', 'tuple')
        if isinstance(v, PyDict):
            if isinstance(ix, (str, int)) and ix in v.d:
                return v.d[ix]
            raise Unsupported('dict lookup')
        if isinstance(v, Arr):
            return A.getitem(self, v, ix)
        if isinstance(v, str):
            raise Unsupported('str index')
        raise Unsupported('subscript of %s' % type(v).__name__)

    # comprehension
    def e_ListComp(self, x, fr):
        return PyList(self.comp(x.elt, x.generators, fr))

    def e_GeneratorExp(self, x, fr):
        return PyList(self.comp(x.elt, x.generators, fr))

    def comp(self, elt, gens, fr):
        if len(gens) > 1:
            raise Unsupported('nested comprehension')
        g = gens[0]
        seq = self.iter_seq(self.ev(g.iter, fr))
        f2 = Frame(fr, 'comp')
        segs = []
        for s in seq.segs:
            if s.items is not None:
                out = []
                for x in s.items:
                    self.assign(g.target, x, f2)
                    if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                        out.append(self.ev(elt, f2))
                segs.append(Seg(items=out))
            else:
                if g.ifs:
                    raise Unsupported('filtered comprehension over a symbolic sequence')

                # the element function is evaluated later: freeze the variables it may read
                froz = Frame(fr.parent, fr.name)
                froz.vars = {k: (PyList(v.seq) if isinstance(v, PyList) else v) for k, v in fr.vars.items()}
                vers = [(v, v.version) for v in fr.vars.values() if isinstance(v, Arr)]

                def fn(i, s=s, froz=froz, vers=vers):
                    if any(v.version != q for v, q in vers):
                        raise Unsupported('array modified after a comprehension that reads it')
                    f3 = Frame(froz, 'comp')
                    self.assign(g.target, lower(s.fn(i)), f3)
                    return self.ev(elt, f3)
                segs.append(Seg(s.n, fn))
        return Seq(segs)

    # ---------------------------------------------------------------- calls
    def e_Call(self, x, fr):
        f = self.ev(x.func, fr)
        args = self.elts(x.args, fr)
        kw = {}
        for k in x.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, PyDict):
                    kw.update(v.d)
                else:
                    raise Unsupported('**kwargs')
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            return lower(f.fn(self, list(args), kw))
        if isinstance(f, FnVal):
            return f.fn(self.e, list(args), kw)
        if isinstance(f, ClassVal):
            o = Obj(f)
            init = f.find('__init__')
            if init is not None:
                self.call(init, [o] + list(args), kw)
            return o
        if isinstance(f, TypeTag):
            if f.call is None:
                raise Unsupported('call of type %s' % f.name)
            return lower(f.call(self, list(args), kw))
        if isinstance(f, Closure):
            h = self.e.contracts.get(f.qual)
            if h is not None:
                r = h(self, f, list(args), kw)
                if r is not NotImplemented:
                    return r
            return self.call_closure(f, args, kw)
        if isinstance(f, tuple) and len(f) == 2 and f[0] in ('staticmethod', 'classmethod'):
            return self.call(f[1], args, kw)
        if isinstance(f, Obj) and f.cls is not None and f.cls.find('__call__') is not None:
            return self.call(f.cls.find('__call__'), [f] + list(args), kw)
        raise Unsupported('call of %s' % type(f).__name__)

    def bind(self, f, args, kw):
        a = f.node.args
        fr = Frame(f.frame, f.name)
        names = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        for nm in names:
            if args:
                fr.vars[nm] = args.pop(0)
            elif nm in kw:
                fr.vars[nm] = kw.pop(nm)
        dfl = f.defaults
        for nm, d in zip(names[len(names) - len(dfl):], dfl):
            if nm not in fr.vars:
                fr.vars[nm] = d
        for nm in names:
            if nm not in fr.vars:
                raise PyRaise('TypeError', 'missing argument %s of %s' % (nm, f.name))
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(args)
            args = []
        if args:
            raise PyRaise('TypeError', 'too many arguments for %s' % f.name)
        for p in a.kwonlyargs:
            if p.arg in kw:
                fr.vars[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                fr.vars[p.arg] = f.kwdefaults[p.arg]
            else:
                raise PyRaise('TypeError', 'missing keyword argument')
        if a.kwarg:
            fr.vars[a.kwarg.arg] = PyDict(kw)
            kw = {}
        if kw:
            raise PyRaise('TypeError', 'unexpected keyword %s' % list(kw))
        return fr

    def call_closure(self, f, args, kw):
        e = self.e
        if f.qual:
            e.funcs_seen.add(f.qual)
        e.depth += 1
        if e.depth > 60:
            raise Unsupported('recursion depth')
        e.stack.append(f.qual)
        try:
            fr = self.bind(f, args, kw)
            it = Interp(e, f.module)
            if isinstance(f.node, ast.Lambda):
                return it.ev(f.node.body, fr)
            try:
                it.exec_body(f.node.body, fr)
            except _interp().ReturnExc as r:
                return r.v
            return None
        finally:
            e.depth -= 1
            e.stack.pop()

    def builtin(self, n):
        from . import shims
        if n in shims.BUILTINS:
            return shims.BUILTINS[n]
        if n in BUILTIN_EXC:
            return TypeTag(n)
        raise Unsupported('name %s' % n)


class NeedCarried(Unsupported):
    """a poisoned (havocked, not yet typed) value is read"""

    def __init__(self, p):
        self.p = p
        self.args = ('loop-carried value %s is not described by any template' % p.name,)


import re as _re
_OPQ = _re.compile(r'^(cv_|rk4!|arr\d+x?$)')


def opaque_name(nm):
    """names of values the engine knows by type only"""
    return isinstance(nm, str) and _OPQ.match(nm) is not None
