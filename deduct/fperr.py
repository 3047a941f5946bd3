"""Arrays seen through one arbitrary element, with a bound on the rounding error of what the code computes for it.

An element stands for the floating-point number computed; e is the real number the same formula gives in exact arithmetic, and
|computed - e| <= U * d.  Model: every operation and every elementary function returns its exact result for the operands it gets
times (1 + delta), |delta| <= U = 2^-50 (IEEE operations 2^-53; exp, log, log1p, expm1, sqrt of the C library within 4 units in the last place);
nothing overflows or underflows (OVER).  Comparisons and clips act on the computed number."""
import fractions
import mpmath
import z3
from . import rt, vals, shim, elem
from .elem import EArr, EMask, EXP, LOG, SQRT, real, infinite
from .rt import Unsupported, ctx
from .vals import SNum, SBool, is_sym, fresh_real

U = z3.RealVal(str(fractions.Fraction(1, 2 ** 50)))
OVER = 'floating-point operations and exp, log, log1p, expm1, sqrt have a relative error of at most 2^-50 each (IEEE; C library within 4 ulp), no overflow or underflow'
ZERO = z3.RealVal(0)


def iszero(d): return z3.is_rational_value(z3.simplify(d)) and z3.simplify(d).numerator_as_long() == 0


def ab(e):
    'absolute value'
    q = elem.const(e)
    if q is not None: return elem.rv(abs(q))
    if z3.is_app(e) and e.decl().name() == 'EXP': return e
    c = ctx(); k = ('abs', z3.simplify(e).get_id()); m = c.ghost.setdefault('abs', {})
    if k not in m:
        v = fresh_real('abs').e; m[k] = (v, e)
        c.assume(z3.And(v >= e, v >= -e, z3.Or(v == e, v == -e)))
    return m[k][0]


class PArr(EArr):
    'one element: exact value e, error bound U * d'
    def __init__(self, e, d=ZERO): self.e = e; self.d = d
    @staticmethod
    def of(x): return x if isinstance(x, PArr) else PArr(real(x))
    def _b(self, o, f, rev=False):
        if is_sym(o) and not isinstance(o, (EArr, SNum)): return NotImplemented
        o = PArr.of(o)
        return f(o, self) if rev else f(self, o)
    def __add__(self, o): return self._b(o, add)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, sub)
    def __rsub__(self, o): return self._b(o, sub, True)
    def __mul__(self, o): return self._b(o, mul)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._b(o, div)
    def __rtruediv__(self, o): return self._b(o, div, True)
    def __neg__(self): return PArr(-self.e, self.d)
    def __abs__(self): return PArr(self.e, self.d) if ctx().decide(self.e >= 0) else PArr(-self.e, self.d)
    def __pow__(self, o):
        if isinstance(o, (int, float)) and o == 2: return mul(self, self)
        if isinstance(o, (int, float)) and o == 1: return self.copy()
        if isinstance(o, (int, float)) and o == .5: return sqrt(self)
        if isinstance(o, (int, float)) and o == -1: return div(PArr(z3.RealVal(1)), self)
        raise Unsupported('power')
    def computed(self):
        'the number the code has'
        if iszero(self.d): return self.e
        h = fresh_real('computed').e; ctx().assume(z3.And(h - self.e <= U * self.d, self.e - h <= U * self.d)); return h
    def _c(self, o, f, inf):
        if infinite(o): return EMask(z3.BoolVal(inf(o)))
        return EMask(f(self.computed(), PArr.of(o).computed()))
    def copy(self): return PArr(self.e, self.d)
    _kinds_ = vals.FLOATS
    def astype(self, *a, **k): vals.keeps(vals.FLOATS, a, k); return self.copy()
    def _float_(self): return self
    def __getitem__(self, m):
        if m is Ellipsis or (isinstance(m, slice) and m == slice(None)): return self
        raise Unsupported('index of an array')
    def __setitem__(self, m, v):
        if isinstance(m, EMask):
            if not ctx().decide(m.e): return
        elif not (m is Ellipsis or (isinstance(m, slice) and m == slice(None))): raise Unsupported('index of an array')
        v = PArr.of(v); self.e = v.e; self.d = v.d
    def __repr__(self): return 'PArr(%s)' % self.e


class PNum(PArr):
    'a single number'
    def _b(self, o, f, rev=False):
        r = PArr._b(self, o, f, rev)
        return PNum(r.e, r.d) if isinstance(r, PArr) and isinstance(o, (PNum, SNum, int, float)) else r
    def __neg__(self): return PNum(-self.e, self.d)
    def _c(self, o, f, inf):
        if isinstance(o, PArr) and not isinstance(o, PNum): return PArr._c(self, o, f, inf)
        return SBool(PArr._c(self, o, f, inf).e)


def need(c, name, goal, extra=()):
    'an obligation about the bound on the error: a point where the bound is too large says nothing about the code'
    saved = elem.search, elem.confirm
    elem.search = lambda *a: None; elem.confirm = lambda *a: None
    try: elem.prove(c, name, goal, extra=extra)
    finally: elem.search, elem.confirm = saved


def add(a, b): e = a.e + b.e; return PArr(e, up(a.d + b.d) + ab(e))
def sub(a, b): e = a.e - b.e; return PArr(e, up(a.d + b.d) + ab(e))


def up(d):
    'rounding of a result that carries the error d already'
    return ZERO if iszero(d) else d * (1 + U)


def mul(a, b):
    e = a.e * b.e; d = ZERO
    if not iszero(b.d): d = d + ab(a.e) * b.d
    if not iszero(a.d): d = d + ab(b.e) * a.d
    if not iszero(a.d) and not iszero(b.d): d = d + U * a.d * b.d
    return PArr(e, up(d) + ab(e))


def div(a, b):
    e = a.e / b.e; c = ctx()
    B = ab(b.e)
    if not iszero(b.d): need(c, 'a divisor is not lost in rounding', 2 * U * b.d <= B)
    need(c, 'a divisor is not zero', b.e != 0)
    d = ZERO
    if not iszero(a.d): d = d + a.d
    if not iszero(b.d): d = d + ab(e) * b.d
    if not iszero(d): d = d / (B - U * b.d if not iszero(b.d) else B)
    return PArr(e, up(d) + ab(e))


def exp(a):
    a = PArr.of(a); e = EXP(a.e)
    if iszero(a.d): return PArr(e, e)
    need(ctx(), 'the argument of an exponential is known well enough', U * a.d <= 1)
    return PArr(e, up(e * 2 * a.d) + e)


def expm1(a):
    a = PArr.of(a); e = EXP(a.e) - 1
    if iszero(a.d): return PArr(e, ab(e))
    need(ctx(), 'the argument of an exponential is known well enough', U * a.d <= 1)
    return PArr(e, up(EXP(a.e) * 2 * a.d) + ab(e))


def _log(a, d, e):
    need(ctx(), 'the argument of a logarithm is positive', a > U * d)
    if iszero(d): return PArr(e, ab(e))
    return PArr(e, up(d / (a - U * d)) + ab(e))
def log(a): a = PArr.of(a); return _log(a.e, a.d, LOG(a.e))
def log1p(a): a = PArr.of(a); return _log(1 + a.e, a.d, LOG(1 + a.e))


def sqrt(a):
    a = PArr.of(a); e = SQRT(a.e)
    if iszero(a.d): return PArr(e, e)
    need(ctx(), 'the argument of a square root is positive', a.e > U * a.d)
    return PArr(e, up(a.d / e) + e)


def clip(x, lo, hi, **k):
    c = ctx(); x = PArr.of(x); e, d = x.e, x.d
    if iszero(d):
        if lo is not None and not (infinite(lo) and lo < 0) and c.decide(e < real(lo)): return PArr(real(lo))
        if hi is not None and not (infinite(hi) and hi > 0) and c.decide(e > real(hi)): return PArr(real(hi))
        return x.copy()
    # clipping brings numbers no further apart
    if lo is not None and not (infinite(lo) and lo < 0) and c.decide(e < real(lo)): e = real(lo)
    if hi is not None and not (infinite(hi) and hi > 0) and c.decide(e > real(hi)): e = real(hi)
    return PArr(e, d)


def where(m, a, b):
    if isinstance(m, (EMask, SBool)): return PArr.of(a if ctx().decide(m.e) else b)
    return NotImplemented


def einsum(s, *a):
    if isinstance(s, str) and s.replace(' ', '') in ('i,i->i', '...,...->...') and len(a) == 2: return mul(PArr.of(a[0]), PArr.of(a[1]))
    return NotImplemented


def logaddexp(a, b):
    a, b = PArr.of(a), PArr.of(b)
    if not (iszero(a.d) and iszero(b.d)): raise Unsupported('logaddexp of rounded numbers')
    e = LOG(EXP(a.e) + EXP(b.e)); return PArr(e, ab(e))


def un(f):
    def g(x, **k):
        if k or not isinstance(x, (EArr, SNum)): return NotImplemented
        return f(x)
    return g


def bi(f):
    def g(a, b, **k):
        if k: return NotImplemented
        return f(PArr.of(a), PArr.of(b))
    return g


FN = dict(exp=un(exp), log=un(log), log1p=un(log1p), expm1=un(expm1), sqrt=un(sqrt), where=where, clip=clip, einsum=einsum, add=bi(add), subtract=bi(sub), multiply=bi(mul), divide=bi(div), true_divide=bi(div),
          negative=un(lambda x: -PArr.of(x)), square=un(lambda x: mul(PArr.of(x), PArr.of(x))), reciprocal=un(lambda x: div(PArr(z3.RealVal(1)), PArr.of(x))), logaddexp=logaddexp,
          abs=lambda x: abs(x), absolute=lambda x: abs(x), fabs=lambda x: abs(x), asarray=lambda x, *a, **k: (vals.keeps(vals.kinds_of(x), a, k), x)[1], array=lambda x, *a, **k: (vals.keeps(vals.kinds_of(x), a, k), x.copy())[1], copy=lambda x: x.copy(),
          any=lambda m, **k: m.any(), all=lambda m, **k: m.all(), logical_or=lambda a, b: a | b, logical_and=lambda a, b: a & b, logical_not=lambda a: ~a, atleast_1d=lambda x: x, ravel=lambda x: x,
          zeros_like=lambda x, **k: PArr(ZERO), ones_like=lambda x, **k: PArr(z3.RealVal(1)))


def install(): shim.FUNCS.clear(); shim.FUNCS.update(FN)


def close(c, name, r, ref, tol, run, extra=(), facts=(), loud=10 ** 6):
    """an obligation: what the code computes is within tol of ref.  If it cannot be proved, points are tried on the real code (run: from
    numbers to a number): one where it is off by more than loud * tol refutes it"""
    if c.done: return
    S = c.session
    r = PArr.of(r)
    goal = z3.And(r.e - ref + U * r.d <= tol, ref - r.e + U * r.d <= tol)
    o = S.obl.get(name) or S.obl.setdefault(name, rt.Obl(name))
    u0, r0 = o.unknown, o.refuted
    need(c, name, goal, extra=extra)
    if o.unknown == u0: return
    w = search(c, ref, tol, run, loud)
    if w is not None:
        o.unknown -= 1; o.refuted += 1
        o.info = dict(status='refuted', formula=str(goal)[:1500], model=w, path=[str(p)[:300] for p in c.pc])


def search(c, ref, tol, run, loud):
    import random
    rng = random.Random(11); names = sorted(n for n, e in elem.consts(list(c.ghost.get('input', []))).items())
    mpmath.mp.prec = 2000
    for i in range(2000):
        env = {}
        for n in names:
            env[n] = fractions.Fraction(rng.choice([rng.uniform(-3, 3), rng.uniform(-60, 60), rng.uniform(0, 1), rng.uniform(33, 38), -rng.uniform(33, 38), 10 ** rng.uniform(-30, 2), -10 ** rng.uniform(-30, 2), rng.uniform(-300, 300)]))
        try:
            if not all(elem.evalf(p, env) for p in c.ghost['pre']): continue
            want = exact(ref, env); t = exact(tol_plain(tol), env)
            got = run({k: float(v) for k, v in env.items()})
            if got != got or got in (float('inf'), -float('inf')) or abs(mpmath.mpf(float(got)) - want) > loud * t: return dict({k: repr(float(v)) for k, v in env.items()}, computed=repr(float(got)), exact=repr(float(want)), allowed=repr(float(t)))
        except (ValueError, ZeroDivisionError, OverflowError, KeyError, ArithmeticError): continue
    return None


def exact(e, env):
    'value of a term with 2000 bits'
    mp = mpmath.mp
    if z3.is_rational_value(e): return mp.mpf(e.numerator_as_long()) / e.denominator_as_long()
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: v = env[e.decl().name()]; return mp.mpf(v.numerator) / v.denominator
    k = e.decl().kind(); n = e.decl().name(); a = [exact(x, env) for x in e.children()]
    if k == z3.Z3_OP_ADD: return sum(a)
    if k == z3.Z3_OP_SUB: return a[0] - sum(a[1:])
    if k == z3.Z3_OP_MUL: return mpmath.fprod(a)
    if k == z3.Z3_OP_DIV: return a[0] / a[1]
    if k == z3.Z3_OP_UMINUS: return -a[0]
    if k == z3.Z3_OP_ITE: return a[1] if a[0] else a[2]
    if k == z3.Z3_OP_GE: return a[0] >= a[1]
    if n == 'EXP': return mp.exp(a[0])
    if n == 'LOG' and a[0] > 0: return mp.log(a[0])
    if n == 'SQRT' and a[0] >= 0: return mp.sqrt(a[0])
    raise ValueError(str(e))


def tol_plain(t):
    'absolute values in a tolerance evaluated as such'
    m = ctx().ghost.get('abs', {})
    return z3.substitute(t, *[(v, z3.If(e >= 0, e, -e)) for (v, e) in m.values()]) if m else t
