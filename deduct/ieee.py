"""Floating-point numbers by sign, order, zero, infinity and NaN (no rounding is assumed away: of a result only its sign and class
are known, except that it compares like the real number it stands for), and vectors known only by identity.

Facts used about IEEE operations on finite operands: x + y and x - y have the sign of the exact sum/difference and are zero only if
that is (gradual underflow); x * y and x / y have the product of the signs; that a product or quotient of nonzero finite operands
neither underflows to zero nor overflows is ASSUMED (see OVER)."""
import z3
from . import rt, vals, shim
from .rt import Unsupported, ctx
from .vals import Sym, SBool, SNum, fresh_int

OVER = 'products and quotients of nonzero finite numbers neither underflow to zero nor overflow; sums do not overflow'


class F(Sym):
    'nan, inf (sign in neg), or the finite number r with sign bit neg'
    def __init__(self, nan, inf, r, neg): self.nan = nan; self.inf = inf; self.r = r; self.neg = neg
    @staticmethod
    def fresh(name='f'):
        c = ctx(); B = lambda s: z3.Bool(c.name(name + s))
        f = F(B('_nan'), B('_inf'), z3.Real(c.name(name)), B('_neg'))
        c.assume(z3.Not(z3.And(f.nan, f.inf))); c.assume(z3.Implies(f.fin, z3.And(z3.Implies(f.r > 0, z3.Not(f.neg)), z3.Implies(f.r < 0, f.neg))))
        return f
    @staticmethod
    def of(x):
        if isinstance(x, F): return x
        if isinstance(x, SNum): r = z3.ToReal(x.e) if x.e.is_int() else x.e; return F(z3.BoolVal(False), z3.BoolVal(False), r, r < 0)
        import math
        x = float(x)
        if math.isnan(x): return F(z3.BoolVal(True), z3.BoolVal(False), z3.RealVal(0), z3.BoolVal(False))
        if math.isinf(x): return F(z3.BoolVal(False), z3.BoolVal(True), z3.RealVal(0), z3.BoolVal(x < 0))
        from fractions import Fraction
        q = Fraction(x)
        return F(z3.BoolVal(False), z3.BoolVal(False), z3.Q(q.numerator, q.denominator), z3.BoolVal(math.copysign(1, x) < 0))
    @property
    def fin(self): return z3.And(z3.Not(self.nan), z3.Not(self.inf))
    @property
    def zero(self): return z3.And(self.fin, self.r == 0)
    @property
    def pos(self): return z3.And(z3.Not(self.nan), z3.If(self.inf, z3.Not(self.neg), self.r > 0))
    @property
    def negative(self): return z3.And(z3.Not(self.nan), z3.If(self.inf, self.neg, self.r < 0))
    def same(self, o): return z3.And(self.nan == o.nan, z3.Implies(z3.Not(self.nan), z3.And(self.inf == o.inf, self.neg == o.neg, z3.Implies(self.fin, self.r == o.r))))
    def _same_(self, o): return self.same(o)
    # comparisons
    def lt(a, b):
        return z3.And(z3.Not(a.nan), z3.Not(b.nan), z3.If(z3.And(a.inf, b.inf), z3.And(a.neg, z3.Not(b.neg)), z3.If(a.inf, a.neg, z3.If(b.inf, z3.Not(b.neg), a.r < b.r))))
    def eq(a, b):
        return z3.And(z3.Not(a.nan), z3.Not(b.nan), a.inf == b.inf, z3.If(a.inf, a.neg == b.neg, a.r == b.r))
    def _cmp(self, o, f):
        try: o = F.of(o)
        except (TypeError, ValueError): return NotImplemented
        return SBool(f(self, o))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a.lt(b))
    def __gt__(self, o): return self._cmp(o, lambda a, b: b.lt(a))
    def __le__(self, o): return self._cmp(o, lambda a, b: z3.Or(a.lt(b), a.eq(b)))
    def __ge__(self, o): return self._cmp(o, lambda a, b: z3.Or(b.lt(a), a.eq(b)))
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a.eq(b))
        return False if r is NotImplemented else r
    def __ne__(self, o): return vals.snot(self == o)
    __hash__ = None
    def __bool__(self): return ctx().decide(z3.Not(self.zero))
    # arithmetic
    def __neg__(self): return F(self.nan, self.inf, -self.r, z3.Not(self.neg))
    def __pos__(self): return self
    def __abs__(self): return F(self.nan, self.inf, z3.If(self.r < 0, -self.r, self.r), z3.BoolVal(False))
    def _add(a, b):
        c = ctx(); r = F.fresh('sum')
        c.assume(r.nan == z3.Or(a.nan, b.nan, z3.And(a.inf, b.inf, a.neg != b.neg)))
        ok = z3.Not(r.nan)
        c.assume(z3.Implies(ok, r.inf == z3.Or(a.inf, b.inf)))
        c.assume(z3.Implies(z3.And(ok, a.inf), r.neg == a.neg)); c.assume(z3.Implies(z3.And(ok, b.inf), r.neg == b.neg))
        s = a.r + b.r; both = z3.And(a.fin, b.fin)
        c.assume(z3.Implies(both, z3.And((r.r > 0) == (s > 0), (r.r < 0) == (s < 0))))
        c.assume(z3.Implies(z3.And(both, s == 0), r.neg == z3.And(a.neg, b.neg)))
        return r
    def _mul(a, b):
        c = ctx(); r = F.fresh('prod')
        c.assume(r.nan == z3.Or(a.nan, b.nan, z3.And(a.inf, b.zero), z3.And(b.inf, a.zero)))
        ok = z3.Not(r.nan)
        c.assume(z3.Implies(ok, z3.And(r.inf == z3.Or(a.inf, b.inf), r.neg == z3.Xor(a.neg, b.neg))))
        c.assume(z3.Implies(z3.And(ok, a.fin, b.fin), (r.r == 0) == z3.Or(a.r == 0, b.r == 0)))
        return r
    def _div(a, b):
        c = ctx(); r = F.fresh('quot')
        c.assume(r.nan == z3.Or(a.nan, b.nan, z3.And(a.inf, b.inf), z3.And(b.zero, a.zero)))
        ok = z3.Not(r.nan)
        c.assume(z3.Implies(ok, z3.And(r.inf == z3.Or(a.inf, b.zero), r.neg == z3.Xor(a.neg, b.neg))))
        c.assume(z3.Implies(z3.And(ok, z3.Not(r.inf)), (r.r == 0) == z3.Or(b.inf, a.r == 0)))
        return r
    def _b(self, o, f, rev=False):
        if isinstance(o, V): return NotImplemented
        try: o = F.of(o)
        except (TypeError, ValueError): return NotImplemented
        return f(o, self) if rev else f(self, o)
    def __add__(self, o): return self._b(o, F._add)
    def __radd__(self, o): return self._b(o, F._add, True)
    def __sub__(self, o): return self._b(o, lambda a, b: F._add(a, -b))
    def __rsub__(self, o): return self._b(o, lambda a, b: F._add(a, -b), True)
    def __mul__(self, o): return self._b(o, F._mul)
    def __rmul__(self, o): return self._b(o, F._mul, True)
    def __truediv__(self, o): return self._b(o, F._div)
    def __rtruediv__(self, o): return self._b(o, F._div, True)
    def __pow__(self, o):
        if o == 2: return self * self
        raise Unsupported('power')
    def _float_(self): return self
    def copy(self): return self
    def __repr__(self): return '<float>'
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of a number' % k)


class Tok(object):
    'the contents of a vector; neg: the contents of which this is the negative'
    def __init__(self, name, neg=None): self.name = name; self.neg = neg


class V(Sym):
    'a vector: its contents are a token, so equal contents are recognised and changes in place are seen'
    def __init__(self, name, tok=None, n=None): self.name = name; self.tok = tok or Tok(name); self.n = n if n is not None else ctx().ghost.get('dim')
    def _new(self, name, tok=None): return V(name, tok, self.n)
    @property
    def size(self): return self.n
    @property
    def shape(self): return (self.n,)
    def _len_(self): return self.n
    ndim = 1
    def copy(self): return self._new(self.name, self.tok)
    def _copy_(self, *a): return self.copy()
    def __neg__(self): return self._new('-' + self.name, self.tok.neg or Tok('-' + self.name, self.tok))
    def _op(self, o):
        if not isinstance(o, (V, F, SNum, int, float)): return NotImplemented
        return self._new('vector')
    __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = _op
    def __mul__(self, o):
        if isinstance(o, (int, float)) and o == -1: return -self
        return self._op(o)
    __rmul__ = __mul__
    def _iop(self, o):
        if self._op(o) is NotImplemented: return NotImplemented
        self.tok = Tok('changed in place'); return self
    __iadd__ = __isub__ = __imul__ = __itruediv__ = _iop
    def __getitem__(self, s):
        if isinstance(s, slice) and s == slice(None) or s is Ellipsis: return self
        raise Unsupported('index of a vector')
    def __setitem__(self, s, o):
        if not (isinstance(s, slice) and s == slice(None) or s is Ellipsis): raise Unsupported('index of a vector')
        self.tok = o.tok if isinstance(o, V) else Tok('written')
    def dot(self, o): return dot(self, o)
    def max(self): return F.fresh('max')
    def __eq__(self, o): raise Unsupported('comparison of vectors')
    __lt__ = __gt__ = __le__ = __ge__ = __ne__ = __eq__
    __hash__ = None
    def __bool__(self): raise Unsupported('truth of a vector')
    def __repr__(self): return '<%s>' % self.name
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of a vector' % k)


def dot(a, b):
    if not (isinstance(a, V) and isinstance(b, V)): return NotImplemented
    c = ctx(); r = F.fresh('dot')
    if a.tok is b.tok: c.assume(z3.Not(r.negative)); c.assume(z3.Implies(r.zero, z3.Not(r.neg)))
    if a.tok.neg is b.tok or b.tok.neg is a.tok: c.assume(z3.Not(r.pos))
    # a vector of length zero has zero (or undefined) products
    D = c.ghost.setdefault('dots', [])
    for (p, q, s) in D:
        if p is q and (a.tok is p or b.tok is p): c.assume(z3.And(z3.Implies(s.zero, z3.Or(r.zero, r.nan)), z3.Implies(r.inf, z3.Not(s.fin))))
        if a.tok is b.tok and (p is a.tok or q is a.tok): c.assume(z3.And(z3.Implies(r.zero, z3.Or(s.zero, s.nan)), z3.Implies(s.inf, z3.Not(r.fin))))
    D.append((a.tok, b.tok, r))
    return r


def vmax(a): return F.fresh('max') if isinstance(a, V) else NotImplemented
def vabs(a):
    if isinstance(a, F): return abs(a)
    return a._new('abs') if isinstance(a, V) else NotImplemented
def sqrt(a):
    if not isinstance(a, F): return NotImplemented
    c = ctx(); r = F.fresh('sqrt')
    c.assume(r.nan == z3.Or(a.nan, a.negative)); c.assume(z3.Implies(z3.Not(r.nan), z3.And(r.inf == a.inf, (r.r == 0) == (a.r == 0), r.neg == a.neg)))
    return r
def isnan(a): return SBool(a.nan) if isinstance(a, F) else NotImplemented
def isfinite(a): return SBool(a.fin) if isinstance(a, F) else NotImplemented
def isinf(a): return SBool(a.inf) if isinstance(a, F) else NotImplemented
FN = dict(dot=dot, vdot=dot, max=vmax, amax=vmax, abs=vabs, absolute=vabs, sqrt=sqrt, isnan=isnan, isfinite=isfinite, isinf=isinf, array=lambda x, *a, **k: x.copy(), copy=lambda x: x.copy())


def install(): shim.FUNCS.update(FN)
