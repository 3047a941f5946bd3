"""Arrays seen through one arbitrary element: elementwise numpy functions act on a real number.

exp, log and sqrt are uninterpreted with instances of true facts about them (axioms()), derivatives are symbolic.
Anything that is not elementwise is Unsupported, so what is proved of the element holds for every element."""
import fractions, math
import z3
from . import rt, vals, shim
from .vals import Sym, SBool, SNum, num, bexpr, is_sym
from .rt import Unsupported, ctx

EXP = z3.Function('EXP', z3.RealSort(), z3.RealSort())
LOG = z3.Function('LOG', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('SQRT', z3.RealSort(), z3.RealSort())


def real(x):
    if isinstance(x, EArr): return x.e
    import numpy as np
    if isinstance(x, np.ndarray) and x.size == 1: x = float(x.ravel()[0])
    if isinstance(x, bool): raise Unsupported('truth value as a real')
    r = num(x)
    if r is None: raise Unsupported('%r as a real number' % (x,))
    return z3.ToReal(r) if r.is_int() else r


def infinite(x): return isinstance(x, float) and x in (float('inf'), -float('inf'))


class EMask(Sym):
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def any(self, *a, **k):
        b = vals.fresh_bool('any'); ctx().assume(z3.Implies(self.e, b.e)); return b
    def all(self, *a, **k):
        b = vals.fresh_bool('all'); ctx().assume(z3.Implies(b.e, self.e)); return b
    def _m(self, o): return o.e if isinstance(o, EMask) else bexpr(o)
    def __and__(self, o): return EMask(z3.And(self.e, self._m(o)))
    __rand__ = __mul__ = __rmul__ = __and__
    def __or__(self, o): return EMask(z3.Or(self.e, self._m(o)))
    __ror__ = __or__
    def __invert__(self): return EMask(z3.Not(self.e))
    def __bool__(self): raise Unsupported('truth of an array')
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of a mask' % k)


class EArr(Sym):
    'one arbitrary element of an array'
    def __init__(self, e): self.e = e
    def _b(self, o, f, rev=False):
        if is_sym(o) and not isinstance(o, (EArr, SNum)): return NotImplemented
        a, b = self.e, real(o)
        return EArr(f(b, a) if rev else f(a, b))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._b(o, div)
    def __rtruediv__(self, o): return self._b(o, div, True)
    def __neg__(self): return EArr(-self.e)
    def __pos__(self): return self
    def __abs__(self): return self if ctx().decide(self.e >= 0) else EArr(-self.e)
    def __pow__(self, o):
        if isinstance(o, (int, float)) and o == 2: return EArr(self.e * self.e)
        if isinstance(o, (int, float)) and o == 1: return EArr(self.e)
        if isinstance(o, (int, float)) and o == .5: return sqrt(self)
        if isinstance(o, (int, float)) and o == -1: return 1 / self
        raise Unsupported('power')
    def _c(self, o, f, inf):
        if infinite(o): return EMask(z3.BoolVal(inf(o)))
        return EMask(f(self.e, real(o)))
    def __lt__(self, o): return self._c(o, lambda a, b: a < b, lambda o: o > 0)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b, lambda o: o > 0)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b, lambda o: o < 0)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b, lambda o: o < 0)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b, lambda o: False)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b, lambda o: True)
    __hash__ = None
    def copy(self): return EArr(self.e)
    _kinds_ = vals.FLOATS
    def astype(self, *a, **k): vals.keeps(vals.FLOATS, a, k); return EArr(self.e)
    def view(self, *a): return self
    def clip(self, lo, hi): return clip(self, lo, hi)
    def __getitem__(self, m):
        if m is Ellipsis or (isinstance(m, slice) and m == slice(None)): return self
        if isinstance(m, EMask): return ESel(self.e, m)
        raise Unsupported('index of an array')
    def __setitem__(self, m, v):
        if isinstance(m, EMask):
            if ctx().decide(m.e):
                if isinstance(v, ESel):
                    if not (v.m is m or z3.eq(z3.simplify(v.m.e), z3.simplify(m.e))): raise Unsupported('values selected by another mask')
                    self.e = v.e
                else: self.e = real(v)
        elif m is Ellipsis or (isinstance(m, slice) and m == slice(None)): self.e = real(v)
        else: raise Unsupported('index of an array')
    def __bool__(self): raise Unsupported('truth of an array')
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of an array' % k)
    def __repr__(self): return 'EArr(%s)' % self.e


class ESel(EArr):
    'the selected elements of an array, seen through one that is selected'
    def __init__(self, e, m): self.e = e; self.m = m
    def _b(self, o, f, rev=False):
        r = EArr._b(self, o, f, rev); return ESel(r.e, self.m)


def div(a, b):
    c = ctx()
    c.prove('no division by zero', z3.Not(b == 0)) if c.ghost.get('prove_division') else None
    return a / b


def un(f):
    def g(x, **k):
        if k and set(k) - {'out', 'where'} == set() and any(v is not None for v in k.values()): return NotImplemented
        if not isinstance(x, (EArr, SNum)): return NotImplemented
        return EArr(f(real(x)))
    return g


def where(c, a, b):
    if isinstance(c, (EMask, SBool)):
        if ctx().decide(c.e): return a if isinstance(a, EArr) else EArr(real(a))
        return b if isinstance(b, EArr) else EArr(real(b))
    return NotImplemented


def clip(x, lo, hi, **k):
    c = ctx()
    x = EArr(real(x))
    if lo is not None and not (infinite(lo) and lo < 0) and c.decide(x.e < real(lo)): x = EArr(real(lo))
    if hi is not None and not (infinite(hi) and hi > 0) and c.decide(x.e > real(hi)): x = EArr(real(hi))
    return x


def einsum(s, *a):
    if isinstance(s, str) and s.replace(' ', '') in ('i,i->i', '...,...->...', 'i,i -> i') and len(a) == 2: return EArr(real(a[0]) * real(a[1]))
    return NotImplemented


def sqrt(x): return EArr(SQRT(real(x)))


def mx(sign):
    def f(a, b, **k):
        x, y = real(a), real(b)
        return EArr(x if ctx().decide(x >= y if sign else x <= y) else y)
    return f


def like(v):
    def f(x, **k): return EArr(z3.RealVal(v))
    return f


def sign(x):
    x = real(x); c = ctx()
    return EArr(z3.RealVal(1 if c.decide(x > 0) else -1 if c.decide(x < 0) else 0))


def near(x, y, rtol, atol):
    d = x - y; ay = z3.If(y >= 0, y, -y); t = real(atol) + real(rtol) * ay
    return z3.And(d <= t, -d <= t)


def array_equal(a, b, *r, **k):
    if r or k or not (isinstance(a, EArr) and isinstance(b, EArr)): return NotImplemented
    return EMask(a.e == b.e).all()


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (isinstance(a, (EArr, SNum)) or isinstance(b, (EArr, SNum))): return NotImplemented
    return EMask(near(real(a), real(b), rtol, atol))


def allclose(a, b, *r, **k):
    m = isclose(a, b, *r, **k)
    return m if m is NotImplemented else m.all()


def bi(f): return lambda a, b, **k: EArr(f(real(a), real(b)))
def mk(f): return lambda a, b, **k: f(a if isinstance(a, EArr) else EArr(real(a)), b)


FN = dict(exp=un(EXP), log=un(LOG), log1p=un(lambda t: LOG(1 + t)), expm1=un(lambda t: EXP(t) - 1), sqrt=un(SQRT), abs=lambda x: abs(x), absolute=lambda x: abs(x), fabs=lambda x: abs(x),
          negative=un(lambda t: -t), square=un(lambda t: t * t), reciprocal=un(lambda t: 1 / t), logaddexp=bi(lambda a, b: LOG(EXP(a) + EXP(b))),
          where=where, clip=clip, einsum=einsum, maximum=mx(True), minimum=mx(False), multiply=bi(lambda a, b: a * b), add=bi(lambda a, b: a + b), subtract=bi(lambda a, b: a - b),
          divide=bi(lambda a, b: a / b), true_divide=bi(lambda a, b: a / b), sign=sign, zeros_like=like(0), ones_like=like(1), asarray=lambda x, *a, **k: (vals.keeps(vals.kinds_of(x), a, k), x)[1], array=lambda x, *a, **k: (vals.keeps(vals.kinds_of(x), a, k), x.copy())[1], copy=lambda x: x.copy(),
          any=lambda m, **k: m.any(), all=lambda m, **k: m.all(), logical_or=lambda a, b: a | b, logical_and=lambda a, b: a & b, logical_not=lambda a: ~a,
          less=mk(lambda a, b: a < b), greater=mk(lambda a, b: a > b), less_equal=mk(lambda a, b: a <= b), greater_equal=mk(lambda a, b: a >= b), power=lambda a, b: a ** b,
          atleast_1d=lambda x: x, ravel=lambda x: x, full_like=lambda x, v, **k: EArr(real(v)), array_equal=array_equal, isclose=isclose, allclose=allclose, errstate=None)
del FN['errstate']


def install(): shim.FUNCS.update(FN)


# ---------------------------------------------------------------------------------------------------------------
# facts

def subterms(fs):
    seen = {}; out = []
    def go(e):
        if e.get_id() in seen: return
        seen[e.get_id()] = e
        for ch in e.children(): go(ch)
        if z3.is_app(e) and e.decl().name() in ('EXP', 'LOG', 'SQRT') and e.num_args() == 1: out.append(e)
    for f in fs: go(f)
    return out


def const(t):
    t = z3.simplify(t)
    if z3.is_rational_value(t): return fractions.Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def enclosure(fname, q):
    'rational bounds of exp/log/sqrt of a rational number'
    from decimal import Decimal, getcontext, localcontext
    with localcontext() as cx:
        cx.prec = 60
        cx.Emax = 999999; cx.Emin = -999999
        d = Decimal(q.numerator) / Decimal(q.denominator)
        r = d.exp() if fname == 'EXP' else d.ln() if fname == 'LOG' else d.sqrt()
        f = fractions.Fraction(r)
        eps = abs(f) * fractions.Fraction(1, 10 ** 40) + fractions.Fraction(1, 10 ** 400)
        return f - eps, f + eps


def rv(q): return z3.RealVal(str(q))


def axioms(fs, extra=(), rounds=2):
    """instances of facts about exp, log, sqrt for the terms that occur:
    exp > 0; exp(0) = 1; exp strictly increasing; exp(t) >= 1 + t; exp(s) exp(t) = 1 if s + t = 0; exp(r) = exp(s) exp(t) if r = s + t (up to 6 terms);
    log(exp t) = t; exp(log u) = u for u > 0; log strictly increasing; log 1 = 0; (a - b) / a <= log a - log b <= (a - b) / b; bounds of constants; sqrt(u)^2 = u, sqrt(u) >= 0 for u >= 0; sqrt(t^2) = |t| as a consequence"""
    ax = []; terms = []; ids = set()
    def note(t):
        if t.get_id() not in ids: ids.add(t.get_id()); terms.append(t)
    for t in subterms(list(fs) + list(extra)): note(t)
    for t in extra:
        for u in subterms([t]): note(u)
    for r in range(rounds):
        for t in list(terms):
            a = t.arg(0)
            if t.decl().name() == 'EXP' and r == 0: pass
            if t.decl().name() == 'LOG' and r == 0: note(EXP(t))
    E = [t for t in terms if t.decl().name() == 'EXP']; L = [t for t in terms if t.decl().name() == 'LOG']; Q = [t for t in terms if t.decl().name() == 'SQRT']
    for t in E:
        a = t.arg(0); ax.append(t > 0); ax.append(t >= 1 + a); ax.append(z3.Implies(a == 0, t == 1)); ax.append(z3.Implies(a > 0, t > 1)); ax.append(z3.Implies(a < 0, t < 1))
        q = const(a)
        if q is not None and abs(q) < 2000: lo, hi = enclosure('EXP', q); ax += [t >= rv(lo), t <= rv(hi)]
        for l in L:
            if z3.eq(a, l): ax.append(z3.Implies(l.arg(0) > 0, t == l.arg(0)))
            else: ax.append(z3.Implies(l.arg(0) == t, l == a))
    for i, s in enumerate(E):
        for t in E[i + 1:]:
            a, b = s.arg(0), t.arg(0)
            ax.append(z3.Implies(a < b, s < t)); ax.append(z3.Implies(b < a, t < s)); ax.append(z3.Implies(a == b, s == t)); ax.append(z3.Implies(a + b == 0, s * t == 1))
    if len(E) <= 7:
        for i, s in enumerate(E):
            for j, t in enumerate(E[i:]):
                for r in E:
                    if r is s or r is t: continue
                    ax.append(z3.Implies(r.arg(0) == s.arg(0) + t.arg(0), r == s * t))
    for t in L:
        a = t.arg(0)
        q = const(a)
        if q is not None and q > 0: lo, hi = enclosure('LOG', q); ax += [t >= rv(lo), t <= rv(hi)]
        ax.append(z3.Implies(z3.And(a > 0, a < 1), t < 0)); ax.append(z3.Implies(a > 1, t > 0)); ax.append(z3.Implies(a == 1, t == 0)); ax.append(z3.Implies(a > 0, t <= a - 1))
    for i, s in enumerate(L):
        for t in L[i + 1:]:
            a, b = s.arg(0), t.arg(0)
            ax.append(z3.Implies(z3.And(a > 0, b > 0, a < b), z3.And(s < t, (t - s) * a <= b - a, (t - s) * b >= b - a)))
            ax.append(z3.Implies(z3.And(a > 0, b > 0, b < a), z3.And(t < s, (s - t) * b <= a - b, (s - t) * a >= a - b)))
            ax.append(z3.Implies(z3.And(a > 0, a == b), s == t))
    for t in Q:
        a = t.arg(0); ax += [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a > 0, t > 0)]
    return ax


def close(fs):
    'replaces the applications by variables: pure real arithmetic'
    sub = []
    ts = subterms(fs)
    m = {}
    cur = list(fs)
    # innermost first
    while True:
        ts = [t for t in subterms(cur) if not subterms([t.arg(0)])]
        if not ts: return cur
        pairs = []
        for t in ts:
            v = z3.Real('%s_%d' % (t.decl().name(), len(m))); m[v] = t; pairs.append((t, v))
        cur = [z3.substitute(f, *pairs) for f in cur]


def prove(c, name, goal, extra=(), **info):
    'an obligation over the reals with exp, log, sqrt'
    import time
    if c.done: return
    S = c.session
    o = S.obl.get(name) or S.obl.setdefault(name, rt.Obl(name))
    goal = z3.simplify(goal)
    t0 = time.time(); o.n += 1
    if z3.is_true(goal): o.proved += 1; o.backends.add('evaluation'); return
    base = list(c.pc) + [z3.Not(goal)]
    r = z3.unknown; back = 'z3'
    last = None
    for ms in (1500, 12000):
        for k, mk in enumerate((lambda: z3.Tactic('qfnra-nlsat').solver(), lambda: z3.Solver(), lambda: z3.SolverFor('QF_NRA'))):
            try: fs = close(base + axioms(base, extra))
            except RecursionError: break
            s = mk(); s.set('timeout', ms)
            for f in fs: s.add(z3.simplify(f) if k == 0 else f)
            rt.STATS['queries'] += 1
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            if r != z3.unknown: last = s; break
        if r != z3.unknown: break
    dt = time.time() - t0; o.time += dt; rt.STATS['time'] += dt; o.backends.add(back)
    if r == z3.unsat: o.proved += 1; return
    if r == z3.sat:
        # exp, log are uninterpreted: a model is a candidate only, it has to be confirmed with the real functions
        w = confirm(c, last.model(), goal)
        if w is not None:
            o.refuted += 1
            o.info = dict(status='refuted', formula=str(goal)[:1500], model=w, path=[str(p)[:300] for p in c.pc], **{k: str(v)[:500] for k, v in info.items()})
            return
    w = search(c, goal)
    if w is not None:
        o.refuted += 1
        o.info = dict(status='refuted', formula=str(goal)[:1500], model=w, path=[str(p)[:300] for p in c.pc], **{k: str(v)[:500] for k, v in info.items()})
        return
    o.unknown += 1
    if o.info is None: o.info = dict(status='unknown', formula=str(goal)[:1500], path=[str(p)[:300] for p in c.pc])


def have(c, f, extra=(), use=None):
    """an intermediate step: assumed if it follows (use: from these premises only), otherwise left out; never an obligation by itself"""
    if c.done: return
    base = (list(c.pc) if use is None else list(use)) + [z3.Not(f)]
    if use is not None and not all(any(z3.eq(z3.simplify(u), p) for p in c.pc) for u in use): return
    fs = close(base + axioms(base, extra))
    for mk in (lambda: z3.Solver(), lambda: z3.Tactic('qfnra-nlsat').solver()):
        s = mk(); s.set('timeout', 3000)
        for g in fs: s.add(g)
        rt.STATS['queries'] += 1
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        if r == z3.unsat: c.assume(f); return True
        if r == z3.sat: return False
    return False


def evalf(e, env):
    'floating-point value of a term with mpmath-like precision (decimal)'
    k = e.decl().kind()
    ch = e.children()
    if z3.is_rational_value(e): return fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: return env[e.decl().name()]
    a = [evalf(x, env) for x in ch]
    if k == z3.Z3_OP_ADD: return sum(a)
    if k == z3.Z3_OP_SUB: return a[0] - sum(a[1:])
    if k == z3.Z3_OP_MUL:
        r = fractions.Fraction(1)
        for x in a: r *= x
        return r
    if k == z3.Z3_OP_DIV: return a[0] / a[1]
    if k == z3.Z3_OP_UMINUS: return -a[0]
    if k == z3.Z3_OP_POWER: return a[0] ** int(a[1])
    if k == z3.Z3_OP_TO_REAL: return a[0]
    if k == z3.Z3_OP_ITE: return a[1] if a[0] else a[2]
    n = e.decl().name()
    if n in ('EXP', 'LOG', 'SQRT'):
        if n == 'LOG' and a[0] <= 0 or n == 'SQRT' and a[0] < 0: raise ValueError
        if n == 'EXP' and abs(a[0]) > 3000: raise ValueError
        lo, hi = enclosure(n, a[0]); return ((lo + hi) / 2).limit_denominator(10 ** 60) if abs(lo) > fractions.Fraction(1, 10 ** 15) else (lo + hi) / 2
    if k == z3.Z3_OP_LE: return a[0] <= a[1]
    if k == z3.Z3_OP_LT: return a[0] < a[1]
    if k == z3.Z3_OP_GE: return a[0] >= a[1]
    if k == z3.Z3_OP_GT: return a[0] > a[1]
    if k == z3.Z3_OP_EQ:
        if isinstance(a[0], bool): return a[0] == a[1]
        return abs(a[0] - a[1]) <= fractions.Fraction(1, 10 ** 12) * (1 + abs(a[0]))
    if k == z3.Z3_OP_NOT: return not a[0]
    if k == z3.Z3_OP_AND: return all(a)
    if k == z3.Z3_OP_OR: return any(a)
    if k == z3.Z3_OP_IMPLIES: return (not a[0]) or a[1]
    if k == z3.Z3_OP_TRUE: return True
    if k == z3.Z3_OP_FALSE: return False
    raise ValueError(str(e))


def consts(fs):
    out = {}; seen = set()
    def go(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[e.decl().name()] = e
        for ch in e.children(): go(ch)
    for f in fs: go(f)
    return out


def bad(c, goal, env):
    try: return all(evalf(p, env) for p in c.pc) and not evalf(goal, env)
    except (ValueError, ZeroDivisionError, OverflowError, KeyError, ArithmeticError): return False


def confirm(c, m, goal):
    env = {}
    for n, e in consts(list(c.pc) + [goal]).items():
        if not z3.is_real(e): env[n] = z3.is_true(m.eval(e, model_completion=True)); continue
        v = m.eval(e, model_completion=True)
        if z3.is_algebraic_value(v): v = v.approx(30)
        try: env[n] = fractions.Fraction(v.numerator_as_long(), v.denominator_as_long())
        except Exception: return None
    return {k: str(float(v)) for k, v in env.items()} if bad(c, goal, env) else None


def search(c, goal):
    import random
    rng = random.Random(7); cs = consts(list(c.pc) + [goal])
    for i in range(4000):
        env = {}
        for n, e in cs.items():
            if not z3.is_real(e): env[n] = rng.random() < .5
            else: env[n] = fractions.Fraction(str(round(rng.choice([rng.uniform(-3, 3), rng.uniform(-60, 60), rng.uniform(-700, 700), rng.uniform(0, 1), rng.uniform(33, 38), 10 ** rng.uniform(-12, 3)]), 15)))
        if bad(c, goal, env): return {k: str(float(v)) if not isinstance(v, bool) else v for k, v in env.items()}
    return None


def diff(e, x):
    'derivative with respect to the constant x'
    if z3.eq(e, x): return z3.RealVal(1)
    if z3.is_rational_value(e) or z3.is_const(e): return z3.RealVal(0)
    k = e.decl().kind(); ch = e.children()
    if k == z3.Z3_OP_ADD: return z3.Sum([diff(a, x) for a in ch])
    if k == z3.Z3_OP_SUB:
        r = diff(ch[0], x)
        for a in ch[1:]: r = r - diff(a, x)
        return r
    if k == z3.Z3_OP_UMINUS: return -diff(ch[0], x)
    if k == z3.Z3_OP_MUL:
        tot = []
        for i in range(len(ch)):
            p = diff(ch[i], x)
            for j in range(len(ch)):
                if j != i: p = p * ch[j]
            tot.append(p)
        return z3.Sum(tot)
    if k == z3.Z3_OP_DIV: return (diff(ch[0], x) * ch[1] - ch[0] * diff(ch[1], x)) / (ch[1] * ch[1])
    n = e.decl().name()
    if n == 'EXP': return EXP(ch[0]) * diff(ch[0], x)
    if n == 'LOG': return diff(ch[0], x) / ch[0]
    if n == 'SQRT': return diff(ch[0], x) / (2 * SQRT(ch[0]))
    if k == z3.Z3_OP_TO_REAL: return z3.RealVal(0)
    if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]): return ch[1] * ch[0] ** z3.simplify(ch[1] - 1) * diff(ch[0], x)
    raise Unsupported('derivative of ' + n)
