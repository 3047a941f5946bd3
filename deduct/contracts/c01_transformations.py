"""C01, C02: the constraint maps, their inverses, initial values, gradient factors and log-Jacobians, seen through one element"""
import z3
from .. import rt, vals, shim, elem
from ..base import contract
from ..elem import EArr, EXP, LOG, SQRT, prove
from ..vals import num

REALS = ['machine arithmetic is treated as real arithmetic (rounding: the contracts *_rounding; overflow and underflow: bounded check)',
         'facts about exp, log and sqrt instantiated by deduct/elem.py:axioms are true']
TRUST = ['elementwise numpy functions act on every element alike']


def get(name, c):
    'the constraint object and the description of its domain'
    from paramz import transformations as T
    elem.install()
    if name == 'Logistic':
        l, u = z3.Real('lower'), z3.Real('upper')
        c.assume(l < u)
        t = object.__new__(T.Logistic)
        # what __init__ does, run for real on the symbolic bounds
        T.Logistic.__init__(t, vals.SNum(l), vals.SNum(u))
        return t, (lambda v: z3.And(l < v, v < u)), (lambda v: z3.And(l <= v, v <= u)), (l, u)
    t = getattr(T, name)()
    if name.startswith('Negative'): return t, (lambda v: v < 0), (lambda v: v <= 0), None
    return t, (lambda v: v > 0), (lambda v: v >= 0), None


MARGIN = z3.RealVal('1/10000000000')                     # 1e-10, the clip in Logistic.finv


def unsaturated(name, x):
    if name.endswith('Logexp'): return x >= -700
    if name.endswith('Exponent'): return z3.And(x > -36, x < 36)
    if name == 'Square': return x != 0
    return z3.And(x > -300)


def val(a): return elem.real(a)


def near(a, b):
    d = z3.RealVal('1/1000000000000')
    return z3.And(a - b <= d, b - a <= d)


def band(c, x, name):
    'steps towards the case x <= 36 but softplus(x) > 36 (counted as linear by the inverse)'
    if not name.endswith('Logexp'): return
    K = EXP(z3.RealVal(36)); L = LOG(1 + EXP(x))
    if not c.entails(L > 36): return
    elem.have(c, 1 + EXP(x) > K, extra=[LOG(K)])
    elem.have(c, EXP(x) > 4 * 10 ** 15, extra=[K])
    elem.have(c, x > 35, extra=[EXP(z3.RealVal(35))], use=[EXP(x) > 4 * 10 ** 15])
    elem.have(c, z3.And(L - x > 0, L - x <= z3.RealVal('1/1000000000000000')), extra=[LOG(EXP(x))])


def maps(name):
    def f_into_domain(c):
        t, strict, closed, b = get(name, c)
        x = z3.Real('x'); c.assume(unsaturated(name, x))
        v = val(t.f(EArr(x)))
        prove(c, 'f maps strictly into the domain', strict(v), x=x)
    def f_everywhere(c):
        'for every real optimizer value, the saturated ones too'
        t, strict, closed, b = get(name, c)
        x = z3.Real('x'); a = EArr(x)
        v = val(t.f(a))
        prove(c, 'f never leaves the closed domain', closed(v))
        prove(c, 'the values handed to f are left alone', a.e == x)
    def f_keeps_order(c):
        'also where it saturates: larger optimizer values never give values further from the end that they tend to'
        t, strict, closed, b = get(name, c)
        x = z3.Real('x'); y = z3.Real('y'); c.assume(x <= y)
        v = val(t.f(EArr(x))); w = val(t.f(EArr(y)))
        lo, hi = (-v, -w) if name.startswith('Negative') else (v, w)
        # up to rounding where two branches meet
        goal = lo <= hi + z3.RealVal('1/1000000000000') if name.endswith('Logexp') else lo <= hi * z3.RealVal('1000000000001/1000000000000') if name.endswith('Exponent') else lo <= hi
        if name == 'Square': c.assume(x >= 0)
        K = EXP(z3.RealVal(36))
        if name.endswith('Exponent'): elem.have(c, z3.Implies(x <= 36, EXP(x) <= K))
        if name.endswith('Logexp') and c.entails(x <= 36) and c.entails(y > 36):
            elem.have(c, EXP(x) <= K)
            elem.have(c, LOG(1 + EXP(x)) <= LOG(1 + K))
            elem.have(c, LOG(1 + K) <= 36 + z3.RealVal('1/1000000000000'), extra=[LOG(K)])
        prove(c, 'f keeps the order of optimizer values', goal, extra=[EXP(z3.RealVal(-36)), K] if name.endswith('Exponent') else ())
    def finv_f(c):
        t, strict, closed, b = get(name, c)
        x = z3.Real('x'); c.assume(unsaturated(name, x))
        v = val(t.f(EArr(x)))
        if b is not None: c.assume(z3.And(v - b[0] >= MARGIN, b[1] - v >= MARGIN))
        y = val(t.finv(EArr(v)))
        want = z3.If(x >= 0, x, -x) if name == 'Square' else x
        # one branch of the softplus counts values as linear from 36 on: equal up to rounding there
        g = y == want
        if name.endswith('Logexp'): g = near(y, want)
        band(c, x, name)
        prove(c, 'the inverse of f(x) is x', g, extra=[EXP(x), EXP(-x), LOG(EXP(x))])
    def inverse_leaves_argument(c):
        t, strict, closed, b = get(name, c)
        v = z3.Real('v'); c.assume(strict(v)); a = EArr(v)
        t.finv(a)
        prove(c, 'the values handed to the inverse are left alone', a.e == v)
    def f_finv(c):
        t, strict, closed, b = get(name, c)
        v = z3.Real('v'); c.assume(strict(v))
        if b is not None: c.assume(z3.And(v - b[0] >= MARGIN, b[1] - v >= MARGIN))
        if name.endswith('Exponent'): a = v if not name.startswith('N') else -v; c.assume(z3.And(a > EXP(z3.RealVal(-35)), a < EXP(z3.RealVal(35))))
        x = val(t.finv(EArr(v)))
        if b is not None: c.assume(x > -300)
        # log(expm1(v)) is below the range of the exponential only for values of no practical size
        if name.endswith('Logexp'): c.assume(x > -700)
        w = val(t.f(EArr(x)))
        g = near(w, v) if name.endswith('Logexp') else w == v
        prove(c, 'f of the inverse of v is v', g, extra=[EXP(v), EXP(x), EXP(-x)])
    def initialize(c):
        t, strict, closed, b = get(name, c)
        v = z3.Real('v')
        a = EArr(v)
        w = val(t.initialize(a))
        prove(c, 'the values handed to initialize are left alone', a.e == v)
        prove(c, 'initial values strictly inside the domain are unchanged', z3.Implies(strict(v), w == v))
        prove(c, 'initial values are in the closed domain', closed(w), extra=[EXP(z3.RealVal(0))])
    def gradfactor(c):
        t, strict, closed, b = get(name, c)
        x = z3.Real('x'); g = z3.Real('g'); c.assume(unsaturated(name, x))
        v = val(t.f(EArr(x)))
        if name == 'Square': c.assume(x > 0)     # the optimizer vector offers the positive root
        d = elem.diff(v, x)
        r = val(t.gradfactor(EArr(v), EArr(g)))
        goal = r == g * d
        if name.endswith('Logexp'):
            c.assume(z3.And(g >= -1, g <= 1))    # linear in g: unit gradients
            goal = near(r, g * d)
            band(c, x, name)
        prove(c, 'gradient factor is the derivative of f', goal, extra=[EXP(x), EXP(-x), EXP(v), EXP(-v)])
    def gradfactor_linear(c):
        t, strict, closed, b = get(name, c)
        v = z3.Real('v'); g = z3.Real('g'); c.assume(strict(v))
        n0 = len(c.pc)
        a = EArr(v); d = EArr(g)
        r = val(t.gradfactor(a, d))
        prove(c, 'the values and the gradient handed over are left alone', z3.And(a.e == v, d.e == g))
        r1 = val(t.gradfactor(EArr(v), EArr(z3.RealVal(1))))
        prove(c, 'gradient factor is linear in the gradient', r == g * r1)
    def logjac(c):
        t, strict, closed, b = get(name, c)
        from paramz.transformations import Transformation
        if type(t).log_jacobian is Transformation.log_jacobian: c.prove('no log-Jacobian provided', True); return
        x = z3.Real('x'); c.assume(unsaturated(name, x))
        if name == 'Logexp': c.assume(z3.Or(x <= 35, x > 36))
        v = val(t.f(EArr(x)))
        d = elem.diff(v, x)
        l = val(t.log_jacobian(EArr(v)))
        a = d if name != 'NegativeExponent' else -d
        prove(c, 'the derivative has the sign of the absolute value used', a > 0, extra=[EXP(x)])
        # l = log a  <=>  exp l = a
        band(c, x, name)
        if name.endswith('Logexp'):
            elem.have(c, EXP(v) == 1 + EXP(x))
            elem.have(c, l == x - v, extra=[LOG(EXP(x))])
            elem.have(c, EXP(l) == EXP(x - v), extra=[])
            elem.have(c, EXP(x - v) * EXP(v) == EXP(x))
            elem.have(c, EXP(l) * (1 + EXP(x)) == EXP(x))
        prove(c, 'log-Jacobian is the logarithm of the derivative', EXP(l) == a if not elem.const(d) == 1 else l == 0, extra=[EXP(x), EXP(v), EXP(-v), EXP(l), EXP(l + v)])
    def logjac_grad(c):
        t, strict, closed, b = get(name, c)
        from paramz.transformations import Transformation
        if type(t).log_jacobian is Transformation.log_jacobian: c.prove('no log-Jacobian provided', True); return
        v = z3.Real('v'); c.assume(strict(v))
        l = val(t.log_jacobian(EArr(v)))
        d = elem.diff(l, v)
        r = val(t.log_jacobian_grad(EArr(v)))
        goal = r == d
        if name == 'Logexp': c.assume(v > z3.RealVal('1/1000')); goal = near(r, d)
        prove(c, 'gradient of the log-Jacobian is its derivative', goal, extra=[EXP(v), EXP(z3.RealVal(36))])
    return dict(f_into_domain=('C01', f_into_domain, ['f']), f_everywhere=('C01', f_everywhere, ['f']), f_keeps_order=('C01', f_keeps_order, ['f']), inverse_leaves_argument=('C01', inverse_leaves_argument, ['finv']), finv_f=('C01 C05', finv_f, ['f', 'finv']), f_finv=('C01 C05', f_finv, ['f', 'finv']), initialize=('C01 C09', initialize, ['initialize']),
                gradfactor=('C02 C06', gradfactor, ['f', 'gradfactor']), gradfactor_linear=('C02', gradfactor_linear, ['gradfactor']), log_jacobian=('C02', logjac, ['log_jacobian']), log_jacobian_grad=('C02', logjac_grad, ['log_jacobian_grad']))


for _n in ('Logexp', 'NegativeLogexp', 'Exponent', 'NegativeExponent', 'Square', 'Logistic'):
    for _k, (_p, _f, _m) in maps(_n).items():
        contract(_p, ['%s.%s' % (_n, m) for m in _m], name='%s_%s' % (_n, _k), assumes=REALS, trusted=TRUST)(_f)
