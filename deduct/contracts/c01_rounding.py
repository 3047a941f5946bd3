"""C01, C02: rounding.  What the maps compute in floating point is close to the functions they stand for, also where formulas that are
equal over the reals lose all their digits (small positive values, values near the bounds)."""
import z3
from .. import vals, elem, fperr
from ..base import contract
from ..elem import EXP, LOG, SQRT
from ..fperr import PArr, PNum, ab, close

ASSUME = ['facts about exp, log and sqrt instantiated by deduct/elem.py:axioms are true', 'range: |x| < 300 (-700 < x < 300 for the softplus), values v with 1e-30 < |v| < 300']
TRUST = ['elementwise numpy functions act on every element alike', fperr.OVER]
T = z3.RealVal('1/1000000000000')
ONE = z3.RealVal(1)
TB = z3.RealVal('1/100000000000')


def get(name, c):
    from paramz import transformations as M
    fperr.install()
    if name != 'Logistic': return getattr(M, name)(), None
    l, u = z3.Real('lower'), z3.Real('upper')
    c.assume(z3.And(l < u, l > -1000, u < 1000, u - l > z3.RealVal('1/1000000')))
    t = object.__new__(M.Logistic); M.Logistic.__init__(t, PNum(l), PNum(u))
    return t, (l, u)


def real_one(name, env):
    from paramz import transformations as M
    return getattr(M, name)(*([env['lower'], env['upper']] if name == 'Logistic' else []))


def pre(c, name, x=None, v=None, b=None, g=None):
    if x is not None: c.assume(z3.And(x > (-700 if name.endswith('Logexp') else -36 if name.endswith('Exponent') else -300), x < (36 if name.endswith('Exponent') else 300)))
    if v is not None:
        s = -v if name.startswith('Negative') else v
        c.assume(z3.And(s > z3.RealVal(1) / z3.RealVal(10 ** 30), s < 300) if b is None else z3.And(v - b[0] > elem.rv(elem.fractions.Fraction(1e-10) * 2), b[1] - v > elem.rv(elem.fractions.Fraction(1e-10) * 2)))
    if g is not None: c.assume(z3.And(g >= -1000, g <= 1000))
    c.ghost['pre'] = list(c.pc); c.ghost['input'] = list(c.pc) + [z3.Real('x') == 0] * (x is not None)


def run(name, meth):
    import numpy as np
    def go(env):
        t = real_one(name, env)
        a = [np.array([env[k]]) for k in ('x', 'v', 'g') if k in env]
        with np.errstate(all='ignore'): return float(np.asarray(getattr(t, meth)(*a)).ravel()[0])
    return go


def soft(x): return LOG(1 + EXP(x))
def isoft(v): return LOG(EXP(v) - 1)


def both(name):
    s = -1 if name.startswith('Negative') else 1
    base = name.replace('Negative', '')
    def f(c):
        t, b = get(name, c)
        x = z3.Real('x'); pre(c, name, x=x)
        r = t.f(PArr(x))
        ref = {'Logexp': lambda: s * soft(x), 'Exponent': lambda: s * EXP(x), 'Square': lambda: x * x, 'Logistic': lambda: b[0] + (b[1] - b[0]) / (1 + EXP(-x))}[base]()
        ex = [EXP(x), LOG(ONE)]
        if base == 'Logexp': band(c, x)
        tol = T * (ab(b[0]) + ab(b[1])) if b else T * (s * ref)
        close(c, 'f is computed with a small relative error', r, ref, tol, run(name, 'f'), extra=ex)
    def finv(c):
        t, b = get(name, c)
        v = z3.Real('v'); pre(c, name, v=v, b=b)
        w = s * v
        if base == 'Logexp': elem.have(c, EXP(w) > 1); wide(c, w)
        r = t.finv(PArr(v))
        ref = {'Logexp': lambda: isoft(w), 'Exponent': lambda: LOG(w), 'Square': lambda: SQRT(v), 'Logistic': lambda: LOG((v - b[0]) / (b[1] - v))}[base]()
        close(c, 'the inverse is computed with a small error', r, ref, T * (1 + ab(ref)), run(name, 'finv'), extra=[LOG(EXP(w))])
    def back(c):
        t, b = get(name, c)
        x = z3.Real('x'); pre(c, name, x=x)
        if base == 'Square': c.assume(x > z3.RealVal('1/1000000000000')); c.ghost['pre'] = list(c.pc)
        if base == 'Logexp':
            band(c, x)
            elem.have(c, z3.And(soft(x) <= EXP(x), soft(x) > 0), extra=[LOG(ONE)])
            elem.have(c, soft(x) - x <= EXP(-x), extra=[LOG(EXP(x)), EXP(x)])
            elem.have(c, z3.Implies(x > 30, EXP(-x) < z3.RealVal('1/10000000000000')), extra=[EXP(z3.RealVal(-30))])
            elem.have(c, z3.Implies(x <= 30, soft(x) < 31), extra=[EXP(z3.RealVal(30)), LOG(1 + EXP(z3.RealVal(30)))])
            elem.have(c, soft(x) - x >= 0, extra=[LOG(EXP(x))])
            elem.have(c, soft(x) <= z3.If(x > 0, x + 1, 1), extra=[LOG(EXP(x)), LOG(2 * EXP(x)), LOG(z3.RealVal(2))])
        r = t.f(PArr(x))
        if base == 'Logexp' and not fperr.iszero(r.d): elem.have(c, fperr.U * r.d < z3.RealVal('1/1000000000'), extra=[EXP(x)])
        y = t.finv(r)
        def go(env):
            import numpy as np
            u = real_one(name, env)
            with np.errstate(all='ignore'): return float(np.asarray(u.finv(u.f(np.array([env['x']])))).ravel()[0])
        close(c, 'the inverse brings back the optimizer value up to rounding', y, x, TB * (1 + ab(x)), go, extra=[LOG(EXP(x)), LOG(ONE)])
    def gradfactor(c):
        t, b = get(name, c)
        v = z3.Real('v'); g = z3.Real('g'); pre(c, name, v=v, b=b, g=g)
        w = s * v
        r = t.gradfactor(PArr(v), PArr(g))
        d = {'Logexp': lambda: s * (1 - EXP(-w)), 'Exponent': lambda: v, 'Square': lambda: 2 * SQRT(v), 'Logistic': lambda: (v - b[0]) * (b[1] - v) / (b[1] - b[0])}[base]()
        if base == 'Logexp': elem.have(c, EXP(-w) < 1); small(c, w)
        close(c, 'the gradient factor is computed with a small relative error', r, g * d, T * (ab(g) * (s * d)), run(name, 'gradfactor'))
    def logjac(c):
        t, b = get(name, c)
        from paramz.transformations import Transformation
        if type(t).log_jacobian is Transformation.log_jacobian: c.prove('no log-Jacobian provided', True); return
        v = z3.Real('v'); pre(c, name, v=v, b=b)
        w = s * v
        if base == 'Logexp': elem.have(c, EXP(w) > 1); wide(c, w)
        r = t.log_jacobian(PArr(v))
        ref = isoft(w) - w if base == 'Logexp' else LOG(w)
        close(c, 'the log-Jacobian is computed with a small error', r, ref, T * (1 + ab(ref) + w), run(name, 'log_jacobian'), extra=[LOG(EXP(w))])
    def logjac_grad(c):
        t, b = get(name, c)
        from paramz.transformations import Transformation
        if type(t).log_jacobian is Transformation.log_jacobian: c.prove('no log-Jacobian provided', True); return
        v = z3.Real('v'); pre(c, name, v=v, b=b)
        if base == 'Logexp': elem.have(c, EXP(v) > 1)
        r = t.log_jacobian_grad(PArr(v))
        ref = 1 / (EXP(v) - 1) if base == 'Logexp' else 1 / v
        close(c, 'the gradient of the log-Jacobian is computed with a small relative error', r, ref, T * (s * ref), run(name, 'log_jacobian_grad'))
    return dict(**({} if base == 'Logistic' else dict(back_rounding=('C01 C05', back, ['f', 'finv']))), f_rounding=('C01', f, ['f']), finv_rounding=('C01', finv, ['finv']), gradfactor_rounding=('C02', gradfactor, ['gradfactor']), log_jacobian_rounding=('C02', logjac, ['log_jacobian']), log_jacobian_grad_rounding=('C02', logjac_grad, ['log_jacobian_grad']))


def band(c, x):
    'beyond 36 the softplus is taken to be linear'
    L = soft(x)
    elem.have(c, z3.Implies(x > 36, EXP(x) > 4 * 10 ** 15), extra=[EXP(z3.RealVal(36))])
    elem.have(c, z3.Implies(x > 36, z3.And(L - x > 0, L - x <= z3.RealVal('1/1000000000000000'))), extra=[LOG(EXP(x))])


def wide(c, w):
    'beyond 36 so is its inverse'
    L = isoft(w)
    elem.have(c, z3.Implies(w > 36, EXP(w) > 4 * 10 ** 15), extra=[EXP(z3.RealVal(36))])
    elem.have(c, z3.Implies(w > 36, z3.And(w - L > 0, w - L <= z3.RealVal('1/1000000000000000'))), extra=[LOG(EXP(w))])


def small(c, w):
    elem.have(c, z3.Implies(w > 36, EXP(-w) < z3.RealVal('1/4000000000000000')), extra=[EXP(z3.RealVal(-36))])


for _n in ('Logexp', 'NegativeLogexp', 'Exponent', 'NegativeExponent', 'Square', 'Logistic'):
    for _k, (_p, _f, _m) in both(_n).items():
        contract(_p, ['%s.%s' % (_n, m) for m in _m], name='%s_%s' % (_n, _k), assumes=ASSUME, trusted=TRUST)(_f)
