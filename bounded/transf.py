"""C01, C02: bounded evaluation of the constraint maps against independent formulas (mpmath-free, math module)."""
import random, math, hashlib
import numpy as np
from paramz import transformations as TR

SIMPLE = ['Logexp', 'NegativeLogexp', 'Exponent', 'NegativeExponent', 'Square']


def bounds(rng):
    k = rng.random()
    if k < .3: l = rng.choice([0., -1., -2., 1e-3, 1., -10., 5.]); u = l + rng.choice([1., .5, 3., 10.])
    elif k < .8: l = rng.uniform(-20, 20); u = l + math.exp(rng.uniform(-3, 4))
    else: l = -math.exp(rng.uniform(-3, 4)); u = math.exp(rng.uniform(-3, 4))
    return l, u


def make(rng):
    if rng.random() < .35:
        l, u = bounds(rng); return TR.Logistic(l, u), ('Logistic', l, u)
    n = rng.choice(SIMPLE)
    return getattr(TR, n)(), (n,)


def shape(rng):
    return rng.choice([(1,), (2,), (5,), (7,), (2, 3), (3, 1), (1, 4), (2, 2, 2)])


def xs(rng, key, n):
    """optimizer values outside of the saturated range"""
    k = key[0]
    if k in ('Logexp', 'NegativeLogexp'):
        return [rng.choice([rng.uniform(-5, 5), rng.uniform(-25, 34), rng.uniform(30, 45), rng.uniform(36, 200), -rng.uniform(0, .1), 36., -36. + 7, rng.uniform(-690, -25)]) for _ in range(n)]
    if k in ('Exponent', 'NegativeExponent'):
        return [rng.choice([rng.uniform(-5, 5), rng.uniform(-35, 35), 0.]) for _ in range(n)]
    if k == 'Square':
        return [rng.choice([-1, 1]) * rng.choice([rng.uniform(.01, 5), rng.uniform(.01, 1e4)]) for _ in range(n)]
    return [rng.choice([rng.uniform(-5, 5), rng.uniform(-12, 12), 0.]) for _ in range(n)]


def dom(key, v):
    k = key[0]
    if k in ('Logexp', 'Exponent', 'Square'): return v > 0
    if k in ('NegativeLogexp', 'NegativeExponent'): return v < 0
    return key[1] < v < key[2]


def vs(rng, key, n):
    """legal parameter values"""
    k = key[0]
    out = []
    for _ in range(n):
        if k == 'Logistic':
            l, u = key[1:]; t = rng.choice([rng.uniform(.01, .99), rng.uniform(1e-4, 1 - 1e-4)]); out.append(l + t * (u - l))
        else:
            m = rng.choice([rng.uniform(.1, 5), math.exp(rng.uniform(-15, 5)), math.exp(rng.uniform(-35 if 'Exp' in k else -80, -15)), rng.uniform(30, 60) if 'Log' in k else rng.uniform(5, 900), 36.])
            out.append(-m if k.startswith('Neg') else m)
    return out


def der(key, v):
    """df/dx at f(x)=v"""
    k = key[0]
    if k == 'Logexp': return -math.expm1(-v)
    if k == 'NegativeLogexp': return -(-math.expm1(v))
    if k in ('Exponent', 'NegativeExponent'): return v
    if k == 'Square': return 2. * math.sqrt(v)
    l, u = key[1:]; return (v - l) * (u - v) / (u - l)


def dlogder(key, v):
    """derivative of log|df/dx| with respect to v"""
    k = key[0]
    if k == 'Logexp': return 1. / math.expm1(v) if v < 700 else 0.
    if k in ('Exponent', 'NegativeExponent'): return 1. / v
    raise KeyError


def arr(rng, l, sh=None):
    a = np.array(l, float)
    if sh is not None: a = a.reshape(sh)
    if rng.random() < .2 and a.ndim > 1: a = np.asfortranarray(a)
    if rng.random() < .2 and a.ndim == 1:
        b = np.zeros(2 * a.size); b[::2] = a; a = b[::2]
    return a


class Bad(Exception):
    pass


def close(a, b, rel=1e-9, ab=0.):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + ab


def case(prop, seed, n=40):
    rng = random.Random('%s/%d' % (prop, seed))
    k = 0; viol = None; sample = []; keys = []
    np.seterr(all='ignore')
    try:
        for _ in range(n):
            t, key = make(rng)
            cur = (key,)
            if prop == 'C01': k += maps(rng, t, key, cur, sample)
            else: k += grads(rng, t, key, cur, sample)
            keys.append(repr(key))
    except Bad as e:
        viol = dict(what=e.args[0], detail=[str(e.args[1])], seed=seed, input=repr(e.args[2]))
    except Exception as e:
        viol = dict(what='%s: %s' % (type(e).__name__, e), detail=[repr(key)], seed=seed)
    return dict(n=k, key=hashlib.sha1(repr(sample).encode()).hexdigest(), viol=viol, other=None, sample=sample[:3])


def xerr(key, v):
    """how much an optimizer value may be off after going through the parameter value v"""
    k = key[0]
    e = 4e-16
    if k == 'Logistic':
        l, u = key[1:]
        return 40 * e * max(abs(l), abs(u), 1e-3) * (u - l) / max(1e-300, (v - l) * (u - v)) + 1e-12
    return 1e-9


def maps(rng, t, key, cur, sample):
    sh = shape(rng); m = int(np.prod(sh))
    x = xs(rng, key, m); X = arr(rng, x, sh); X0 = X.copy()
    V = t.f(X)
    if np.shape(V) != sh: raise Bad('f changes the shape', (np.shape(V), sh), (key, x))
    if not (X == X0).all(): raise Bad('f changes its argument', '', (key, x))
    V = np.array(V)
    sample.append([list(key), x[:3]])
    for xi, vi in zip(X.ravel(), V.ravel()):
        if not dom(key, vi): raise Bad('f leaves the domain', 'f(%r)=%r' % (float(xi), float(vi)), (key, x))
        one = np.asarray(t.f(np.array([xi]))).ravel()[0]
        if not close(one, vi, 1e-13): raise Bad('f is not elementwise', 'f(%r)=%r alone, %r in the array' % (float(xi), float(one), float(vi)), (key, x))
    B = np.asarray(t.finv(V))
    if B.shape != sh: raise Bad('finv changes the shape', (B.shape, sh), (key, x))
    for xi, bi, vi in zip(X.ravel(), B.ravel(), V.ravel()):
        want = abs(xi) if key[0] == 'Square' else xi
        if not close(bi, want, 1e-8, xerr(key, vi)): raise Bad('finv(f(x)) is not x', 'x=%r f=%r finv=%r' % (float(xi), float(vi), float(bi)), (key, x))
    # any finite value, the saturated ones too: order and closed domain
    y = [rng.choice([rng.uniform(-5, 5), rng.uniform(-40, 40), rng.uniform(-320, 320), rng.uniform(-900, 900), -1e5, 1e5]) for _ in range(m)]
    Y = arr(rng, y, sh); Y0 = Y.copy()
    O = np.asarray(t.f(Y))
    if not (Y == Y0).all(): raise Bad('f changes its argument', '', (key, y))
    kk = key[0]; last = None
    for yi, oi in sorted(zip(Y.ravel().tolist(), O.ravel().tolist()), key=lambda p: abs(p[0]) if kk == 'Square' else p[0]):
        if not (oi >= 0 if kk in ('Logexp', 'Exponent', 'Square') else oi <= 0 if kk != 'Logistic' else key[1] - 1e-12 * abs(key[1]) <= oi <= key[2] + 1e-12 * abs(key[2])):
            raise Bad('f leaves the closed domain', 'f(%r)=%r' % (yi, oi), (key, y))
        a = -oi if kk.startswith('Neg') else oi
        if last is not None and a < last - 1e-9 * (abs(last) + (kk == 'Logistic') * (key[2] - key[1] if kk == 'Logistic' else 0)): raise Bad('f does not keep the order of optimizer values', 'f(%r)=%r' % (yi, oi), (key, y))
        last = a
        one = np.asarray(t.f(np.array([yi]))).ravel()[0]
        if not close(one, oi, 1e-13): raise Bad('f is not elementwise', 'f(%r)=%r alone, %r in the array' % (yi, float(one), oi), (key, y))
    v = vs(rng, key, m); W = arr(rng, v, sh); W0 = W.copy()
    I = np.asarray(t.finv(W)); F = np.asarray(t.f(np.array(I)))
    if not (W == W0).all(): raise Bad('finv changes its argument', '', (key, v))
    for vi, ii, fi in zip(W.ravel(), I.ravel(), F.ravel()):
        if not close(fi, vi, 1e-8, 1e-13 if key[0] == 'Logistic' else 0.): raise Bad('f(finv(v)) is not v', 'v=%r finv=%r f=%r' % (float(vi), float(ii), float(fi)), (key, v))
        one = np.asarray(t.finv(np.array([vi]))).ravel()[0]
        if not close(one, ii, 1e-12, 1e-15): raise Bad('finv is not elementwise', 'v=%r %r %r' % (vi, one, ii), (key, v))
    # initial values
    y = [rng.choice([a, -a, rng.uniform(-3, 3), 0., rng.uniform(-1e3, 1e3)]) for a in v]
    if key[0] == 'Logistic' and rng.random() < .4: y[rng.randrange(m)] = rng.choice(key[1:])
    Y = arr(rng, y, sh); Y0 = Y.copy()
    Z = np.asarray(t.initialize(Y))
    if Z.shape != sh: raise Bad('initialize changes the shape', (Z.shape, sh), (key, y))
    for yi, zi in zip(Y0.ravel(), Z.ravel()):
        if dom(key, yi):
            if zi != yi: raise Bad('initialize moves a legal value', '%r -> %r' % (float(yi), float(zi)), (key, y))
        else:
            kk = key[0]
            ok = zi >= 0 if kk in ('Logexp', 'Exponent', 'Square') else (zi <= 0 if kk != 'Logistic' else key[1] <= zi <= key[2])
            if not ok: raise Bad('initialize leaves a value outside the domain', '%r -> %r' % (float(yi), float(zi)), (key, y))
    return 3 * m


def grads(rng, t, key, cur, sample):
    m = rng.choice([1, 2, 3, 6])
    v = vs(rng, key, m); g = [rng.choice([rng.uniform(-3, 3), 0., 1., rng.uniform(-1e4, 1e4)]) for _ in range(m)]
    V = arr(rng, v); G = arr(rng, g); V0, G0 = V.copy(), G.copy()
    sample.append([list(key), v[:3], g[:3]])
    R = np.asarray(t.gradfactor(V, G))
    if R.shape != (m,): raise Bad('gradfactor changes the shape', R.shape, (key, v, g))
    if not ((V == V0).all() and (G == G0).all()): raise Bad('gradfactor changes its arguments', '', (key, v, g))
    for vi, gi, ri in zip(v, g, R):
        w = gi * der(key, vi)
        if not close(ri, w, 1e-9): raise Bad('gradfactor is not the derivative', 'at %r with gradient %r: %r, expected %r' % (vi, gi, float(ri), w), (key, v, g))
    k = m
    for name in ('log_jacobian', 'log_jacobian_grad'):
        fn = getattr(type(t), name)
        if fn is getattr(TR.Transformation, name): continue
        if name == 'log_jacobian_grad' and type(t).log_jacobian is TR.Transformation.log_jacobian: continue
        J = np.asarray(getattr(t, name)(V))
        if J.shape != (m,): raise Bad(name + ' changes the shape', J.shape, (key, v))
        if not (V == V0).all(): raise Bad(name + ' changes its argument', '', (key, v))
        for vi, ji in zip(v, J):
            if name == 'log_jacobian':
                w = math.log(abs(der(key, vi))); ok = close(ji, w, 1e-9, 1e-11 + 4e-16 * abs(vi))
                if 'Log' in key[0] and vi < 1e-4: ok = close(ji, w, 1e-7, 1e-7)
            else:
                try: w = dlogder(key, vi)
                except KeyError:
                    h = 1e-5 * abs(vi)
                    w = (math.log(abs(der(key, vi + h))) - math.log(abs(der(key, vi - h)))) / (2 * h)
                ok = close(ji, w, 1e-9, 1e-15) if key[0] in ('Logexp', 'Exponent', 'NegativeExponent') else close(ji, w, 1e-4, 1e-6)
            if not ok: raise Bad(name + ' is wrong', 'at %r: %r, expected %r' % (vi, float(ji), w), (key, v))
        k += m
    return k
