"""python -m deduct.selfcheck [SEED] [N]: compares the meaning the engine gives to numpy functions, IEEE arithmetic and the facts about
exp/log/sqrt with the installed numpy and CPython, on random ordinary values.  It tests the trusted base; it decides no property."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import fractions, math, random, time
import numpy as np
import z3
from . import rt, vals, shim, index, ieee, elem

BAD = []
N = {}


def bad(what, *info): BAD.append((what,) + info)


def did(k): N[k] = N.get(k, 0) + 1


def in_ctx(fn):
    'runs fn(c) as a path of its own'
    S = rt.Session(time.time() + 600)
    S.explore(fn)
    if S.unsupported or S.error: bad('not carried out', fn.__qualname__, S.unsupported or S.error)
    for n, o in S.obl.items():
        if o.refuted or o.unknown: bad('obligation of the shim is false for legal input: ' + n)


def const(f):
    f = z3.simplify(f)
    return True if z3.is_true(f) else False if z3.is_false(f) else f


def sym(a):
    'the index array a as the engine sees it: membership, sorted and distinct or not'
    l = [int(x) for x in a]
    return index.SIdx(lambda k: z3.Or([k == v for v in l]) if l else z3.BoolVal(False), l == sorted(set(l)))


def mask(a): return index.SMask(vals.SNum(z3.IntVal(len(a))), lambda k: z3.Or([k == i for i, v in enumerate(a) if v] or [z3.BoolVal(False)]))


def same_idx(what, s, a, *info):
    l = [int(x) for x in a]
    for k in range(-3, 25):
        m = const(s.m(z3.IntVal(k)))
        if m is not (k in l): return bad(what, 'position %d' % k, m, l, info)
    if s.sorted and l != sorted(set(l)): bad(what, 'said to be sorted and distinct', l, info)
    did(what)


def same_mask(what, s, a, *info):
    for k in range(len(a)):
        m = const(s.p(z3.IntVal(k)))
        if m is not bool(a[k]): return bad(what, k, m, list(a), info)
    did(what)


def sets(rng):
    def go(c):
        n = 20
        A = rng.sample(range(n), rng.randrange(0, 8)); B = rng.sample(range(n), rng.randrange(0, 8))
        if rng.random() < .6: A.sort()
        if rng.random() < .6: B.sort()
        if rng.random() < .3 and A: A.append(rng.choice(A))
        a, b = np.array(A, int), np.array(B, int); x = rng.randrange(-2, 22); o = rng.randrange(-4, 5)
        same_idx('union1d', index.union1d(sym(a), sym(b)), np.union1d(a, b), A, B)
        same_idx('setdiff1d', index.setdiff1d(sym(a), sym(b)), np.setdiff1d(a, b), A, B)
        same_idx('setdiff1d unique', index.setdiff1d(sym(a), sym(b), True), np.setdiff1d(a, b, True), A, B)
        same_idx('intersect1d', index.intersect1d(sym(a), sym(b)), np.intersect1d(a, b), A, B)
        ua, ub = np.unique(a), np.unique(b)
        same_idx('intersect1d unique', index.intersect1d(sym(ua), sym(ub), True), np.intersect1d(ua, ub, True), A, B)
        same_idx('add', sym(ua) + 3, ua + 3); same_idx('subtract', sym(ua) - 2, ua - 2)
        for nm, f in (('>=', lambda v: v >= x), ('>', lambda v: v > x), ('<=', lambda v: v <= x), ('<', lambda v: v < x), ('==', lambda v: v == x), ('!=', lambda v: v != x)):
            s = sym(ua); same_idx('select ' + nm, s[f(s)], ua[f(ua)], list(ua), x)
        s = sym(ua); same_idx('and', s[(s >= x) & (s < x + 6)], ua[(ua >= x) & (ua < x + 6)]); same_idx('or', s[(s < x) | (s > x + 2)], ua[(ua < x) | (ua > x + 2)]); same_idx('not', s[~(s < x)], ua[~(ua < x)])
        # shifting a part in place, through a selection, and of the array itself
        s, v = sym(ua), ua.copy(); s[s >= x] += o; v[v >= x] += o; same_idx('in-place shift of a part', s, v, list(ua), x, o)
        s, v = sym(ua), ua.copy(); s[s >= x] -= o; v[v >= x] -= o; same_idx('in-place shift of a part back', s, v, list(ua), x, o)
        s, v = sym(ua), ua.copy(); s += o; v += o; same_idx('in-place shift', s, v)
        # number of entries
        s = sym(ua); card = s.card()
        if not c.entails(z3.Implies(card.e == 0, z3.BoolVal(len(ua) == 0))) or not c.entails(z3.Implies(card.e > 0, z3.BoolVal(len(ua) > 0))): bad('number of entries', list(ua))
        did('number of entries')
    in_ctx(go)


def masks(rng):
    def go(c):
        n = rng.randrange(1, 12)
        p = np.array([rng.random() < .5 for _ in range(n)]); q = np.array([rng.random() < .5 for _ in range(n)]); i = np.array(sorted(rng.sample(range(n), rng.randrange(0, n))), int)
        same_mask('mask and', mask(p) & mask(q), p & q); same_mask('mask or', mask(p) | mask(q), p | q); same_mask('mask not', ~mask(p), ~p); same_mask('mask *', mask(p) * mask(q), p * q)
        for val in (True, False):
            s, v = mask(p), p.copy(); s[sym(i)] = val; v[i] = val; same_mask('mask written at positions', s, v)
            s, v = mask(p), p.copy(); s[mask(q)] = val; v[q] = val; same_mask('mask written at a mask', s, v)
            s, v = mask(p), p.copy(); s[:] = val; v[:] = val; same_mask('mask written', s, v)
        same_mask('ones', index.ones(vals.SNum(z3.IntVal(n)), dtype=bool), np.ones(n, bool)); same_mask('zeros', index.zeros(vals.SNum(z3.IntVal(n)), dtype=bool), np.zeros(n, bool))
        same_idx('flatnonzero', index.mask_idx(mask(p)), np.flatnonzero(p)); same_idx('r_', index.r_(slice(vals.SNum(z3.IntVal(2)), vals.SNum(z3.IntVal(n)))), np.r_[2:n]); same_idx('arange', index.FN['arange'](vals.SNum(z3.IntVal(n))), np.arange(n))
        for nm, r, t in (('all', mask(p).all(), p.all()), ('any', mask(p).any(), p.any())):
            if not c.entails(r.e == z3.BoolVal(bool(t))): bad(nm, list(p))
            did('mask ' + nm)
        F = mask(p).cumsum()
        for k in range(n):
            if not c.entails(F.F(z3.IntVal(k)) == int(p.cumsum()[k])): bad('cumsum', list(p), k)
        did('cumsum')
        cards = c.ghost.setdefault('cards', [])
        m = sym(np.flatnonzero(~p)); cards.append((m.m, vals.SNum(z3.IntVal(int((~p).sum())))))
        if not c.entails(vals.num(mask(p).sum()) == int(p.sum())): bad('number of true entries', list(p))
        did('mask sum')
    in_ctx(go)


def arrays(rng):
    n = rng.randrange(1, 8); a = [rng.randrange(-5, 6) for _ in range(n)]; b = [rng.randrange(-5, 6) for _ in range(n)]
    p = np.array([rng.random() < .5 for _ in range(n)]); i = np.array(sorted(rng.sample(range(n), rng.randrange(0, n))), int); j = rng.randrange(n)
    for k0 in range(n):
        def go(c):
            e = lambda v: z3.RealVal(int(v))
            mk = lambda v: index.FArr(vals.SNum(z3.IntVal(n)), e(v[k0]), z3.IntVal(k0))
            def eq(what, s, t):
                r = z3.simplify(s.e)
                if not (z3.is_rational_value(r) and r.as_fraction() == fractions.Fraction(int(t))): bad(what, a, b, k0, r, t)
                did(what)
            A, B = np.array(a), np.array(b)
            eq('array +', mk(a) + mk(b), (A + B)[k0]); eq('array -', mk(a) - mk(b), (A - B)[k0]); eq('array *', mk(a) * 3, (A * 3)[k0]); eq('array neg', -mk(a), (-A)[k0])
            s, v = mk(a), A.copy(); s[sym(i)] = 7; v[i] = 7; eq('array written at positions', s, v[k0])
            s, v = mk(a), A.copy(); s[mask(p)] = 7; v[p] = 7; eq('array written at a mask', s, v[k0])
            s, v = mk(a), A.copy(); s[:] = mk(b); v[:] = B; eq('array overwritten', s, v[k0])
            s, v = mk(a), A.copy(); s.flat[sym(i)] = mk(b)[sym(i)]; v.flat[i] = B[i]; eq('array written at positions with values', s, v[k0])
            s, v = mk(a), A.copy(); index.put(s, sym(i), mk(b)[sym(i)]); np.put(v, i, B[i]); eq('put', s, v[k0])
            s, v = mk(a), A.copy(); s.put(vals.SNum(z3.IntVal(j)), 9); v[j] = 9; eq('one entry written', s, v[k0])
            s, v = mk(a), A.copy(); t, w = s.copy(), v.copy(); t[:] = 1; w[:] = 1; eq('copy', s, v[k0])
        in_ctx(go)


SPECIAL = [0.0, -0.0, 1.0, -1.0, 2.5, -3.25, 1e-3, float('inf'), -float('inf'), float('nan')]


def floats(rng):
    x, y = rng.choice(SPECIAL + [rng.uniform(-9, 9)]), rng.choice(SPECIAL + [rng.uniform(-9, 9)])
    def go(c):
        X, Y = ieee.F.of(x), ieee.F.of(y)
        with np.errstate(all='ignore'):
            ops = [('+', X + Y, np.float64(x) + np.float64(y)), ('-', X - Y, np.float64(x) - np.float64(y)), ('*', X * Y, np.float64(x) * np.float64(y)), ('/', X / Y, np.float64(x) / np.float64(y)),
                   ('neg', -X, -np.float64(x)), ('abs', abs(X), abs(np.float64(x))), ('sqrt', ieee.sqrt(X), np.sqrt(np.float64(x)))]
        for nm, s, t in ops:
            T = ieee.F.of(float(t))
            # the result of the hardware must be one of the results the engine allows (of a sum, product, ... only sign and class are fixed)
            cls = z3.And(s.nan == T.nan, z3.Implies(z3.Not(T.nan), z3.And(s.inf == T.inf, s.neg == T.neg, (s.r == 0) == (T.r == 0) if math.isfinite(t) else z3.BoolVal(True))))
            if c.check(cls) != z3.sat: bad('float ' + nm, x, y, float(t))
            did('float ' + nm)
        for nm, s, t in (('<', X < Y, x < y), ('<=', X <= Y, x <= y), ('>', X > Y, x > y), ('>=', X >= Y, x >= y), ('==', X == Y, x == y), ('!=', X != Y, x != y)):
            e = s.e if hasattr(s, 'e') else z3.BoolVal(bool(s))
            if not c.entails(e == z3.BoolVal(t)): bad('float ' + nm, x, y)
            did('float ' + nm)
        for nm, s, t in (('isnan', ieee.isnan(X), math.isnan(x)), ('isfinite', ieee.isfinite(X), math.isfinite(x)), ('isinf', ieee.isinf(X), math.isinf(x))):
            if not c.entails(s.e == z3.BoolVal(t)): bad(nm, x)
            did(nm)
    in_ctx(go)


def facts(rng):
    'every instance of a fact about exp, log and sqrt is true at random arguments'
    xs = [z3.Real('x%d' % i) for i in range(3)]
    env = {'x%d' % i: fractions.Fraction(str(round(rng.choice([rng.uniform(-3, 3), rng.uniform(-40, 40), 10 ** rng.uniform(-6, 2), 0, 1]), 9))) for i in range(3)}
    if rng.random() < .3: env['x1'] = -env['x0']
    if rng.random() < .3: env['x2'] = env['x0'] + env['x1']
    ts = [elem.EXP(xs[0]), elem.EXP(xs[1]), elem.EXP(xs[2]), elem.LOG(xs[0]), elem.LOG(xs[1]), elem.SQRT(xs[2]), elem.LOG(1 + elem.EXP(xs[0])), elem.EXP(z3.RealVal(rng.randrange(-30, 30))), elem.LOG(z3.RealVal(rng.randrange(1, 30)))]
    ts = rng.sample(ts, 4)
    for f in elem.axioms([t == 0 for t in ts]):
        if f.decl().kind() == z3.Z3_OP_IMPLIES and f.arg(0).decl().kind() == z3.Z3_OP_EQ:
            # a premise that is only nearly true says nothing
            try:
                if elem.evalf(f.arg(0).arg(0), env) != elem.evalf(f.arg(0).arg(1), env): continue
            except (ValueError, ZeroDivisionError, OverflowError): continue
        try: r = elem.evalf(f, env)
        except (ValueError, ZeroDivisionError, OverflowError): continue
        if not r:
            # equality within rounding of the evaluation is no counterexample
            bad('fact about exp, log, sqrt', str(f)[:300], {k: str(v) for k, v in env.items()})
        did('fact')


def elementwise(rng):
    'elementwise numpy functions against the real number they are given as'
    x, y = rng.uniform(-4, 4), rng.uniform(-4, 4)
    fx, fy = fractions.Fraction(x), fractions.Fraction(y)
    pos = {'log', 'sqrt', 'reciprocal'}
    for nm in ('exp', 'log', 'log1p', 'expm1', 'sqrt', 'negative', 'square', 'reciprocal', 'abs', 'sign', 'multiply', 'add', 'subtract', 'divide', 'maximum', 'minimum', 'logaddexp', 'clip', 'where', 'zeros_like', 'ones_like', 'less', 'greater', 'less_equal', 'greater_equal'):
        u, v = (abs(fx), fy) if nm in pos else (max(fx, fractions.Fraction(-9, 10)), fy) if nm == 'log1p' else (fx, fy)
        def go(c):
            A, B = elem.EArr(z3.RealVal(str(u))), elem.EArr(z3.RealVal(str(v)))
            two = nm in ('multiply', 'add', 'subtract', 'divide', 'maximum', 'minimum', 'logaddexp', 'less', 'greater', 'less_equal', 'greater_equal')
            r = elem.FN[nm](A, B) if two else elem.FN[nm](A, -1.0, 1.0) if nm == 'clip' else elem.FN[nm](A > 0, A, B) if nm == 'where' else elem.FN[nm](A)
            f = getattr(np, nm); a, b = np.array([float(u)]), np.array([float(v)])
            t = f(a, b) if two else f(a, -1.0, 1.0) if nm == 'clip' else f(a > 0, a, b) if nm == 'where' else f(a)
            g = elem.evalf(z3.simplify(r.e), {}) if not isinstance(r, elem.EMask) else const(r.e)
            if isinstance(g, bool):
                if g != bool(t[0]): bad(nm, float(u), float(v))
            elif abs(float(g) - t[0]) > 1e-9 * (1 + abs(t[0])): bad(nm, float(u), float(v), float(g), t[0])
            did('elementwise ' + nm)
        in_ctx(go)


def rounding(rng):
    'the installed numpy keeps the error model: elementary functions and operations within 2^-50, and error bounds that enclose what is computed'
    from . import fperr
    import mpmath
    mpmath.mp.prec = 2000; mp = mpmath.mp; u = mp.mpf(2) ** -50
    x = rng.choice([rng.uniform(-3, 3), rng.uniform(-300, 300), 10 ** rng.uniform(-30, 2), -10 ** rng.uniform(-30, 0)]); y = rng.choice([rng.uniform(-3, 3), rng.uniform(-300, 300), 10 ** rng.uniform(-12, 2)])
    for nm, f, dom in (('exp', mp.exp, True), ('log', mp.log, x > 0), ('log1p', lambda t: mp.log(1 + t), x > -1), ('expm1', lambda t: mp.exp(t) - 1, True), ('sqrt', mp.sqrt, x > 0)):
        if not dom: continue
        with np.errstate(all='ignore'): r = float(getattr(np, nm)(np.array([x]))[0])
        w = f(mp.mpf(x))
        if abs(mp.mpf(r) - w) > u * abs(w): bad('accuracy of ' + nm, x, r)
        did('accuracy of ' + nm)
    # random formulas over x and y
    def tree(k):
        if k == 0: return rng.choice([('x',), ('y',), ('c', round(rng.uniform(-2, 2), 2))])
        n = rng.choice(['add', 'sub', 'mul', 'div', 'exp', 'expm1', 'log1p', 'neg', 'clip'])
        return (n, tree(k - 1)) if n in ('exp', 'expm1', 'log1p', 'neg', 'clip') else (n, tree(k - 1), tree(rng.randrange(k)))
    t = tree(rng.randrange(1, 4))
    a, b = rng.uniform(.1, 3), rng.uniform(.1, 3)
    def num(t):
        if t[0] == 'x': return np.array([a])
        if t[0] == 'y': return np.array([b])
        if t[0] == 'c': return t[1]
        s = [num(v) for v in t[1:]]
        return s[0] + s[1] if t[0] == 'add' else s[0] - s[1] if t[0] == 'sub' else s[0] * s[1] if t[0] == 'mul' else s[0] / s[1] if t[0] == 'div' else -s[0] if t[0] == 'neg' else np.clip(s[0], -1., 1.) if t[0] == 'clip' else getattr(np, t[0])(s[0])
    def go(c):
        # the side obligations are decided by evaluation here
        def sym(t):
            if t[0] in 'xy': return fperr.PArr(z3.RealVal(str(fractions.Fraction(a if t[0] == 'x' else b))))
            if t[0] == 'c': return fperr.PArr(z3.RealVal(str(fractions.Fraction(t[1]))))
            s = [sym(v) for v in t[1:]]
            if t[0] == 'clip':
                # the branch is chosen by the value
                v = fperr.exact(z3.simplify(s[0].e), {}); e = s[0].e if -1 <= v <= 1 else z3.RealVal(-1 if v < -1 else 1)
                return fperr.PArr(e, s[0].d)
            f = {'neg': lambda p: -p, 'exp': fperr.exp, 'expm1': fperr.expm1, 'log1p': fperr.log1p}.get(t[0]) or getattr(fperr, t[0])
            return f(*s)
        saved = fperr.need, fperr.ab
        class Bad(Exception): pass
        def need(c, name, g, extra=()):
            if not truth(g): raise Bad()
        def truth(g):
            k = g.decl().kind(); v = [fperr.exact(z3.simplify(x), {}) for x in g.children()] if k != z3.Z3_OP_NOT else []
            return v[0] <= v[1] if k == z3.Z3_OP_LE else v[0] > v[1] if k == z3.Z3_OP_GT else v[0] != v[1] if k in (z3.Z3_OP_DISTINCT,) else not truth(g.children()[0]) if k == z3.Z3_OP_NOT else v[0] == v[1] if k == z3.Z3_OP_EQ else 1 / 0
        fperr.need = need; fperr.ab = lambda e: (lambda v: e if v >= 0 else -e)(fperr.exact(z3.simplify(e), {}))
        try:
            r = sym(t)
            with np.errstate(all='ignore'): got = float(np.asarray(num(t)).ravel()[0])
            if np.isfinite(got) and abs(mp.mpf(got) - fperr.exact(z3.simplify(r.e), {})) > u * fperr.exact(z3.simplify(r.d), {}): bad('error bound', t, a, b, got)
            did('error bound')
        except (Bad, ValueError, ZeroDivisionError, OverflowError): pass
        finally: fperr.need, fperr.ab = saved
    in_ctx(go)


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1; n = int(sys.argv[2]) if len(sys.argv) > 2 else 30
    rng = random.Random(seed)
    for i in range(n):
        for f in (sets, masks, arrays, floats, facts, elementwise, rounding):
            try: f(rng)
            except rt.Unsupported as e: bad('unsupported', f.__name__, str(e))
    print('selfcheck: %d comparisons of %d kinds, %d wrong' % (sum(N.values()), len(N), len(BAD)))
    for b in BAD[:10]: print('  WRONG', b)
    return 1 if BAD else 0


if __name__ == '__main__': sys.exit(main())
