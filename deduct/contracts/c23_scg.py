"""C23: the scaled conjugate gradient minimiser, for arbitrary objective and gradient functions (values may be NaN or infinite),
any starting point, tolerances and number of iterations.  The loop is decided by an invariant."""
import z3
from .. import rt, vals, shim, ieee
from ..base import contract, arg
from ..ieee import F, V, OVER
from ..rt import Unsupported
from ..vals import SNum, SBool, SObj, Opaque, fresh_int, num, bexpr

NAMES = ('x', 'fold', 'function_eval', 'success', 'beta', 'flog', 'iteration', 'mu', 'kappa', 'theta', 'd', 'gradnew', 'gradold', 'maxiters', 'nsuccess')
BODY = {'mu', 'd', 'kappa', 'sigma', 'xplus', 'gplus', 'function_eval', 'theta', 'delta', 'beta', 'alpha', 'xnew', 'fnew', 'Delta', 'success', 'nsuccess', 'x', 'fnow', 'iteration', 'status', 'gradold', 'gradnew', 'current_grad', 'fold', 'Gamma'}


def descent(mu, kappa):
    'mu the slope along the direction, kappa its squared length'
    return z3.And(z3.Not(mu.pos), z3.Not(kappa.negative), z3.Implies(kappa.zero, z3.And(z3.Not(kappa.neg), z3.Or(mu.zero, mu.nan))), z3.Implies(mu.inf, z3.Not(kappa.fin)))


class Inv(object):
    'at the top of every iteration'
    def __init__(self, c, S): self.c = c; self.S = S
    def check(self, L, where, names):
        c, S = self.c, self.S
        missing = [n for n in ('x', 'fold', 'function_eval', 'success', 'beta', 'iteration') if n not in L]
        if missing or not isinstance(L['x'], V): raise Unsupported('the loop of SCG has other variables (%s)' % missing)
        log = S.log(L)
        at, val = S.calls_at(L['x'])
        w = ' (%s)' % where
        c.prove('loop invariant: the current value is the objective at the current point' + w, val.same(F.of(L['fold'])) if val is not None else False)
        c.prove('loop invariant: the last logged value is the current value' + w, F.of(log[-1]).same(F.of(L['fold'])))
        S.monotone(log, w)
        c.prove('loop invariant: calls are counted' + w, num(L['function_eval']) == S.calls.e)
        it = num(L['iteration'])
        c.prove('loop invariant: iterations are counted and no more than allowed' + w, z3.And(it == S.iter.e, z3.Or(it == 0, it <= S.maxiters.e)))
        b = F.of(L['beta']); c.prove('loop invariant: the scale is positive (or not a number)' + w, z3.Or(b.nan, b.pos))
        s = bexpr(L['success'])
        if all(isinstance(L.get(n), F) for n in ('mu', 'kappa')):
            mu, ka = L['mu'], L['kappa']
            c.prove('loop invariant: after a failed step the direction is one of descent' + w, z3.Or(s, descent(mu, ka)))
        else: c.prove('loop invariant: after a failed step the direction is one of descent' + w, s)
    def havoc(self, L, names):
        c, S = self.c, self.S
        odd = set(names) - BODY
        if odd: raise Unsupported('the loop of SCG has other variables (%s)' % sorted(odd))
        x = V('x'); fold = F.fresh('fold')
        S.calls = fresh_int('calls'); S.iter = fresh_int('iterations'); S.values = [(x.tok, fold)]
        log = S.log(L); log[:] = ['earlier values', fold]
        c.assume(S.calls.e >= 0); c.assume(S.iter.e >= 0); c.assume(z3.Or(S.iter.e == 0, S.iter.e <= S.maxiters.e))
        beta, mu, kappa = F.fresh('beta'), F.fresh('mu'), F.fresh('kappa'); s = vals.fresh_bool('success')
        c.assume(z3.Or(beta.nan, beta.pos)); c.assume(z3.Or(s.e, descent(mu, kappa)))
        c.ghost['dots'] = []
        new = dict(x=x, fold=fold, function_eval=S.calls, iteration=S.iter, beta=beta, mu=mu, kappa=kappa, success=s, theta=F.fresh('theta'), d=V('d'), gradnew=V('gradnew'), gradold=V('gradold'), nsuccess=fresh_int('nsuccess'),
                   sigma=F.fresh('sigma'), delta=F.fresh('delta'), alpha=F.fresh('alpha'), Delta=F.fresh('Delta'), Gamma=F.fresh('Gamma'), fnow=F.fresh('fnow'), fnew=F.fresh('fnew'), current_grad=F.fresh('current_grad'),
                   xplus=V('xplus'), xnew=V('xnew'), gplus=V('gplus'), status=L.get('status'))
        S.entered = True
        return {k: v for k, v in new.items() if k in names}


class State(object):
    def __init__(self, c):
        self.c = c; self.calls = SNum(z3.IntVal(0)); self.iter = SNum(z3.IntVal(0)); self.values = []; self.maxiters = fresh_int('maxiters'); self.entered = False; self.steps = 0
    def log(self, L):
        l = L.get('flog')
        if type(l) is not list or not l: raise Unsupported('the log of SCG is %r' % (l,))
        return l
    def calls_at(self, x):
        for t, v in reversed(self.values):
            if t is x.tok: return t, v
        return None, None
    def monotone(self, log, w):
        for a, b in zip(log, log[1:]):
            if isinstance(a, str): continue
            self.c.prove('logged values never increase' + w, z3.Not(F.of(a).lt(F.of(b))))


@contract('C23', ['SCG'], assumes=[OVER, 'the objective returns the same value for the same point; the functions do not change the vectors handed to them'],
          trusted=['numpy dot(v, v) >= 0, dot(-v, v) <= 0 and a vector with dot(v, v) = 0 has only zero products (or NaN)', 'the slope along a direction is infinite only if the direction has an infinite entry itself (the directions of SCG contain the negative gradient)'])
def scg(c):
    from paramz.optimization.scg import SCG
    ieee.install()
    n = fresh_int('n'); c.assume(n.e >= 1); c.ghost['dim'] = n
    S = State(c); extra = Opaque('argument')
    v = c.choose(2, 'variant'); args = (extra,) if v else ()
    def call(kind):
        def f(x, *a, **k):
            if not isinstance(x, V): raise Unsupported('%s evaluated at %r' % (kind, x))
            c.prove('the extra arguments are handed on', a == args and not k)
            S.calls = S.calls + 1
            if kind == 'gradient': return V('gradient')
            at, v = S.calls_at(x)
            if v is None: v = F.fresh('value'); S.values.append((x.tok, v))
            return v
        return f
    inv = Inv(c, S)
    class Counted(Inv):
        pass
    shim.WHILE['SCG'] = lambda: inv
    x0 = V('x0'); start = x0.tok
    tol = {}
    if v: tol = {t: F.fresh(t) for t in ('xtol', 'ftol', 'gtol')}
    orig = inv.check
    def check(L, where, names):
        if where == 'preserved': S.iter = S.iter + 1
        orig(L, where, names)
    inv.check = check
    r = SCG(call('objective'), call('gradient'), x0, optargs=args, maxiters=S.maxiters, **tol)
    if not (isinstance(r, tuple) and len(r) == 4 and isinstance(r[0], V) and type(r[1]) is list): raise Unsupported('%r returned' % (r,))
    x, log, count, status = r
    at, val = S.calls_at(x)
    c.prove('the last logged value is the objective at the returned point', val is not None and F.of(log[-1]).same(val))
    S.monotone(log, ' (at the end)')
    c.prove('the number of evaluations reported is the number made', num(count) == S.calls.e)
    over = status == 'maxiter exceeded'
    body = bool(len(log) > 2) or (log and not isinstance(log[0], str) and len(log) > 1)   # left from inside an iteration
    made = S.iter.e + (1 if body else 0)
    c.prove('no more iterations than allowed', z3.Or(made == 0, made <= S.maxiters.e))
    c.prove("'maxiter exceeded' is said exactly when the iterations were used up", z3.BoolVal(over) == z3.BoolVal(not body))
    c.prove('and only if they were', z3.Implies(z3.BoolVal(over), S.iter.e >= S.maxiters.e))
    c.prove('a status is given', isinstance(status, str) and status != 'Not converged')
    c.prove('the starting point handed in is not changed', x0.tok is start)


@contract('C23 C22', ['opt_SCG.opt'], assumes=['contract of SCG'])
def opt_scg(c):
    from paramz.optimization import optimization as M
    X, T, N, St = Opaque('x'), [Opaque('first'), Opaque('last')], Opaque('count'), Opaque('status')
    got = []
    def scg(*a, **k): got.append((a, k)); return X, T, N, St
    names = ('max_iters', 'max_f_eval', 'xtol', 'ftol', 'gtol'); f = {n: Opaque(n) for n in names}
    o = SObj('optimizer', M.opt_SCG, fields=dict(f), track=False)
    keep = M.SCG; M.SCG = scg
    try:
        F1, F2, x0 = Opaque('f'), Opaque('fp'), Opaque('x_init')
        M.opt_SCG.opt(o, x0, f_fp=Opaque('f_fp'), f=F1, fp=F2)
    finally: M.SCG = keep
    if len(got) != 1: raise Unsupported('not one call')
    a, k = got[0]
    c.prove('it minimises this objective from this point', arg(a, k, 0, 'f') is F1 and arg(a, k, 1, 'gradf') is F2 and arg(a, k, 2, 'x') is x0 and arg(a, k, 3, 'optargs', ()) == ())
    c.prove('with the settings of the optimizer', arg(a, k, 4, 'maxiters') is f['max_iters'] and arg(a, k, 6, 'xtol') is f['xtol'] and arg(a, k, 7, 'ftol') is f['ftol'] and arg(a, k, 8, 'gtol') is f['gtol'])
    g = o.__dict__['_f']
    c.prove('it reports the point, the values, the count and the status it got', g.get('x_opt') is X and g.get('trace') is T and g.get('f_opt') is T[1] and g.get('funct_eval') is N and g.get('status') is St)
