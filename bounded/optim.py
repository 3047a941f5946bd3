"""C21 (failure tolerance), C22 (optimize, restarts), C23 (SCG), C24 (checkgrad)."""
import random, hashlib, io, contextlib, math
import multiprocessing as mp
import numpy as np
from numpy.linalg import LinAlgError
from paramz import optimization, Model, Param, Parameterized
from paramz.core import HierarchyError
from paramz.optimization.verbose_optimization import VerboseOptimization
from paramz.optimization.scg import SCG
from paramz.optimization.optimization import Optimizer
from .world import World, Mismatch, Mismatches, Skip, gen_idx, mkidx, positions
from .classes import Mod, wt
from .spec import Con
from . import ops as O


class Bad(Exception):
    pass


class MyLin(LinAlgError):
    pass


class Stop(BaseException):
    pass


def case(prop, seed):
    rng = random.Random('%s/%d' % (prop, seed))
    log = []; viol = None; k = 0; other = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            k = dict(C21=faults, C22=optimize, C23=scg, C24=checkgrad)[prop](rng, log, seed)
    except Bad as e:
        viol = dict(what=str(e), detail=[], seed=seed, history=[str(x) for x in log[-40:]])
    except (Mismatch, Mismatches) as e:
        other = str(e)[:200]
    except Exception as e:
        import traceback
        viol = dict(what='%s: %s after %r' % (type(e).__name__, e, log[-1:]), detail=[traceback.format_exc()[-900:]], seed=seed, history=[str(x) for x in log[-40:]])
    return dict(n=k, key=hashlib.sha1(repr(log).encode()).hexdigest(), viol=viol, other=other, sample=[str(x) for x in log[:4]])


def model(rng, fixes=True):
    """a model with random hierarchy, constraints and fixes; (World, root spec)"""
    while True:
        w = World(rng, model=True, nroots=1, small=rng.random() < .5)
        s = w.roots[0]
        for _ in range(rng.randint(0, 4)):
            op = rng.choice(['con', 'con', 'fix'] if fixes else ['con'])
            try:
                d = O.OPS[op][0](w)
                if op == 'fix' and d['a'] == [0] and rng.random() < .8: continue
                O.step(w, op, d)
            except Skip: continue
        if s.free() or (fixes and rng.random() < .15): return w, s


def objective(s):
    es = s.entries(); ww, t = wt(len(es))
    return .5 * sum(a * (e.v - b) ** 2 for a, b, e in zip(ww, t, es))


def sync(s):
    for l in s.leaves():
        for e, v in zip(l.e, l.real.view(np.ndarray).ravel()): e.v = float(v)


def transform(s, g):
    """gradient of the free entries with respect to the optimizer vector at the current values"""
    return [gi * (Con(e.con).d(e.v) if e.con else 1.) for e, gi in zip(s.entries(), g) if not e.fixed]


def intact(w, s, before, what):
    """constraints, fixes and fixed values are as before"""
    try:
        w.cmp_constraints(s); w.cmp_structure(s)
    except Mismatch as m:
        raise Bad('%s changed the model: %s' % (what, m.detail))
    for e, v in zip(s.entries(), before):
        if e.fixed and e.v != v: raise Bad('%s changed a fixed entry from %r to %r' % (what, v, e.v))


# ------------------------------------------------------------------ C21
TOL = [LinAlgError, ZeroDivisionError, ValueError, MyLin]
NOT = [TypeError, RuntimeError, KeyboardInterrupt, Stop, FloatingPointError, OverflowError, IndexError, ArithmeticError, AssertionError]


def faults(rng, log, seed):
    w, s = model(rng)
    if not s.free(): return 0
    m = s.real
    if rng.random() < .7: return evaluations(rng, log, w, s, m, False)
    # the same with the display of optimize(messages=True) watching
    before = list(m.observers)
    if rng.random() < .3: m.fault = ('objective', rng.choice(TOL)('fault'), 'stays')
    with VerboseOptimization(m, Optimizer(), rng.choice([1, 100, 1000]), verbose=True):
        m.fault = None
        k = evaluations(rng, log, w, s, m, True)
    if list(m.observers) != before: raise Bad('showing messages left an observer behind: %r' % (list(m.observers),))
    return k


def evaluations(rng, log, w, s, m, shown):
    if rng.random() < .5:
        n = len(s.entries()); m.bad = dict((rng.randrange(n), rng.choice([1e200, -1e200, np.inf, -np.inf, 1e11, -1e60])) for _ in range(2))
        m.parameters_changed()
    fails = 0; k = 0; pending = False
    for _ in range(rng.randint(20, 60)):
        which = rng.choice(['_objective', '_grads', '_objective_grads'])
        r = rng.random()
        mode = 'ok' if r < .12 else ('other' if r < .16 else 'fail')
        if pending: mode = 'ok'; pending = False
        where = 'assign' if which == '_grads' else rng.choice(['assign', 'objective'])
        exc = None
        if mode != 'ok':
            exc = rng.choice(TOL if mode == 'fail' else NOT)('fault')
            m.fault = (where, exc, 'stays') if shown else (where, exc)
        x = np.array([O.xval(w, e.con) for e in s.free()])
        log.append((which, mode, where if exc else None, type(exc).__name__, shown)); k += 1
        got = err = None
        try: got = getattr(m, which)(x)
        except BaseException as e: err = e
        m.fault = None
        sync(s)
        g = np.array(m.gradient_full)
        if mode == 'other':
            if err is not exc: raise Bad('a %s was not passed on: got %r / %r' % (type(exc).__name__, got, err))
            pending = True; continue
        if mode == 'ok':
            if err is not None: raise Bad('a successful evaluation raised %r' % (err,))
            fails = 0
        else:
            if fails >= 10:
                if err is not exc: raise Bad('failure number %d in a row was not raised but gave %r / %r' % (fails + 1, got, err))
                continue
            if err is not None: raise Bad('failure number %d in a row was raised: %r' % (fails + 1, err))
            fails += 1
        f = got if which == '_objective' else (got[0] if which == '_objective_grads' else None)
        gr = None if which == '_objective' else (got[1] if which == '_objective_grads' else got)
        if f is not None:
            if mode == 'fail' and f != np.inf: raise Bad('failing evaluation returned the objective %r' % (f,))
            if mode == 'ok' and not abs(f - objective(s)) <= 1e-7 * (1 + abs(f)): raise Bad('objective %r, expected %r' % (f, objective(s)))
        if gr is not None:
            want = transform(s, g)
            if np.shape(gr) != (len(want),): raise Bad('gradient has shape %r' % (np.shape(gr),))
            for a, b in zip(gr, want):
                if mode == 'ok': ok = a == b or abs(a - b) <= 1e-6 * max(1e-6, abs(b))
                else: ok = np.isfinite(a) and (abs(a - b) <= 1e-6 * max(1e-6, abs(b)) if abs(b) <= 1e10 else (a * np.sign(b) >= .999e10))
                if not ok: raise Bad('%s evaluation returned the gradient entry %r, stored and transformed it is %r' % (mode, float(a), b))
    return k


# ------------------------------------------------------------------ C22
class Fake(Optimizer):
    """an optimizer with a prepared outcome"""
    def __init__(self, rng=None, plan=None, **kw):
        Optimizer.__init__(self); self.plan = plan; self.opt_name = 'fake'; self.rng = rng

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        self.x_init = np.array(x_init)
        kind = self.plan
        if isinstance(kind, list): kind = kind.pop(0)
        for _ in range(2):
            y = x_init + np.array([self.rng.uniform(-.3, .3) for _ in x_init])
            f(y); fp(y); f_fp(y)
        if isinstance(kind, BaseException): raise kind
        self.x_opt = x_init + np.array([self.rng.uniform(-.4, .4) for _ in x_init])
        self.f_opt = f(self.x_opt)
        if self.rng.random() < .5: f(x_init + .1)          # the optimum need not be the last evaluation
        if kind == 'nan': self.f_opt = np.nan
        self.funct_eval, self.status = 7, 'fine'
        if hasattr(self, 'outcomes'): self.outcomes.append((self.f_opt, np.array(self.x_opt)))


def at_solution(s, x, what):
    fr = s.free()
    if len(x) != len(fr): raise Bad('%s: solution of length %d for %d free entries' % (what, len(x), len(fr)))
    for e, xi in zip(fr, x):
        try: v = Con(e.con).f(xi) if e.con else xi
        except OverflowError: continue
        if not abs(v - e.v) <= 1e-6 * max(1e-3, abs(v)): raise Bad('%s: a parameter is %r, the reported solution means %r' % (what, e.v, v))


def optimize(rng, log, seed):
    w, s = model(rng); m = s.real
    before = [e.v for e in s.entries()]
    k = 0
    for _ in range(rng.randint(1, 4)):
        runs = list(m.optimization_runs)
        before = [e.v for e in s.entries()]
        r = rng.random()
        if not s.free():
            log.append(('nothing free',)); k += 1
            what = rng.choice(['optimize', 'restarts'])
            out = m.optimize(max_iters=5) if what == 'optimize' else m.optimize_restarts(2, verbose=rng.random() < .5)
            sync(s)
            if what == 'optimize' and out is not None: raise Bad('optimize returned %r with nothing to optimize' % (out,))
            if [e.v for e in s.entries()] != before or list(m.optimization_runs) != runs: raise Bad('optimizing with nothing free changed the model')
            intact(w, s, before, 'optimize'); continue
        if r < .55:
            name = rng.choice(['scg', 'lbfgsb', 'simplex', 'fmin_tnc', 'org-bfgs', 'fake', 'fake', None])
            start = None
            if rng.random() < .3: start = np.array([O.xval(w, e.con) for e in s.free()])
            off = rng.random() < .2
            if off: m.update_model(False)
            msg = rng.random() < .3; watch = list(m.observers)
            log.append(('optimize', name, start is not None, off, msg)); k += 1
            if msg and rng.random() < .4:
                # fails before or while it runs
                err = rng.choice([RuntimeError, KeyboardInterrupt, TypeError])('fault'); m.fault = ('objective', err, 'stays') if rng.random() < .5 else None
                got = None
                try: m.optimize(Fake(rng, err), messages=True)
                except BaseException as e: got = e
                m.fault = None; sync(s)
                if got is not err: raise Bad('an error of the optimizer or the objective became %r' % (got,))
                if list(m.observers) != watch: raise Bad('a failing optimize(messages=True) left an observer behind: %r' % (list(m.observers),))
                m.optimizer_array = np.array(m.optimizer_array); sync(s)
            if name == 'fake': opt = Fake(rng, None); out = m.optimize(opt, start=start, messages=msg)
            elif name is None: out = m.optimize(start=start, max_iters=rng.choice([1, 20]), messages=msg)
            else:
                # the stopping rules, where the method has them
                kw = dict((n, 10. ** -rng.randint(2, 9)) for n in ('xtol', 'ftol', 'gtol') if rng.random() < .25)
                if rng.random() < .2: kw['bfgs_factor'] = 10. ** rng.randint(1, 12)
                if kw: log.append(kw)
                out = m.optimize(name, start=start, max_iters=rng.choice([1, 3, 60]), messages=msg, **kw)
            sync(s)
            if list(m.observers) != watch: raise Bad('optimize(messages=%r) left other observers on the model: %r' % (msg, list(m.observers)))
            if off and not m.update_model(): raise Bad('updates are off after optimize')
            s.on = True
            if list(m.optimization_runs[:-1]) != runs or len(m.optimization_runs) != len(runs) + 1 or m.optimization_runs[-1] is not out: raise Bad('the run was not recorded once: %d runs before, %d after' % (len(runs), len(m.optimization_runs)))
            if name == 'fake' and start is not None and not np.array_equal(out.x_init, start): raise Bad('the start %r was not used: %r' % (start, out.x_init))
            at_solution(s, np.array(out.x_opt), 'after optimize(%r)' % (name,))
            f = objective(s)
            if not abs(f - out.f_opt) <= 1e-6 * (1 + abs(f)): raise Bad('optimize(%r) reports the objective %r, at its solution it is %r' % (name, out.f_opt, f))
            intact(w, s, before, 'optimize(%r)' % (name,))
        else:
            if rng.random() < .1: parallel(rng, log, w, s, m, runs, before)
            else: restarts(rng, log, w, s, m, runs, before, seed)
            k += 1
    return k


FAILED = None                 # failed restarts, counted in the worker processes


class Hashed(Optimizer):
    """the point it starts from decides the outcome (restarts in worker processes share no state)"""
    def __init__(self, share=0., **kw):
        Optimizer.__init__(self); self.share = share; self.opt_name = 'hashed'

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        r = random.Random(repr(np.array(x_init).tolist()))
        if r.random() < self.share:
            with FAILED.get_lock(): FAILED.value += 1
            raise RuntimeError('boom')
        self.x_opt = x_init + np.array([r.uniform(-.4, .4) for _ in x_init])
        self.f_opt = f(self.x_opt)
        if r.random() < .5: f(x_init + .1)
        if r.random() < .15: self.f_opt = np.nan
        self.funct_eval, self.status = 7, 'fine'


def parallel(rng, log, w, s, m, runs, before):
    n = rng.randint(1, 4); robust = rng.random() < .7; share = rng.choice([0., .4, 1.])
    log.append(('parallel restarts', n, robust, share))
    global FAILED
    FAILED = mp.get_context('fork').Value('i', 0); old = optimization.get_optimizer; err = None
    optimization.get_optimizer = lambda name: Hashed
    try: m.optimize_restarts(n, robust=robust, verbose=False, parallel=True, num_processes=2, optimizer='hashed', share=share)
    except Exception as e: err = e
    finally: optimization.get_optimizer = old
    sync(s)
    bad = FAILED.value
    if bad and not robust:
        if not isinstance(err, RuntimeError): raise Bad('without robustness the failure of a restart must propagate, got %r' % (err,))
        intact(w, s, before, 'optimize_restarts'); return
    if err is not None: raise err
    if len(m.optimization_runs) != len(runs) + n - bad: raise Bad('%d runs recorded for %d successful restarts in parallel' % (len(m.optimization_runs) - len(runs), n - bad))
    intact(w, s, before, 'optimize_restarts')
    outcomes = [(o.f_opt, np.array(o.x_opt)) for o in m.optimization_runs[len(runs):]]
    fin = [o for o in outcomes if np.isfinite(o[0])]
    if fin: at_solution(s, min(fin, key=lambda o: o[0])[1], 'after %d restarts in parallel with objectives %r' % (n, [float(o[0]) for o in outcomes]))
    elif bad == n:
        for e, v in zip(s.entries(), before):
            if not abs(e.v - v) <= 1e-7 * max(1e-3, abs(v)): raise Bad('all restarts failed, but a parameter is %r instead of %r' % (e.v, v))


class Maker(object):
    """stands for the optimizer class named 'fake': one optimizer per run, with the planned outcomes"""
    def __init__(self, rng, plan): self.rng, self.plan, self.made = rng, plan, []
    def __call__(self, max_iters=None, **kw):
        o = Fake(self.rng, self.plan.pop(0)); self.made.append(o); return o


def restarts(rng, log, w, s, m, runs, before, seed):
    n = rng.randint(1, 5); robust = rng.random() < .7; shared = rng.random() < .3
    plan = [rng.choice([None, None, None, RuntimeError('boom'), LinAlgError('boom'), 'nan']) for _ in range(n)]
    if rng.random() < .15: plan = [RuntimeError('all')] * n; robust = True
    if not robust and rng.random() < .5: plan = [None] * n
    if shared: plan = [p for p in plan if p != 'nan'] or [None]; n = len(plan)
    log.append(('restarts', n, robust, [str(p) for p in plan], shared))
    mk = Maker(rng, list(plan))
    outcomes = []
    old = optimization.get_optimizer
    kw = {}
    if shared:
        # one optimizer for all of the restarts
        o = Fake(rng, list(plan)); o.outcomes = outcomes
        kw['optimizer'] = o
    else:
        optimization.get_optimizer = lambda name: mk
        kw['optimizer'] = 'fake'
    err = None
    try:
        watch = list(m.observers)
        out = m.optimize_restarts(n, robust=robust, verbose=rng.random() < .3, messages=rng.random() < .2, **kw)
    except Exception as e:
        err = e
    finally:
        optimization.get_optimizer = old
    sync(s)
    if list(m.observers) != watch: raise Bad('optimize_restarts left other observers on the model: %r' % (list(m.observers),))
    excs = [p for p in plan if isinstance(p, Exception)]
    if excs and not robust:
        if err is not excs[0]: raise Bad('without robustness the failure of a restart must propagate, got %r' % (err,))
        intact(w, s, before, 'optimize_restarts'); return
    if err is not None: raise err
    good = n - len(excs)
    if len(m.optimization_runs) != len(runs) + good: raise Bad('%d runs recorded for %d successful restarts' % (len(m.optimization_runs) - len(runs), good))
    intact(w, s, before, 'optimize_restarts')
    if not shared: outcomes = [(o.f_opt, np.array(o.x_opt)) for o in mk.made if o.f_opt is not None]
    fin = [o for o in outcomes if np.isfinite(o[0])]
    if fin:
        best = min(fin, key=lambda o: o[0])
        at_solution(s, best[1], 'after %d restarts with objectives %r' % (n, [float(o[0]) for o in outcomes]))
    elif not good:
        for e, v in zip(s.entries(), before):
            if not abs(e.v - v) <= 1e-7 * max(1e-3, abs(v)): raise Bad('all restarts failed, but a parameter is %r instead of %r' % (e.v, v))


# ------------------------------------------------------------------ C23
def fun(rng, n):
    k = rng.choice(['quad', 'rosen', 'sine', 'flat', 'noise', 'wronggrad', 'steep', 'infs', 'abs', 'nans', 'negcurv'])
    A = np.array([[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]); A = A.dot(A.T) + rng.choice([0, .1, 1]) * np.eye(n); b = np.array([rng.uniform(-3, 3) for _ in range(n)])
    table = {}
    r2 = random.Random(rng.random())
    def noise(x):
        key = x.tobytes()
        if key not in table: table[key] = r2.uniform(-2, 2)
        return table[key]
    if k in ('quad', 'wronggrad', 'infs', 'nans'):
        f = lambda x: float(.5 * x.dot(A).dot(x) - b.dot(x)); g = lambda x: A.dot(x) - b
        if k == 'wronggrad': s = rng.choice([-1., .01, 100.]); g0 = g; g = lambda x: s * g0(x) + rng.choice([0, .5])
        if k == 'infs': f0 = f; f = lambda x: np.inf if np.sum(x) > 1. else f0(x)
        if k == 'nans': f1 = f; f = lambda x: np.nan if abs(noise(x)) < .5 and len(table) > 1 else f1(x)
    elif k == 'rosen': f = lambda x: float(np.sum((1 - x) ** 2) + 100 * np.sum((x[1:] - x[:-1] ** 2) ** 2)); g = lambda x: num(f, x)
    elif k == 'sine': f = lambda x: float(np.sum(np.sin(3 * x) + .1 * x ** 2)); g = lambda x: 3 * np.cos(3 * x) + .2 * x
    elif k == 'flat': f = lambda x: 1.5; g = lambda x: np.ones(n) * rng.choice([1e-9, 1.])
    elif k == 'noise': f = noise; g = lambda x: np.array([math.sin(1e3 * v + i) for i, v in enumerate(x)])
    elif k == 'steep': f = lambda x: float(np.sum(np.exp(np.clip(x, -50, 50)) - x)); g = lambda x: np.exp(np.clip(x, -50, 50)) - 1
    elif k == 'abs': f = lambda x: float(np.sum(np.abs(x - .3))); g = lambda x: np.sign(x - .3)
    else: f = lambda x: float(-.5 * x.dot(A).dot(x) + np.sum(x ** 4) * .01); g = lambda x: -A.dot(x) + .04 * x ** 3
    return k, f, g


def num(f, x):
    e = np.eye(x.size) * 1e-6
    return np.array([(f(x + a) - f(x - a)) / 2e-6 for a in e])


def scg(rng, log, seed):
    cnt = 0
    for _ in range(6):
        n = rng.choice([1, 2, 3, 5]); k, f, g = fun(rng, n)
        x0 = np.array([rng.uniform(-3, 3) for _ in range(n)])
        if not f(x0) == f(x0): continue
        kw = {}
        if rng.random() < .5: kw['maxiters'] = rng.choice([0, 1, 2, 5, 30, 100])
        else: kw['maxiters'] = 60
        if rng.random() < .3: kw['xtol'] = rng.choice([0., 1e-2])
        if rng.random() < .3: kw['ftol'] = rng.choice([0., 1e-2])
        if rng.random() < .3: kw['gtol'] = rng.choice([0., 1e-1])
        extra = (3, 'x') if rng.random() < .3 else ()
        calls = []
        def F(x, *a):
            if a != extra: raise Bad('objective called with the arguments %r' % (a,))
            v = f(x); calls.append(('f', np.array(x), v)); return v
        def G(x, *a):
            if a != extra: raise Bad('gradient called with the arguments %r' % (a,))
            v = np.array(g(x)); calls.append(('g', np.array(x), v.copy())); return v
        xs = x0.copy()
        log.append((k, n, kw)); cnt += 1
        with np.errstate(all='ignore'):
            how = rng.random()
            if how < .7 or extra: x, flog, ev, status = SCG(F, G, xs, optargs=extra, **kw)
            else:
                o = optimization.opt_SCG(max_iters=kw['maxiters'], **dict((a, b) for a, b in kw.items() if a != 'maxiters'))
                o.run(xs, f_fp=None, f=F, fp=G)
                x, flog, ev, status = o.x_opt, o.trace, o.funct_eval, o.status
                if o.f_opt != flog[-1]: raise Bad('the reported objective %r is not the last logged one %r' % (o.f_opt, flog[-1]))
        if not np.array_equal(xs, x0): raise Bad('SCG changed the start vector')
        f0 = calls[0][2]
        fl = [float(v) for v in flog]
        fs = [c for c in calls if c[0] == 'f']
        what = '%s %r' % (k, kw)
        if any(b > a or b != b for a, b in zip(fl, fl[1:])): raise Bad('%s: the log increases: %r' % (what, fl[:40]))
        if fl[0] != f0: raise Bad('%s: the log starts with %r instead of %r' % (what, fl[0], f0))
        pts = [c[2] for c in fs if np.array_equal(c[1], x)]
        if not pts: raise Bad('%s: the objective was never evaluated at the returned point' % what)
        if fl[-1] not in pts: raise Bad('%s: last logged objective %r, at the returned point it is %r' % (what, fl[-1], pts))
        if not fl[-1] <= f0: raise Bad('%s: ended at %r, above the start %r' % (what, fl[-1], f0))
        if ev != len(calls): raise Bad('%s: reports %r evaluations, made %d' % (what, ev, len(calls)))
        its = len(fl) - 1
        if its > kw['maxiters']: raise Bad('%s: %d iterations' % (what, its))
        if len(fs) - 1 > kw['maxiters']: raise Bad('%s: %d steps tried' % (what, len(fs) - 1))
        if status == 'maxiter exceeded':
            if its != kw['maxiters']: raise Bad('%s: stopped after %d iterations with the status %r' % (what, its, status))
        else:
            ftol = kw.get('ftol', 1e-6); xtol = kw.get('xtol', 1e-6); gtol = kw.get('gtol', 1e-5)
            # the point the last step started from is one of the earlier points which was not better
            prevs = [p[1] for i, c in enumerate(fs) if np.array_equal(c[1], x) and c[2] == fl[-1] for p in fs[:i] if p[2] >= fl[-1]]
            gl = [c[2] for c in calls if c[0] == 'g' and np.array_equal(c[1], x)]
            ok = abs(fl[-1] - fl[-2]) < ftol or any(np.max(np.abs(x - p)) <= xtol * 1.001 + 1e-12 for p in prevs) or any(v.dot(v) <= gtol for v in gl) if its else False
            if not ok: raise Bad('%s: status %r, but no tolerance was met: log %r' % (what, status, fl[-4:]))
    return cnt


# ------------------------------------------------------------------ C24
class Hinge(Model):
    """an objective which is exactly zero on one side, and does not depend on some of its parameters"""
    def __init__(self, x, w, t, off=0.):
        super(Hinge, self).__init__('hinge')
        self.w, self.t, self.off, self.bad = w, t, off, None
        self.x = Param('x', x); self.link_parameter(self.x)
    def objective_function(self): return float(np.sum(self.w * np.maximum(0., self.x.values - self.t) ** 2)) + self.off
    def parameters_changed(self):
        self.x.gradient[:] = 2 * self.w * np.maximum(0., self.x.values - self.t)
        if self.bad is not None: self.x.gradient[self.bad[0]] += self.bad[1]


def hinges(rng, log):
    n = rng.choice([1, 1, 2, 3])
    t = np.array([rng.choice([0., 1., -2.]) for _ in range(n)])
    w = np.array([rng.choice([0., 1., 3.]) for _ in range(n)])
    x = t + np.array([rng.choice([0., 0., -1., 1., 5e-7]) for _ in range(n)])
    m = Hinge(x, w, t, rng.choice([0., 0., -1., 2.]))
    for i in range(n):
        if n > 1 and rng.random() < .2: m.x[[i]].fix()
    free = [i for i in range(n) if not m.x.constraints['fixed'].tolist().count(i)]
    wrong = bool(free) and rng.random() < .4
    if wrong: m.bad = (rng.choice(free), rng.choice([-1, 1]) * rng.choice([3., 50.])); m.parameters_changed()
    verbose = rng.random() < .7
    log.append(('hinge', x.tolist(), w.tolist(), t.tolist(), m.off, m.bad, free, verbose))
    np.random.seed(rng.randrange(10**6))
    before = m.x.values.copy()
    got = m.checkgrad(verbose=verbose)
    if np.size(got) != 1 or bool(got) == wrong: raise Bad('checkgrad(verbose=%r) gave %r, although the gradient is %s' % (verbose, got, 'wrong' if wrong else 'right'))
    if not np.all(np.abs(m.x.values - before) <= 1e-8 * np.maximum(1., np.abs(before))): raise Bad('checkgrad changed the parameters from %r to %r' % (before, m.x.values))


def checkgrad(rng, log, seed):
    cnt = 0
    if rng.random() < .5: hinges(rng, log); cnt += 1
    if rng.random() < .1:
        # below no model there is nothing to check
        p = Param('p', np.arange(3.)); n = Parameterized('n'); n.link_parameter(p)
        for x in (p, n, Param('q', np.arange(2.))):
            try: r = x.checkgrad()
            except HierarchyError: pass
            else: raise Bad('checkgrad below no model gave %r' % (r,))
    for _ in range(3):
        w, s = model(rng); m = s.real
        # stay away from the saturated ends, where no step of 1e-6 is exact
        n = len(s.entries())
        nodes = [x for x in s.nodes() if x.entries()]
        t = rng.choice(nodes)
        real = t.real; off = t.offset_in(s); pos = [off + i for i in range(len(t.entries()))]
        if t.leaf and rng.random() < .4:
            d = gen_idx(rng, t.shape, scalar=False); real = t.real[mkidx(d)]; pos = [off + int(i) for i in positions(t.shape, d).ravel()]
        if rng.random() < .15:
            try:
                real = m['.*']; pos = list(range(n))
                if real is None: continue
            except AttributeError: pass
        es = s.entries()
        mode = rng.choice(['good', 'bad', 'elsewhere'])
        free = [p for p in pos if not es[p].fixed]
        rest = [p for p in range(n) if p not in pos or es[p].fixed]
        verbose = rng.random() < .4
        m.bad = None
        if mode == 'bad' and free:
            # wrong by at least 2 with respect to the optimizer vector
            p = rng.choice(free); f = abs(Con(es[p].con).d(es[p].v)) if es[p].con else 1.
            if f < 1e-6: mode = 'good'
            else: m.bad = {p: rng.choice([-1, 1]) * rng.choice([2., 30.]) / min(f, 1e3)}
        elif mode == 'elsewhere' and rest: m.bad = {rng.choice(rest): 50.}
        m.parameters_changed()
        before = [e.v for e in es]
        np.random.seed(rng.randrange(10**6))
        kw = dict(verbose=verbose)
        if rng.random() < .3: kw['tolerance'] = rng.choice([1e-2, 1e9])      # within the second everything agrees
        target_none = real is m and rng.random() < .3
        log.append((t.path(), len(free), mode, kw)); cnt += 1
        got = real.checkgrad(**kw) if not target_none else m._checkgrad(**kw)
        sync(s)
        want = not (mode == 'bad' and free) or kw.get('tolerance') == 1e9
        if np.size(got) != 1 or bool(got) != want:
            raise Bad('checkgrad(%r) of %s gave %r: %d free entries under check, %s' % (kw, t.path(), got, len(free), dict(good='gradient right', bad='gradient wrong in one of them by %r' % (m.bad,), elsewhere='gradient wrong elsewhere %r' % (m.bad,))[mode]))
        for e, v in zip(es, before):
            if e.fixed and e.v != v or not abs(e.v - v) <= 1e-8 * max(1., abs(v)): raise Bad('checkgrad changed a parameter from %r to %r' % (v, e.v))
        intact(w, s, before, 'checkgrad')
    return cnt
