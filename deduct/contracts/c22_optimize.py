"""C22: what an optimization leaves behind; the wrappers around the optimizers; restarts.  Vectors are known by their contents only
(ieee.V): the model's current optimizer vector is a buffer that is changed in place by every assignment, as the real one may be."""
import z3
from .. import rt, vals, shim, ieee
from ..base import contract, arg
from ..ieee import F, V, Tok
from ..rt import Irr, Unsupported
from ..vals import SObj, Opaque, SNum, Prop, fresh_int, num

SOLVER = ['the optimizer only works through the callbacks it is given and leaves its solution in x_opt, the objective there in f_opt']


class Params(vals.Sym):
    'the current optimizer vector of the model'
    _irr_ = True
    def __init__(self): self.live = V('current parameters'); rt.ctx().tracked.append(self)
    def _snap_(self): return id(self.live.tok)
    def _loose_(self, s): return 0
    def _blur_(self): self.live.tok = Tok('any')
    def set(self, v):
        if not isinstance(v, V): raise Unsupported('%r assigned to optimizer_array' % (v,))
        self.live.tok = v.tok
    @property
    def tok(self): return self.live.tok


class Runs(vals.Sym):
    'the list of recorded runs'
    _irr_ = True
    def __init__(self): self.last = None; self.n = fresh_int('runs'); rt.ctx().assume(self.n.e >= 0); self.added = []; rt.ctx().tracked.append(self)
    def _snap_(self): return [id(self.last), self.n]
    def _loose_(self, s): return 0
    def _blur_(self): self.last = None
    def append(self, r): self.last = r; self.added.append(r); self.n = self.n + 1
    def __getitem__(self, i):
        if i != -1 or self.last is None: raise Unsupported('run %r' % (i,))
        return self.last
    def _len_(self): return self.n


def model(c, P, runs, **k):
    from paramz.model import Model
    n = fresh_int('size'); c.assume(n.e >= 0)
    fx = bool(c.choose(2, 'is_fixed'))
    con = dict(size=Prop(lambda o: n), is_fixed=Prop(lambda o: fx), optimizer_array=Prop(lambda o: P.live))
    con.update(k.pop('contracts', {}))
    m = SObj('model', Model, fields=dict(optimization_runs=runs, preferred_optimizer='preferred', **k), contracts=con, setters=dict(optimizer_array=lambda o, v: (c.event('assign', o), P.set(v))))
    return m, vals.SBool(z3.Or(z3.BoolVal(fx), n.e == 0))


@contract('C22', ['Model.optimize'], assumes=SOLVER)
def optimize(c):
    import paramz.model as M
    ieee.install(); c.ghost['dim'] = fresh_int('dim')
    P = Params(); runs = Runs(); n0 = runs.n; start_tok = P.tok
    st = dict(on=c.choose(2, 'updates') == 0, ran=0)
    def update_model(o, *a):
        if a: st['on'] = bool(a[0]); c.event('switch', o, a[0]); return
        return st['on']
    m, nothing = model(c, P, runs, contracts=dict(update_model=update_model))
    nothing = bool(nothing)
    x_opt, f_opt = V('x_opt'), F.fresh('f_opt'); x_tok = x_opt.tok
    given = V('start') if c.choose(2, 'start') else None
    kind = c.choose(3, 'optimizer')
    extra = Opaque('setting'); fails = RuntimeError('failure of the optimizer') if c.choose(2, 'fails') else None
    def run(o, x, *a, **k):
        st['ran'] += 1
        c.prove('the optimizer starts from the point asked for, by default the current one', isinstance(x, V) and (x is given if given is not None else x.tok is start_tok))
        c.prove('updates are on while it runs', st['on'])
        f_fp, f, fp = arg(a, k, 0, 'f_fp'), arg(a, k, 1, 'f'), arg(a, k, 2, 'fp')
        for g, name in ((f_fp, '_objective_grads'), (f, '_objective'), (fp, '_grads')):
            c.prove('the optimizer minimises the objective of this model', getattr(g, '__self__', None) is m and getattr(g, '__name__', '') == name)
        P.live.tok = Tok('the last point tried')
        if fails is not None: raise fails
        o.__dict__['_f'].update(x_opt=x_opt, f_opt=f_opt)
    class Optimizer(object): pass
    opt = SObj('optimizer', None, contracts=dict(run=run), track=False)
    opt.__dict__['_isinst'] = lambda k: k is M.optimization.Optimizer
    def make(*a, **k):
        c.prove('the settings are handed to the optimizer', not a and set(k) == {'max_iters', 'gtol'} and k['gtol'] is extra); return opt
    def get(name):
        c.prove('the optimizer asked for is used, by default the preferred one', name == ('preferred' if kind == 0 else 'named')); return make
    class VO(object):
        def __init__(self, *a, **k): c.prove('progress is reported for this model and optimizer', a[0] is m and arg(a, k, 1, 'opt') is opt)
        def __enter__(self): return Opaque('vo')
        def __exit__(self, *a): return None
    keep = M.optimization.get_optimizer, M.VerboseOptimization
    M.optimization.get_optimizer, M.VerboseOptimization = get, VO
    kw = {} if kind == 2 else dict(gtol=extra)
    exc = None
    try:
        try: r = M.Model.optimize(m, optimizer=[None, 'named', opt][kind], start=given, **kw)
        except RuntimeError as e: exc = e
    finally: M.optimization.get_optimizer, M.VerboseOptimization = keep
    if nothing:
        c.prove('nothing happens if there is nothing free to optimize', st['ran'] == 0 and exc is None and not c.trace and not runs.added and P.tok is start_tok)
        return
    if exc is not None:
        c.prove('an error of the optimizer is not hidden', exc is fails and not runs.added); return
    if fails is not None: c.fail('an error of the optimizer is not hidden', 'no error'); return
    c.prove('the optimizer runs once', st['ran'] == 1)
    c.prove('the parameters are those of the solution reported', P.tok is x_tok and x_opt.tok is x_tok)
    c.prove('the run is recorded once and returned', runs.added == [opt] and r is opt)
    c.prove('the solution stays in the record', opt.__dict__['_f'].get('x_opt') is x_opt and opt.__dict__['_f'].get('f_opt') is f_opt)


class Chosen(object):
    'the position found by argmin'
    def __init__(self, i): self.i = i
    def __index__(self): return self.i


COLLECT = (lambda: (F.fresh('f_opt'), V('x_opt')), lambda x: isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], F) and isinstance(x[1], V))


def restarts(c, parallel):
    import paramz.model as M
    from paramz.model import Model
    ieee.install(); c.ghost['dim'] = fresh_int('dim')
    P = Params(); runs = Runs(); initial = P.tok
    n = fresh_int('num_restarts'); c.assume(n.e >= 1)
    robust = bool(c.choose(2, 'robust'))
    A, B = fresh_int('A'), fresh_int('B'); now = dict(i=None, failed=None, first=None)
    c.assume(z3.And(A.e >= 0, A.e < n.e))
    res = {}; share = SObj('the one optimizer', None, track=False) if not parallel and c.choose(2, 'shared optimizer') else None
    class Err(Exception): pass
    def randomize(o, *a, **k):
        if a or k: raise Unsupported('randomize with arguments')
        c.event('randomize', P); P._blur_()
    def optimize(o, *a, **k):
        c.prove('the settings are handed on', not a and set(k) == {'messages'})
        i = now['i']
        if i is None: raise Unsupported('optimize outside the restarts')
        P._blur_()
        e = c.choose(3, 'run')
        if e:
            x = Err('a failing run') if e == 1 else KeyboardInterrupt()
            now['failed'] = x; raise x
        f, x = F.fresh('f_opt'), V('x_opt')
        run = share if share is not None else SObj('run', None, track=False)
        run.__dict__['_f'].update(f_opt=f, x_opt=x); P.set(x); runs.append(run)
        if i in ('A', 'B'): res[i] = (f, x.tok)
        return run
    if parallel: con, pool, index = workers(c, res, now, share, Err)
    else: con = dict(optimize=optimize, randomize=randomize)
    m, nothing = model(c, P, runs, contracts=con)
    nothing = bool(nothing)
    two = c.choose(3, 'witnesses')
    if two: c.assume(z3.And(B.e >= 0, B.e < n.e, (B.e > A.e) if two == 1 else (B.e < A.e)))
    def rng(r):
        if r.a != 0 or r.step != 1: raise Unsupported('range')
        ws = [('A', A)] + ([('B', B)] if two else [])
        if two == 2: ws.reverse()
        if not c.entails(num(r.b) == n.e):
            if not parallel or not c.entails(num(r.b) == n.e - 1): raise Unsupported('range')
            ws = []          # nothing depends on which copies are randomized: the outcome of every run is arbitrary
        def seg(lo, hi):
            def mk():
                k = fresh_int('k'); c.assume(z3.And(k.e > lo, k.e < hi)); now['i'] = 'other'
                return k
            return Irr(mk, label='the other restarts', loose=[P, runs], collect=COLLECT)
        out = []; lo = z3.IntVal(-1)
        for nm, k in ws: out += [seg(lo, k.e), rt.At(k, lambda nm=nm: now.update(i=nm))]; lo = k.e
        return out + [seg(lo, num(r.b))]
    c.ghost['range'] = rng
    def argmin(l, *a, **k):
        if 'A' not in res: raise rt.Infeasible()          # A stands for the restart that is chosen
        if not isinstance(l, list): raise Unsupported('argmin of %r' % (l,))
        here = [i for i, x in enumerate(l) if not isinstance(x, Irr)]
        want = [k for k in (['A', 'B'] if two == 1 else ['B', 'A']) if k in res] if two else ['A']
        if len(here) != len(want): raise Unsupported('other results than those of the restarts')
        at = {w: F.of(list.__getitem__(l, i)) for w, i in zip(want, here)}
        a, b = at['A'], at.get('B')
        if b is not None: c.assume(z3.And(z3.Not(b.lt(a)), z3.Implies(b.nan, a.nan)))
        c.ghost['chosen'] = True
        return Chosen(here[want.index('A')])
    shim.FUNCS['argmin'] = argmin
    exc = None; keep = M.mp
    if parallel: M.mp = pool; c.ghost['index'] = lambda l, i: index(l, i, A, B if two else None, two)
    try: r = Model.optimize_restarts(m, num_restarts=n, robust=robust, verbose=not parallel and bool(c.choose(2, 'verbose')), messages=False, **(dict(parallel=True, num_processes=3) if parallel else {}))
    except (Err, KeyboardInterrupt) as e: exc = e
    finally: M.mp = keep
    if nothing:
        c.prove('nothing happens if there is nothing free to optimize', exc is None and not c.trace and not runs.added and P.tok is initial); return
    if exc is not None:
        c.prove('only errors of a run are raised, as they are', exc is now['failed'])
        c.prove('errors of a run are raised only if robustness is not asked for', not robust or isinstance(exc, KeyboardInterrupt)); return
    c.prove('the runs are returned', r is runs)
    if c.ghost.get('chosen'):
        c.prove('the model is at the solution of one of these restarts', P.tok is res['A'][1])
        if 'B' in res:
            a, b = res['A'][0], res['B'][0]
            c.prove('no restart ended with a better finite objective', z3.Implies(b.fin, z3.And(z3.Not(a.nan), z3.Not(b.lt(a)))))
    else:
        c.prove('if every restart failed, nothing is chosen', not res)
        c.prove('and the starting parameters are back', P.tok is initial)


ARGMIN = ['numpy argmin returns the position of a smallest entry, or of a NaN if there is one']


@contract('C22', ['Model.optimize_restarts'], assumes=['contracts of optimize (above) and randomize (C27)'], trusted=ARGMIN)
def optimize_restarts(c): restarts(c, False)


def workers(c, res, now, share, Err):
    'what the restarts in worker processes work on: copies of the model; the results of the restarts A and B'
    from paramz.optimization.optimization import Optimizer
    memo = {}
    def run_of(f, x):
        r = SObj('run', None, fields=dict(f_opt=f, x_opt=x), track=False); r.__dict__['_isinst'] = lambda k: k is Optimizer or k is object
        return r
    def outcome(who):
        # an interrupt ends the pool: not in question
        if c.choose(2, 'run'): return Err('a failing run')
        f, x = F.fresh('f_opt'), V('x_opt')
        if who: res[who] = (f, x.tok)
        return run_of(f, x)
    def copy_of(who):
        def optimize(o, *a, **k):
            c.prove('the settings are handed on', not a and set(k) == {'messages'})
            r = outcome(who)
            if isinstance(r, Exception): raise r
            return r
        return SObj('copy', None, contracts=dict(optimize=optimize, randomize=lambda o, *a, **k: c.event('randomize', o)), irr=True, track=False)
    def copy(o, *a, **k):
        if a or k: raise Unsupported('copy with arguments')
        return copy_of(now['i'] if now['i'] in ('A', 'B') else None)
    class Jobs(vals.Sym):
        _irr_ = True
        def __init__(self, l): self.l = l
        def __getitem__(self, i): return c.ghost['index'](self.l, i)
    class Pool(object):
        def map(self, fn, l):
            if type(l).__name__ != 'Indexed': raise Unsupported('map over %r' % (l,))
            return Jobs([Irr(lambda x=x: fn(x.make())) if isinstance(x, Irr) else fn(x) for x in (probe(y, fn) for y in list.__iter__(l))])
        def close(self): pass
        def join(self): pass
        def terminate(self): pass
    def probe(x, fn):
        # an error that leaves the function leaves map as well
        if isinstance(x, Irr) and 'probed' not in memo:
            memo['probed'] = True
            if c.choose(2, 'an error in another process'): fn(x.make())
        return x
    class MP(object):
        def __init__(self): self.Pool = lambda *a, **k: Pool()
    def index(l, i, A, B, two):
        ws = [('A', A)] + ([('B', B)] if two else [])
        if two == 2: ws.reverse()
        it = list(list.__iter__(l)); here = [x for x in it if not isinstance(x, Irr)]
        if len(here) != len(ws): raise Unsupported('index into another list')
        for (nm, w), x in zip(ws, here):
            if i is w:
                if isinstance(x, Exception): now['failed'] = x
                return x
        if now['i'] != 'other': raise Unsupported('index %r %r %r' % (i, A, now['i']))
        if (id(l), id(i)) not in memo: memo[id(l), id(i)] = ([y for y in it if isinstance(y, Irr)][0].make(), l, i)
        x = memo[id(l), id(i)][0]
        if isinstance(x, Exception): now['failed'] = x
        return x
    return dict(copy=copy), MP(), index


@contract('C22', ['Model.optimize_restarts', 'opt_wrapper'], assumes=['contracts of copy (C19), optimize (above) and randomize (C27)', 'pool.map returns what the function returns for each entry of the list, in its order, or raises an error of it; work in other processes does not touch the model; no interrupt while they work'], trusted=ARGMIN)
def optimize_restarts_in_parallel(c): restarts(c, True)


class X(Opaque):
    __slots__ = ()


def wrapper(cls, fn, result, callbacks):
    'result: positions of (x, f, count) in what scipy returns, and the warning flag values'
    def run(c):
        import paramz.optimization.optimization as M
        x0, x, fx, cnt = X('x_init'), X('solution'), Opaque('objective at the solution'), Opaque('count')
        f_fp = lambda v: (value(v), Opaque('gradient')); f = lambda v: value(v); fp = lambda v: Opaque('gradient')
        def value(v):
            if v is not x: raise Unsupported('objective at another point')
            return fx
        flag = c.choose(3, 'flag'); got = []
        class S(object): pass
        def call(*a, **k):
            got.append((a, k)); return result(x, fx, cnt, flag)
        s = S(); setattr(s, fn, call)
        tols = [None, Opaque('tolerance')][c.choose(2, 'tolerances')]
        o = SObj('optimizer', getattr(M, cls), track=False, fields=dict(xtol=tols, ftol=tols, gtol=tols, bfgs_factor=tols, messages=False, max_f_eval=Opaque('max_f_eval'), max_iters=Opaque('max_iters')))
        keep = M.optimize; M.optimize = s
        try: getattr(M, cls).opt(o, x0, f_fp=f_fp, f=f, fp=fp)
        finally: M.optimize = keep
        if len(got) != 1: raise Unsupported('not one call')
        a, k = got[0]
        fs = dict(f_fp=f_fp, f=f, fp=fp)
        c.prove('scipy minimises this objective from this point', all(arg(a, k, i, n) is fs[v] for i, n, v in callbacks) and arg(a, k, 1, 'x0') is x0)
        g = o.__dict__['_f']
        c.prove('the solution reported is the one found', g.get('x_opt') is x)
        c.prove('the objective reported is the objective there', g.get('f_opt') is fx)
        c.prove('a status is reported', isinstance(g.get('status'), str))
    run.__name__ = cls
    return run

SCIPY = ['scipy.optimize returns its solution, and the objective there where it returns a value']
for cls, fn, res, cb in [
        ('opt_tnc', 'fmin_tnc', lambda x, f, n, w: (x, n, w), [(0, 'func', 'f_fp')]),
        ('opt_lbfgsb', 'fmin_l_bfgs_b', lambda x, f, n, w: (x, f, dict(funcalls=n, warnflag=w, task='task', grad=Opaque('g'), nit=Opaque('nit'))), [(0, 'func', 'f_fp')]),
        ('opt_bfgs', 'fmin_bfgs', lambda x, f, n, w: (x, f, Opaque('g'), Opaque('B'), n, Opaque('gcalls'), w), [(0, 'f', 'f'), (2, 'fprime', 'fp')]),
        ('opt_simplex', 'fmin', lambda x, f, n, w: (x, f, Opaque('it'), n, w), [(0, 'func', 'f')])]:
    contract('C22', [cls + '.opt'], trusted=SCIPY)(wrapper(cls, fn, res, cb))


# climin is not installed: its optimizers by the contract documented for them (an iterator that makes one step each time)
CLIMIN = ['an optimizer of climin is an iterator without end; each step changes wrt, and the info it yields has n_iter, the number of steps made so far']


class Info(vals.Sym):
    'what climin yields after a step'
    _irr_ = True
    def __init__(self, n): self.n = n
    def __getitem__(self, k):
        if k != 'n_iter': raise Unsupported('%r of the info' % (k,))
        return self.n


class Steps(vals.Sym):
    'an optimizer of climin: only the step at which max_iters is reached is looked at, the steps before are any number'
    def __init__(self, c, wrt, n):
        def before():
            k = fresh_int('steps'); c.assume(z3.And(k.e >= 1, k.e < n.e)); return Info(k)
        self.wrt = wrt; self.final = Tok('after max_iters steps'); done = dict(entered=False)
        def enter(): wrt.tok = self.final; done['entered'] = True
        self.done = done
        self.seq = [Irr(before, label='the steps before', loose=[self]), rt.At(Info(n), enter)]
        c.tracked.append(self)
    _irr_ = True
    def _snap_(self): return id(self.wrt.tok)
    def _loose_(self, s): return 0
    def _blur_(self): self.wrt.tok = Tok('any')
    def _iter_(self): return self.seq


def climin(cls, module, fn, params, given):
    """params: names of the settings; given: those whose value is fixed by the class"""
    def run(c):
        import paramz.optimization.optimization as M
        made = []
        n = fresh_int('max_iters'); c.assume(n.e >= 1)
        kw = {k: Opaque(k) for k in params if c.choose(2, k) == 0} if c.choose(2, 'some settings') == 0 else {}
        import types
        mod = types.ModuleType('climin'); sub = types.ModuleType('climin.' + module); setattr(mod, module, sub)
        wrt = V('wrt')
        def make(*a, **k): made.append((a, k)); steps = Steps(c, wrt, n); made.append(steps); return steps
        setattr(sub, fn, make)
        keep = shim.MODULES.get('climin'); shim.MODULES['climin'] = mod
        try:
            o = SObj('optimizer', getattr(M, cls), track=False)
            getattr(M, cls).__init__(o, max_iters=n, **kw)
            f = o.__dict__['_f']
            c.prove('the limit asked for is kept', f.get('max_iters') is n)
            c.prove('there is no solution yet', f.get('x_opt') is None)
            x0 = V('x_init'); fp = Opaque('gradient callback')
            getattr(M, cls).opt(o, x0, f_fp=Opaque('f_fp'), f=Opaque('f'), fp=fp)
        finally:
            shim.MODULES.pop('climin')
            if keep is not None: shim.MODULES['climin'] = keep
        if len(made) != 2: raise Unsupported('not one optimizer')
        (a, k), steps = made
        c.prove('climin follows this gradient from this point', arg(a, k, 0, 'wrt') is x0 and arg(a, k, 1, 'fprime') is fp)
        for i, nm in enumerate(params):
            if nm in given: continue
            v = arg(a, k, 2 + i, nm)
            c.prove('the settings asked for are used', v is kw[nm] if nm in kw else isinstance(v, (int, float)), which=nm)
        x = f.get('x_opt')
        c.prove('it stops when the limit is reached', steps.done['entered'])
        c.prove('the solution reported is where it stopped', isinstance(x, V) and x.tok is steps.final)
        c.prove('a status is reported', isinstance(f.get('status'), str))
    run.__name__ = cls + '_by_climin'
    return run


for cls, module, fn, params, fixed in [
        ('Opt_Adadelta', 'adadelta', 'Adadelta', ('step_rate', 'decay', 'momentum'), ()),
        ('RProp', 'rprop', 'Rprop', ('step_shrink', 'step_grow', 'min_step', 'max_step', 'changes_max'), ()),
        ('Adam', 'adam', 'Adam', ('step_rate', 'decay', 'decay_mom1', 'decay_mom2', 'momentum', 'offset'), ('decay',))]:
    contract('C22', [cls + '.__init__', cls + '.opt'], trusted=CLIMIN)(climin(cls, module, fn, params, fixed))


@contract('C22', ['Optimizer.run'])
def optimizer_run(c):
    import paramz.optimization.optimization as M
    x0 = X('x_init'); fs = dict(f_fp=Opaque('f_fp'), f=Opaque('f'), fp=Opaque('fp')); got = []
    def opt(o, *a, **k): got.append((a, k))
    o = SObj('optimizer', M.Optimizer, contracts=dict(opt=opt), track=False)
    M.Optimizer.run(o, x0, **fs)
    c.prove('it optimizes once, with the point and the callbacks given', len(got) == 1 and arg(got[0][0], got[0][1], 0, 'x_init') is x0 and all(arg(got[0][0], got[0][1], 1 + i, n) is fs[n] for i, n in enumerate(('f_fp', 'f', 'fp'))))


@contract('C22', ['Optimizer.__init__', 'opt_tnc.__init__', 'opt_lbfgsb.__init__', 'opt_bfgs.__init__', 'opt_simplex.__init__', 'opt_SCG.__init__'])
def making_an_optimizer(c):
    import paramz.optimization.optimization as M
    cls = [M.Optimizer, M.opt_tnc, M.opt_lbfgsb, M.opt_bfgs, M.opt_simplex, M.opt_SCG][c.choose(6, 'class')]
    o = SObj('optimizer', cls, track=False)
    vs = {k: Opaque(k) for k in ('ftol', 'gtol', 'xtol', 'bfgs_factor')}
    n = [7, 250, 1000][c.choose(3, 'max_iters')]
    given = [k for k in vs if c.choose(2, k)]
    kw = {k: vs[k] for k in given}
    cls.__init__(o, max_iters=n, **kw)
    f = o.__dict__['_f']
    c.prove('the limits asked for are kept', f.get('max_iters') == n)
    c.prove('the tolerances asked for are kept, others are the defaults of the method', all(f.get(k) is (vs[k] if k in given else None) for k in vs))
    c.prove('there is no solution yet', f.get('x_opt') is None and f.get('f_opt') is None)


NAMES = dict(fmin_tnc='opt_tnc', simplex='opt_simplex', lbfgsb='opt_lbfgsb', scg='opt_SCG', adadelta='Opt_Adadelta', rprop='RProp', adam='Adam')
NAMES['org-bfgs'] = 'opt_bfgs'


@contract('C22', ['get_optimizer'], assumes=['every text that is part of a documented name was tried (finitely many), in lower and upper case; others: some'])
def choosing_an_optimizer(c):
    import paramz.optimization.optimization as M
    parts = sorted({n[i:j] for n in NAMES for i in range(len(n)) for j in range(i + 1, len(n) + 1)})
    for up in (str.lower, str.upper, str.title):
        for t in parts:
            r = M.get_optimizer(up(t))
            c.prove('the class of a method with this text in its name', any(r is getattr(M, NAMES[n]) for n in NAMES if t in n), text=up(t))
            if t in NAMES: c.prove('a full name gives its method', r is getattr(M, NAMES[t]), text=up(t))
    for t in ('newton', 'bfgss', 'x', 'scg ', 'lbfgsbb', 'tnc_', 'fmintnc', '_'):
        if t in parts: continue
        try: r = M.get_optimizer(t)
        except KeyError: r = None
        c.prove('no method has this text in its name', r is None, text=t)


@contract('C22 C06', ['Model.objective_function_gradients'])
def gradients_of_the_objective(c):
    from paramz.model import Model
    g = Opaque('gradient')
    o = SObj('model', Model, fields=dict(gradient=g))
    c.prove('the gradient stored on the model', Model.objective_function_gradients(o) is g and not c.trace)


# ---------------------------------------------------------------------------------------------------------------
# the display of optimize(messages=True)

SHOWN = ['what the display prints (exponents, print_out, IPython widgets) has no effect on the model: display code, exercised by the bounded check only']


def display(c, objective, grads=None):
    import paramz.optimization.verbose_optimization as VM
    watching = []
    def add(o, who, call, *a, **k):
        c.event('add_observer', o); watching.append((who, call))
    def remove(o, who, call=None):
        c.event('remove_observer', o); watching[:] = [(w, f) for w, f in watching if w is not who or call is not None and f != call]
    m = SObj('model', None, fields=dict(obj_grads=grads), contracts=dict(add_observer=add, remove_observer=remove, objective_function=objective))
    return VM, m, watching


def raising(c, what):
    import numpy as np
    k = c.choose(6, what)
    class Mine(np.linalg.LinAlgError): pass
    return [None, np.linalg.LinAlgError('f'), ZeroDivisionError('f'), ValueError('f'), Mine('f'), RuntimeError('f')][k], k == 5


@contract('C22 C21', ['VerboseOptimization.__init__', 'VerboseOptimization.__enter__', 'VerboseOptimization.__exit__'], assumes=SHOWN)
def display_leaves_nothing_behind(c):
    import numpy as np
    err, fatal = raising(c, 'the objective at the start')
    val = Opaque('objective')
    def objective(o):
        if err is not None: raise err
        return val
    VM, m, watching = display(c, objective)
    shown = bool(c.choose(2, 'messages')); exc = None
    opt = SObj('optimizer', None, fields=dict(opt_name='opt', status='converged'), track=False)
    keep = VM.exponents, VM.VerboseOptimization.print_out
    VM.exponents = lambda *a: np.zeros(2, int)
    def print_out(s, *a): s.timestring = '00s00'
    VM.VerboseOptimization.print_out = print_out
    try:
        try: vo = VM.VerboseOptimization(m, opt, 100, verbose=shown)
        except RuntimeError as e: exc = e
        if exc is not None:
            c.prove('an error that is not numerical is passed on as it is', exc is err and shown)
            c.prove('nothing observes the model if the display cannot be made', watching == []); return
        c.prove('only messages look at the objective', not (fatal and shown))
        r = vo.__enter__()
        c.prove('the display is what is entered', r is vo)
        c.prove('while it runs it observes the model once if messages are asked for', [(w is vo) for w, f in watching] == [True] * shown)
        if shown: c.prove('its callback shows the status', getattr(watching[0][1], '__name__', '') == 'print_status' and watching[0][1].__self__ is vo)
        watching.insert(0, ('somebody else', None)); watching.append(('yet another', None))
        e = (None, RuntimeError, KeyboardInterrupt)[c.choose(3, 'how it ends')]
        out = vo.__exit__(*((e, e('x'), None) if e else (None,) * 3))
        c.prove('an error is not hidden', not out)
        c.prove('afterwards those that observed before observe', watching == [('somebody else', None), ('yet another', None)])
    finally: VM.exponents, VM.VerboseOptimization.print_out = keep


@contract('C21 C22', ['VerboseOptimization.update', 'VerboseOptimization.print_status'], assumes=SHOWN)
def display_does_not_interfere(c):
    import numpy as np
    err, fatal = raising(c, 'the objective')
    val = Opaque('objective')
    def objective(o):
        if err is not None: raise err
        return val
    VM, m, watching = display(c, objective, [None, np.array([3., 4.])][c.choose(2, 'gradients so far')])
    vo = SObj('display', VM.VerboseOptimization, fields=dict(model=m, start=0., _time=0., iteration=7, p_iter=0), contracts=dict(print_out=lambda s, *a: None), track=False)
    exc = None; one = c.choose(2, 'update itself')
    try: vo.update() if one else VM.VerboseOptimization.print_status(vo, m, which=None)
    except RuntimeError as e: exc = e
    if fatal: c.prove('an error that is not numerical is passed on as it is', exc is err); return
    c.prove('a numerical error of the objective is left to the optimizer, which evaluates it as well', exc is None)
    f = vo._lookup('fnow', None)
    c.prove('the objective is what is shown, if there is one', f is val if err is None else isinstance(f, float))
    c.prove('the model is left alone', not c.trace and not watching)
