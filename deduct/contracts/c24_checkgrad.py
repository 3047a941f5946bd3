"""C24: _checkgrad, in real arithmetic, for vectors of any length seen at one arbitrary entry k0, any selection of entries to check,
any step and tolerance.  gT is the slope of the objective along the direction tried, as the two evaluations show it."""
import z3
from .. import rt, vals, shim, index
from ..base import contract, arg
from ..index import SIdx, FArr, Sel, Vec, forall, same_key
from ..rt import Irr, Unsupported
from ..vals import SObj, Opaque, SNum, SBool, Prop, fresh_int, fresh_real, num, bexpr

REAL = ['objective values and gradients are real numbers (no rounding, overflow or NaN): rounding is covered by the bounded check only',
        'contracts of the optimizer vector (C05), of _objective and _grads (C21) and of _raveled_index_for_transformed (C07)']


class Cur(vals.Sym):
    'the current optimizer vector: a buffer changed in place by every assignment'
    _irr_ = True
    def __init__(self, n, k0): self.live = FArr(n, fresh_real('x').e, k0.e, 'current parameters'); rt.ctx().tracked.append(self)
    def _snap_(self): return index.FSnap(self.live.e, self.live.n)
    def _loose_(self, s): return 0
    def _blur_(self): self.live.version += 1; self.live.e = fresh_real('any').e
    def set(self, v):
        if not isinstance(v, FArr): raise Unsupported('%r as an optimizer vector' % (v,))
        rt.ctx().prove('vectors of the right length', num(v.n) == num(self.live.n)); self.live.version += 1; self.live.e = v.e


class Widths(vals.Sym):
    def __add__(self, o): return self
    def __getitem__(self, i): return fresh_int('width')
    def _len_(self): return 6


class Names(vals.Sym):
    def __init__(self, n): self.n = n
    def _len_(self): return self.n
    def __getitem__(self, i): return 'name'


class PyFloat(SNum):
    "what float() makes of a number: dividing it by such a number, zero, is an error"
    def _mk(self, o, r): return PyFloat(r.e) if isinstance(r, SNum) and type(o) in (PyFloat, int, float) else r
    def __add__(self, o): return self._mk(o, SNum.__add__(self, o))
    def __radd__(self, o): return self._mk(o, SNum.__radd__(self, o))
    def __sub__(self, o): return self._mk(o, SNum.__sub__(self, o))
    def __rsub__(self, o): return self._mk(o, SNum.__rsub__(self, o))
    def __mul__(self, o): return self._mk(o, SNum.__mul__(self, o))
    def __rmul__(self, o): return self._mk(o, SNum.__rmul__(self, o))
    def __neg__(self): return PyFloat(-self.e)
    def __abs__(self): return PyFloat(SNum.__abs__(self).e)
    def __truediv__(self, o):
        if type(o) is PyFloat: rt.ctx().prove('no division by zero', o.e != 0)
        return self._mk(o, SNum.__truediv__(self, o))


class Value(SNum):
    'an objective value'
    def _float_(self): return PyFloat(self.e)


def world(c, verbose, one=False):
    from paramz.model import Model
    index.install()
    w = type('W', (), {})()
    n = w.n = fresh_int('n'); k0 = w.k0 = fresh_int('k0'); c.assume(z3.And(n.e >= 1, k0.e >= 0, k0.e < n.e)); c.ghost['k0'] = k0
    w.P = Cur(n, k0); w.x0 = w.P.live.e
    w.step, w.tol = (SNum(z3.Q(1, 10 ** 6)) if verbose else fresh_real('step')), fresh_real('tol'); c.assume(z3.And(w.step.e > 0, w.tol.e > 0))
    w.target = Opaque('target') if one or c.choose(2, 'target') else None
    idx = SIdx.symbol('entries under check'); c.assume(forall(lambda k: z3.Implies(idx.m(k), z3.And(k >= 0, k < n.e))))
    whole = w.target is None and not verbose
    w.sel = (lambda k: z3.And(k >= 0, k < n.e)) if whole else idx.m
    w.G = FArr(n, fresh_real('g').e, k0.e, 'gradient'); w.g = w.G.e
    w.evals = []; w.now = None; w.agree = None
    def objective(o, v):
        w.P.set(v); f = w.link() if w.link else fresh_real('f')
        w.evals.append((w.now, v.e, f))
        return Value(f.e)
    w.link = None
    def grads(o, v): w.P.set(v); return w.G
    def which(o, t):
        c.prove('the entries of the parameter asked about are looked up', t is w.target or (w.target is None and t is o))
        return SIdx(idx.m, True, card=idx.card())
    w.idx = idx
    w.m = SObj('model', Model, fields=dict(_model_initialized_=True), contracts=dict(optimizer_array=Prop(lambda o: w.P.live), _objective=objective, _grads=grads, _raveled_index_for_transformed=which,
               parameter_names_flat=lambda o: Names(n)), setters=dict(optimizer_array=lambda o, v: w.P.set(v)))
    def zeros(s, *a, **k): return FArr(s[0], z3.RealVal(0), k0.e, 'zeros')
    def uniform(lo, hi, size):
        u = fresh_real('u'); c.assume(z3.And(u.e >= num(lo), u.e <= num(hi), u.e != 0))
        return Vec(size, w.sel, u.e, 'random numbers')
    class Rnd(object): pass
    Rnd.uniform = staticmethod(uniform)
    def sign(v):
        if not isinstance(v, Vec): return NotImplemented
        return Vec(v.n, v.free, z3.If(v.e > 0, z3.RealVal(1), z3.If(v.e < 0, z3.RealVal(-1), z3.RealVal(0))), 'signs')
    def where(b, x, y):
        if isinstance(b, SBool): return SNum(z3.If(b.e, num(x), num(y)))
        return Opaque('where')
    def array(x, *a, **k):
        if isinstance(x, list) and any(isinstance(y, (SNum, int)) for y in x): return Widths()
        return index.array(x, *a, **k)
    shim.FUNCS.update(zeros=zeros, sign=sign, where=where, abs=lambda v: abs(v) if isinstance(v, SNum) else NotImplemented, array=array, all=lambda b: b if isinstance(b, SBool) else b.all())
    w.Rnd = Rnd
    return w


def run(c, w, verbose):
    import paramz.model as M
    keep = shim.NP.__dict__.get('random'); shim.NP.__dict__['random'] = w.Rnd
    try: return M.Model._checkgrad(w.m, w.target, verbose=verbose, step=w.step, tolerance=w.tol)
    finally:
        if keep is None: del shim.NP.__dict__['random']
        else: shim.NP.__dict__['random'] = keep


@contract('C24', ['Model._checkgrad (verbose=False)'], assumes=REAL)
def checkgrad_whole(c):
    w = world(c, False)
    dots = []
    def dot(a, b):
        if not (isinstance(a, Sel) and isinstance(b, Sel)): return NotImplemented
        same_key(a, b); d = fresh_real('slope'); dots.append((a, b, d)); return d
    shim.FUNCS['dot'] = dot
    r = run(c, w, False)
    empty = w.idx.card().e == 0 if w.target is not None else z3.BoolVal(False)
    c.prove('the parameters are as before', w.P.live.e == w.x0)
    if not w.evals:
        c.prove('nothing is checked only if there are no free entries', empty); c.prove('which is a success', r is True); return
    c.prove('entries are checked if there are any', z3.Not(empty))
    if len(w.evals) != 2 or len(dots) != 1: raise Unsupported('another way of checking')
    (a, b, D), (_, e1, f1), (_, e2, f2) = dots[0], *w.evals
    k = z3.Int(c.name('k'))
    c.prove('the slope is taken over the entries under check', a.dom(k) == w.sel(k))
    here = w.sel(w.k0.e)
    if c.entails(z3.Implies(here, e1 == w.x0 + a.e)): pass
    elif c.entails(z3.Implies(here, e2 == w.x0 + a.e)): e1, f1, e2, f2 = e2, f2, e1, f1
    h = a.e
    c.prove('every entry under check is moved by one step, both ways, in the direction the slope is taken in', z3.Implies(here, z3.And(z3.Or(h == w.step.e, h == -w.step.e), e1 == w.x0 + h, e2 == w.x0 - h)))
    c.prove('no other entry is moved', z3.Implies(z3.Not(here), z3.And(e1 == w.x0, e2 == w.x0)))
    c.prove('the reported gradient is compared', z3.Implies(here, b.e == w.g))
    diff = f1.e - f2.e; slope = 2 * D.e; t = w.tol.e; A = lambda x: z3.If(x < 0, -x, x)
    v = bexpr(r)
    c.prove('true when the gradient agrees with the objective', z3.Implies(diff == slope, v))
    small = 2 * w.step.e * t
    c.assume(small > z3.Q(1, 10 ** 30)); c.assume(t < 1)
    c.prove('false when it is off by more than the tolerances allow', z3.Implies(z3.And(A(diff - slope) >= t * A(slope), A(diff - slope) >= small), z3.Not(v)))


def each(c, agree):
    w = world(c, True, not agree)
    c.ghost['range'] = lambda r: [Irr(lambda: fresh_int('i'), label='the names')]
    w.cur = None; w.looked = False
    def iterate(i):
        w.looked = True
        c.prove('the entries under check are gone through', w.idx.m is i.m or forall(lambda k: i.m(k) == w.idx.m(k)))
        def mk():
            k = fresh_int('entry'); c.assume(z3.And(i.m(k.e), k.e != w.k0.e)); w.now = 'other'; w.cur = k
            return k
        def seg():
            r = Irr(mk, label='the other entries', loose=[w.P]); r.twin = 'others'
            return r
        def enter(): w.now = 'k0'; w.cur = w.k0
        mid = [rt.At(w.k0, enter)] if c.decide(i.m(w.k0.e)) else []
        return [seg()] + mid + [seg()]
    c.ghost['iterate'] = iterate
    w.pair = []
    def link():
        if not agree or not w.pair: f = fresh_real('f'); w.pair.append(f); return f
        return w.pair.pop() - 2 * w.step * SNum(w.G.at(z3.simplify(w.cur.e)))
    w.link = link
    r = run(c, w, True)
    c.prove('the parameters are as before', w.P.live.e == w.x0)
    if not w.looked:
        c.prove('nothing is checked only if there are no free entries', w.idx.card().e == 0); c.prove('which is a success', r is True); return
    for who, e, f in w.evals:
        if who == 'other': c.prove('no other entry is moved', e == w.x0)
    mine = [(e, f) for who, e, f in w.evals if who == 'k0']
    if agree:
        c.prove('true when the gradient agrees with the objective', bexpr(r))
    if not mine:
        c.prove('every entry under check is checked', z3.Not(w.idx.m(w.k0.e))); return
    if len(mine) != 2: raise Unsupported('another way of checking')
    (e1, f1), (e2, f2) = mine
    sgn = 1
    if c.entails(e1 == w.x0 - w.step.e): sgn = -1; e1, f1, e2, f2 = e2, f2, e1, f1
    c.prove('the entry is moved by one step both ways', z3.And(e1 == w.x0 + w.step.e, e2 == w.x0 - w.step.e))
    if not agree:
        A = lambda x: z3.If(x < 0, -x, x); d = f1.e - f2.e; s = 2 * w.step.e; t = w.tol.e
        c.assume(t < 1)
        # off by more than the tolerance, both absolutely and relative to the gradient reported
        c.prove('false when an entry is off by more than the tolerances allow', z3.Implies(z3.And(A(d - s * w.g) >= t * s, A(d - s * w.g) >= t * A(s * w.g)), z3.Not(bexpr(r))))


@contract('C24', ['Model._checkgrad (verbose=True)'], assumes=REAL)
def checkgrad_each_agrees(c): each(c, True)


@contract('C24', ['Model._checkgrad (verbose=True)'], assumes=REAL)
def checkgrad_each_is_off(c): each(c, False)


@contract('C24', ['Model._checkgrad'])
def checkgrad_uninitialised(c):
    from paramz.model import Model
    import warnings
    m = SObj('model', Model, fields=dict(_model_initialized_=False))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); r = Model._checkgrad(m)
    c.prove('a model that is not initialised is not reported correct', r is False and not c.trace)
