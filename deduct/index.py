"""Index arrays as sets of positions, boolean arrays as predicates, float arrays through one arbitrary position.

SIdx: an integer index array; only which positions occur and whether they are sorted and distinct is known.
SMask: a boolean array over 0..n-1, a predicate over all positions.
FArr: a flat float array over 0..n-1 seen at one arbitrary position k0 (the witness of the contract).
Sel: values taken at an index set or mask, seen at the one belonging to k0."""
import numpy as np
import z3
from . import rt, vals, shim
from .rt import Unsupported, ctx
from .vals import Sym, SBool, SNum, num, fresh_int

K = z3.Int('k')


def forall(f):
    'for all positions'
    return z3.ForAll([K], f(K))


def exists_at(f, base):
    k = fresh_int(base); return k, f(k.e)


def intexpr(x):
    e = num(x)
    if e is None or not e.is_int(): raise Unsupported('%r as an integer' % (x,))
    return e


class SIdx(Sym):
    _irr_ = False
    def __init__(self, m, sorted=True, irr=False, card=None, name='index'):
        self.m = m; self.sorted = sorted; self._irr_ = irr; self._card = card; self.name = name
    @staticmethod
    def symbol(name, sorted=True, irr=False):
        f = z3.Function(ctx().name(name), z3.IntSort(), z3.BoolSort())
        return SIdx(lambda k: f(k), sorted, irr, name=name)
    @staticmethod
    def of(x):
        if isinstance(x, SIdx): return x
        if isinstance(x, SNum): return SIdx(lambda k: k == x.e, True)
        import numpy as np
        if isinstance(x, (list, tuple)) and any(isinstance(y, Sym) for y in x):
            es = [intexpr(y) for y in x]
            return SIdx(lambda k: z3.Or([k == e for e in es]) if es else z3.BoolVal(False), len(es) < 2)
        a = np.asarray(x)
        if a.dtype == object or a.ndim > 1: raise Unsupported('%r as an index array' % (x,))
        l = [int(v) for v in a.ravel()]
        return SIdx(lambda k: z3.Or([k == v for v in l]) if l else z3.BoolVal(False), l == sorted_unique(l))
    def _snap_(self): return SIdxSnap(self.m, self.sorted)
    def _havoc_(self): return SIdx.symbol(self.name, self.sorted)
    def _havoc_same_(self, o): return self.sorted or not o.sorted
    # arithmetic
    def _shift(self, o, s):
        if not isinstance(o, (int, SNum)) and type(o).__name__ not in ('int64', 'intp', 'int32'): return NotImplemented
        e = intexpr(o); m = self.m
        return SIdx((lambda k: m(k - e)) if s > 0 else (lambda k: m(k + e)), self.sorted, self._irr_, self.card())
    def __add__(self, o): return self._shift(o, 1)
    __radd__ = __add__
    def __sub__(self, o):
        if isinstance(o, (Cumsum, PosArr)):
            if self.iota is None: return NotImplemented
            return PosArr(self.iota, lambda k: k) - o
        return self._shift(o, -1)
    iota = None
    def __iadd__(self, o):
        r = self._shift(o, 1); self.m = r.m; self._card = r._card; return self
    def __isub__(self, o):
        r = self._shift(o, -1); self.m = r.m; self._card = r._card; return self
    def _c(self, o, f):
        e = intexpr(o); return IMask(self, lambda v: f(v, e))
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    __hash__ = None
    def __bool__(self): raise Unsupported('truth of an index array')
    # size
    def card(self):
        if self._card is None:
            c = ctx(); n = fresh_int('card'); m = self.m
            c.assume(n.e >= 0)
            k = fresh_int('member')
            c.assume(z3.Implies(n.e > 0, m(k.e)))
            c.assume(z3.Implies(n.e == 0, forall(lambda j: z3.Not(m(j)))))
            self._card = n
        return self._card
    @property
    def size(self): return self.card()
    @property
    def shape(self): return (self.card(),)
    @property
    def ndim(self): return 1
    def _len_(self): return self.card()
    def __contains__(self, i): return ctx().decide(self.m(intexpr(i)))
    _kinds_ = vals.INTS
    def astype(self, *a, **k): vals.keeps(vals.INTS, a, k); return SIdx(self.m, self.sorted, self._irr_, self._card)
    def copy(self, order='C'): return self.astype()
    flatten = ravel = copy
    def __getitem__(self, s):
        if isinstance(s, IMask):
            if s.ind is not self and s.base is not self.m: raise Unsupported('mask made for another array')
            m, p = self.m, s.p
            r = SIdxSel(lambda k: z3.And(m(k), p(k)), self.sorted, self._irr_); r.base = self; r.mask = s; r.shift = None
            return r
        if isinstance(s, slice) and s == slice(None) or s is Ellipsis: return self
        raise Unsupported('index of an index array')
    def __setitem__(self, s, v):
        if not isinstance(s, IMask): raise Unsupported('assignment into an index array')
        if not (isinstance(v, SIdxSel) and v.mask is s and v.shift is not None): raise Unsupported('assignment into an index array')
        m, p, e = self.m, s.p, v.shift
        f = lambda k: z3.If(p(k), k + e, k)
        new = lambda k: z3.Or(z3.And(m(k), z3.Not(p(k))), z3.And(m(k - e), p(k - e)))
        if self.sorted:
            a, b = z3.Int(ctx().name('a')), z3.Int(ctx().name('b'))
            self.sorted = ctx().entails(z3.Implies(z3.And(m(a), m(b), a < b), f(a) < f(b)))
            if not self.sorted: self._card = None
        self.m = new
    def __iter__(self): raise Unsupported('iteration over an index array')
    def _iter_(self):
        f = ctx().ghost.get('iterate')
        if f is None: raise Unsupported('iteration over an index array')
        return f(self)
    def tolist(self): raise Unsupported('index array as a list')
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of an index array' % k)
    def __repr__(self): return '<%s>' % self.name


class SIdxSel(SIdx):
    base = mask = shift = None
    def _shift(self, o, s):
        r = SIdx._shift(self, o, s)
        if r is NotImplemented: return r
        q = SIdxSel(r.m, r.sorted, r._irr_, r._card); q.base = self.base; q.mask = self.mask
        e = intexpr(o); e = e if s > 0 else -e
        q.shift = e if self.shift is None else self.shift + e
        return q
    def __iadd__(self, o): return self._shift(o, 1)
    def __isub__(self, o): return self._shift(o, -1)


class SIdxSnap(object):
    def __init__(self, m, s): self.m = m; self.s = s
    def _same_(self, o):
        if self.m is o.m and self.s == o.s: return True
        k = z3.Int(ctx().name('k'))
        return z3.And(self.m(k) == o.m(k), z3.BoolVal(self.s == o.s))


def sorted_unique(l): return sorted(set(l))


class IMask(Sym):
    'a truth value for each entry of an index array, given by its value'
    def __init__(self, ind, p): self.ind = ind; self.p = p; self.base = ind.m
    def _o(self, o):
        if isinstance(o, IMask):
            if o.base is not self.base and o.ind is not self.ind: raise Unsupported('masks of different arrays')
            return o.p
        raise Unsupported('mask operation')
    def __and__(self, o): p, q = self.p, self._o(o); return IMask2(self, lambda v: z3.And(p(v), q(v)))
    __mul__ = __and__
    def __or__(self, o): p, q = self.p, self._o(o); return IMask2(self, lambda v: z3.Or(p(v), q(v)))
    __add__ = __or__
    def __invert__(self): p = self.p; return IMask2(self, lambda v: z3.Not(p(v)))
    def sel(self):
        m, p = self.base, self.p
        return SIdx(lambda k: z3.And(m(k), p(k)))
    def sum(self): return self.sel().card()
    def any(self): return self.sum() != 0
    def all(self): return (~self).sum() == 0
    @property
    def size(self): return self.ind.card()
    def __bool__(self): raise Unsupported('truth of a mask')
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of a mask' % k)


def IMask2(a, p):
    r = IMask(a.ind, p); r.base = a.base; return r


class SMask(Sym):
    'a boolean array over 0..n-1'
    def __init__(self, n, p): self.n = n; self.p = p
    def _snap_(self): return MaskSnap(self.n, self.p)
    @property
    def size(self): return self.n
    @property
    def shape(self): return (self.n,)
    def _len_(self): return self.n
    _kinds_ = vals.BOOLS
    def astype(self, *a, **k): vals.keeps(vals.BOOLS, a, k); return SMask(self.n, self.p)
    def copy(self, order='C'): return self.astype()
    def __invert__(self): p = self.p; return SMask(self.n, lambda k: z3.Not(p(k)))
    def _o(self, o):
        if not isinstance(o, SMask): raise Unsupported('mask operation')
        ctx().prove('boolean arrays of one length', intexpr(self.n) == intexpr(o.n)); return o.p
    def __and__(self, o): p, q = self.p, self._o(o); return SMask(self.n, lambda k: z3.And(p(k), q(k)))
    __mul__ = __and__
    def __or__(self, o): p, q = self.p, self._o(o); return SMask(self.n, lambda k: z3.Or(p(k), q(k)))
    def __setitem__(self, s, v):
        b = vals.bexpr(v) if not isinstance(v, float) else z3.BoolVal(bool(v))
        if isinstance(s, slice) and s == slice(None) or s is Ellipsis: self.p = lambda k: b; return
        p = self.p
        if isinstance(s, SMask): q = self._o(s); self.p = lambda k: z3.If(q(k), b, p(k)); return
        i = SIdx.of(s); m = i.m
        within(i, self.n)
        self.p = lambda k: z3.If(m(k), b, p(k))
    def __getitem__(self, s):
        if isinstance(s, slice) and s == slice(None) or s is Ellipsis: return self
        if isinstance(s, SIdx): within(s, self.n); p = self.p; return IMask(s, lambda v: p(v))
        if isinstance(s, (int, SNum)): return SBool(self.p(intexpr(s)))
        raise Unsupported('index of a boolean array')
    def all(self, *a, **k):
        c = ctx(); b = vals.fresh_bool('all'); j = fresh_int('counterexample'); n = intexpr(self.n); p = self.p
        c.assume(z3.Implies(b.e, forall(lambda i: z3.Implies(z3.And(i >= 0, i < n), p(i)))))
        c.assume(z3.Implies(z3.Not(b.e), z3.And(j.e >= 0, j.e < n, z3.Not(p(j.e)))))
        return b
    def any(self, *a, **k): return ~((~self).all())
    def sum(self, *a, **k): return count(self)
    def cumsum(self): return Cumsum(self)
    def __bool__(self): raise Unsupported('truth of a boolean array')
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of a boolean array' % k)
    def __repr__(self): return '<boolean array>'


class Cumsum(Sym):
    """number of true entries up to and including each position: a function given by its recursion"""
    def __init__(self, mask):
        self.mask = mask; c = ctx(); n = intexpr(mask.n); p = mask.p
        F = self.F = z3.Function(c.name('count'), z3.IntSort(), z3.IntSort())
        c.assume(F(z3.IntVal(-1)) == 0)
        c.assume(forall(lambda k: z3.Implies(z3.And(k >= 0, k < n), F(k) == F(k - 1) + z3.If(p(k), 1, 0))))
        c.ghost.setdefault('cumsums', []).append(F)
    def __sub__(self, o):
        if isinstance(o, (int, SNum)): F = self.F; e = intexpr(o); return PosArr(self.mask.n, lambda k: F(k) - e)
        return NotImplemented
    def __rsub__(self, o): return NotImplemented
    def __getitem__(self, s): F = self.F; return PosArr(self.mask.n, lambda k: F(k))[s]
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of counts' % k)


class PosArr(Sym):
    'an integer array of length n given by a function of the position'
    def __init__(self, n, f): self.n = n; self.f = f
    def __getitem__(self, s):
        if isinstance(s, SIdx):
            within(s, self.n)
            if not s.sorted: raise Unsupported('selection by positions that may repeat')
            return PosSel(s.m, self.f)
        if isinstance(s, SMask):
            n = intexpr(self.n); p = s.p
            return PosSel(lambda k: z3.And(k >= 0, k < n, p(k)), self.f)
        raise Unsupported('index of an array')
    def _b(self, o, f):
        g = self.f
        if isinstance(o, (int, SNum)): e = intexpr(o); return PosArr(self.n, lambda k: f(g(k), e))
        if isinstance(o, Cumsum): F = o.F; return PosArr(self.n, lambda k: f(g(k), F(k)))
        if isinstance(o, PosArr): h = o.f; return PosArr(self.n, lambda k: f(g(k), h(k)))
        return NotImplemented
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of an array' % k)


class PosSel(Sym):
    'the values of a PosArr at the positions of a set, in ascending order of the positions'
    def __init__(self, dom, f): self.dom = dom; self.f = f
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of an array' % k)


class MaskSnap(object):
    def __init__(self, n, p): self.n = n; self.p = p
    def _same_(self, o):
        k = z3.Int(ctx().name('k')); n = intexpr(self.n)
        return z3.And(n == intexpr(o.n), z3.Implies(z3.And(k >= 0, k < n), self.p(k) == o.p(k)))


def within(i, n):
    'positions are inside the array (otherwise numpy raises or counts from the end)'
    k = z3.Int(ctx().name('k'))
    ctx().prove('positions used are inside the array', z3.Implies(i.m(k), z3.And(k >= 0, k < intexpr(n))))


def mask_same(a, b):
    'the same predicate over 0..n-1'
    k = z3.Int(ctx().name('k')); n = intexpr(a.n)
    return z3.And(n == intexpr(b.n), z3.Implies(z3.And(k >= 0, k < n), a.p(k) == b.p(k)))


def count(mask):
    """number of true entries.  Fact used: if the complement is an index set inside 0..n-1, it is n minus its number"""
    c = ctx()
    for (m, card) in c.ghost.get('cards', []):
        k = z3.Int(c.name('k')); n = intexpr(mask.n)
        if c.entails(z3.Implies(z3.And(k >= 0, k < n), mask.p(k) == z3.Not(m(k)))) and c.entails(z3.Implies(m(k), z3.And(k >= 0, k < n))): return SNum(n) - card
    r = fresh_int('count'); c.assume(z3.And(r.e >= 0, r.e <= intexpr(mask.n)))
    return r


# ---------------------------------------------------------------------------------------------------------------

class Sel(Sym):
    'values at the positions of an index set / mask (in its order), seen at k0; dom: predicate of the positions'
    def __init__(self, dom, e, key): self.dom = dom; self.e = e; self.key = key
    @property
    def size(self):
        if isinstance(self.key, SMask): return count(self.key)
        return self.key.card()
    @property
    def shape(self): return (self.size,)
    @property
    def flat(self): return self
    def copy(self): return Sel(self.dom, self.e, self.key)
    def flatten(self): return self.copy()
    def _len_(self): return self.size
    def ravel(self): return self
    def view(self, *a): return self
    _kinds_ = vals.FLOATS
    def astype(self, *a, **k): vals.keeps(vals.FLOATS, a, k); return self
    def map(self, f): return Sel(self.dom, f(self.e), self.key)
    def _b(self, o, f):
        if isinstance(o, Sel): same_key(self, o); return Sel(self.dom, f(self.e, o.e), self.key)
        e = num(o)
        if e is None: raise Unsupported('operation on selected values')
        return Sel(self.dom, f(self.e, z3.ToReal(e) if e.is_int() else e), self.key)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __getitem__(self, s):
        if isinstance(s, slice) and s == slice(None) or s is Ellipsis: return self
        raise Unsupported('index of selected values')
    def __bool__(self): raise Unsupported('truth of selected values')
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of selected values' % k)
    def __repr__(self): return '<selected values>'


def same_key(a, b):
    'the two selections run over the same positions (and so are aligned)'
    if a.key is b.key and a.dom is b.dom: return
    k = z3.Int(ctx().name('k'))
    ctx().prove('values are aligned with the positions they belong to', a.dom(k) == b.dom(k))


class FArr(Sym):
    'a flat float array of length n seen at position k0; writable in place'
    _kinds_ = vals.FLOATS
    def __init__(self, n, e, k0, name='array'):
        self.n = n; self.e = e; self.k0 = k0; self.name = name; self.version = 0; self.seen = (0, [])
    def _snap_(self): return FSnap(self.e, self.n)
    @property
    def size(self): return self.n
    @property
    def shape(self): return (self.n,)
    ndim = 1
    def _len_(self): return self.n
    @property
    def flat(self): return Flat(self)
    def copy(self):
        r = FArr(self.n, self.e, self.k0, self.name + "'")
        if self.seen[0] != self.version: self.seen = (self.version, [])
        r.seen = (0, self.seen[1])        # equal contents: reads of either are reads of both, until one is written
        return r
    flatten = copy
    def view(self, *a): return self
    def ravel(self, *a): return self
    def _copy_(self, *a): return self.copy()
    def at(self, i):
        'one element; equal positions give equal elements'
        c = ctx()
        if c.entails(i == self.k0): return self.e
        if self.seen[0] != self.version: self.seen = (self.version, [])
        for j, v in self.seen[1]:
            if z3.eq(j, i): break
        else: v = z3.Real(c.name('element')); self.seen[1].append((i, v))
        return z3.If(i == self.k0, self.e, v)
    def take(self, s):
        if isinstance(s, tuple) and len(s) == 1: s = s[0]
        if isinstance(s, SNum):
            ctx().prove('positions used are inside the array', z3.And(s.e >= 0, s.e < intexpr(self.n)))
            return SNum(self.at(z3.simplify(s.e)))
        if isinstance(s, slice) and s == slice(None) or s is Ellipsis: return self
        if isinstance(s, SIdx):
            within(s, self.n)
            if not s.sorted: raise Unsupported('selection by positions that may repeat')
            return Sel(s.m, self.e, s)
        if isinstance(s, SMask):
            ctx().prove('a boolean index has the length of the array', intexpr(s.n) == intexpr(self.n))
            n = intexpr(self.n); p = s.p
            return Sel(lambda k: z3.And(k >= 0, k < n, p(k)), self.e, s)
        raise Unsupported('index of an array')
    def put(self, s, v):
        c = ctx()
        if isinstance(s, tuple) and len(s) == 1: s = s[0]
        if isinstance(s, SNum):
            i = z3.simplify(s.e); new = num(v)
            if new is None: raise Unsupported('value written into an array')
            new = z3.ToReal(new) if new.is_int() else new
            c.prove('positions used are inside the array', z3.And(i >= 0, i < intexpr(self.n)))
            self.at(i); seen = self.seen[1]
            self.version += 1; self.seen = (self.version, [(j, new if z3.eq(j, i) else v2) for j, v2 in seen if z3.eq(j, i) or c.entails(j != i)])
            self.e = z3.simplify(z3.If(i == self.k0, new, self.e)); return
        self.version += 1
        if isinstance(s, slice) and s == slice(None) or s is Ellipsis: self.assign_all(v); return
        if isinstance(s, SIdx): within(s, self.n); dom = s.m
        elif isinstance(s, SMask):
            c.prove('a boolean index has the length of the array', intexpr(s.n) == intexpr(self.n)); n = intexpr(self.n); p = s.p
            dom = lambda k: z3.And(k >= 0, k < n, p(k))
        else: raise Unsupported('index of an array')
        if isinstance(v, Sel): new = v.e; same_key(Sel(dom, v.e, s), v)
        elif isinstance(v, Vec): new = v.at(Sel(dom, None, s))
        else:
            new = num(v)
            if new is None: raise Unsupported('value written into an array')
            new = z3.ToReal(new) if new.is_int() else new
        self.e = z3.simplify(z3.If(dom(self.k0), new, self.e))
    def assign_all(self, v):
        c = ctx()
        if isinstance(v, Flat): v = v.a
        if isinstance(v, FArr):
            c.prove('arrays of one length', intexpr(v.n) == intexpr(self.n)); self.e = v.e
        elif isinstance(v, Vec):
            n = intexpr(self.n); self.e = v.at(Sel(lambda k: z3.And(k >= 0, k < n), None, SMask(self.n, lambda k: z3.BoolVal(True))))
        elif isinstance(v, Sel):
            n = intexpr(self.n); same_key(Sel(lambda k: z3.And(k >= 0, k < n), None, SMask(self.n, lambda k: z3.BoolVal(True))), v); self.e = v.e
        else:
            x = num(v)
            if x is None: raise Unsupported('value written into an array')
            self.e = z3.ToReal(x) if x.is_int() else x
    def __getitem__(self, s): return self.take(s)
    def __setitem__(self, s, v): self.put(s, v)
    def _b(self, o, f):
        if isinstance(o, FArr): ctx().prove('arrays of one length', intexpr(o.n) == intexpr(self.n)); return FArr(self.n, f(self.e, o.e), self.k0)
        e = num(o)
        if e is None: raise Unsupported('operation on an array')
        return FArr(self.n, f(self.e, z3.ToReal(e) if e.is_int() else e), self.k0)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __neg__(self): return FArr(self.n, -self.e, self.k0)
    def __bool__(self): raise Unsupported('truth of an array')
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of an array' % k)
    def __repr__(self): return '<%s>' % self.name


class FSnap(object):
    def __init__(self, e, n): self.e = e; self.n = n
    def _same_(self, o):
        if z3.eq(self.e, o.e) and z3.eq(intexpr(self.n), intexpr(o.n)): return True
        return z3.And(self.e == o.e, intexpr(self.n) == intexpr(o.n))


class Flat(Sym):
    def __init__(self, a): self.a = a
    def __getitem__(self, s): return self.a.take(s)
    def __setitem__(self, s, v): self.a.put(s, v)
    @property
    def size(self): return self.a.n
    def _len_(self): return self.a.n
    def copy(self): return self.a.copy()


def set_flat(a, v): a.assign_all(v)
FArr.flat = property(lambda self: Flat(self), lambda self, v: (setattr(self, 'version', self.version + 1), self.assign_all(v))[0])


class Vec(Sym):
    """a vector handed in by the caller (an optimizer vector): one element per free entry.  free: predicate; e: the element belonging to k0.
    Its meaning at another selection is given only if that selection is the free entries."""
    def __init__(self, n, free, e, name='vector'): self.n = n; self.free = free; self.e = e; self.name = name
    def at(self, sel):
        k = z3.Int(ctx().name('k'))
        ctx().prove('the vector is spread over exactly the free entries', sel.dom(k) == self.free(k))
        return self.e
    @property
    def size(self): return self.n
    def _m(self, o):
        b = num(o)
        if b is None: raise Unsupported('operation on a vector')
        return Vec(self.n, self.free, self.e * (z3.ToReal(b) if b.is_int() else b), self.name)
    __mul__ = __rmul__ = _m
    def copy(self): return Vec(self.n, self.free, self.e, self.name)
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of a vector' % k)


# ---------------------------------------------------------------------------------------------------------------
# numpy functions

def union1d(a, b):
    a, b = SIdx.of(a), SIdx.of(b); m, n = a.m, b.m
    return SIdx(lambda k: z3.Or(m(k), n(k)), True, a._irr_ or b._irr_ and a._irr_)


def setdiff1d(a, b, assume_unique=False):
    a, b = SIdx.of(a), SIdx.of(b); m, n = a.m, b.m
    # with assume_unique the first argument is only filtered
    return SIdx(lambda k: z3.And(m(k), z3.Not(n(k))), a.sorted or not assume_unique, a._irr_)


def intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices: return NotImplemented
    a, b = SIdx.of(a), SIdx.of(b); m, n = a.m, b.m
    if assume_unique and not (a.sorted and b.sorted): raise Unsupported('intersect1d of arrays that may repeat')
    return SIdx(lambda k: z3.And(m(k), n(k)), True, a._irr_)


def size(x): return x.size
def array(x, *a, **k):
    vals.keeps(vals.kinds_of(x) if isinstance(x, Sym) else vals.INTS, a, k)
    if isinstance(x, SIdx): return SIdx(x.m, x.sorted, x._irr_, x._card)
    if isinstance(x, FArr): return x.copy()
    if isinstance(x, (Sel, SMask)): return x.copy()
    return SIdx.of(x)
def asarray(x, *a, **k):
    vals.keeps(vals.kinds_of(x), a, k); return x


def atleast_1d(x): return x


def all_same(close):
    'array_equal, allclose: if true the lengths are equal and so are the elements at every place, also at k0'
    def f(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        from . import elem
        a, b = [x.a if isinstance(x, Flat) else x for x in (a, b)]
        if isinstance(b, FArr) and not isinstance(a, FArr) and not close: a, b = b, a
        if not isinstance(a, FArr): return NotImplemented
        c = ctx(); n = intexpr(a.n); inside = z3.And(a.k0 >= 0, a.k0 < n)
        if isinstance(b, FArr): e = b.e; eqn = intexpr(b.n) == n
        elif isinstance(b, Vec):
            # a vector has an element for every place only if every place is free
            k = z3.Int(c.name('k'))
            if not c.entails(z3.Implies(z3.And(k >= 0, k < n), b.free(k))): return NotImplemented
            e = b.e; eqn = z3.BoolVal(True)
        else: return NotImplemented
        r = vals.fresh_bool('arrays are equal')
        c.assume(z3.Implies(r.e, z3.And(eqn, z3.Implies(inside, elem.near(a.e, e, rtol, atol) if close else a.e == e))))
        return r
    return f


def put(a, i, v, mode='raise'):
    if not isinstance(a, FArr): return NotImplemented
    a.put(i if not isinstance(i, Sym) or isinstance(i, (SIdx, SMask)) else i, v)


class Ones(Sym):
    'an array of ones or zeros which are not truth values: all one can do is make it one'
    def __init__(self, m): self.m_ = m
    def _snap_(self): return self.m_._snap_()
    def astype(self, *a, **k): vals.keeps(vals.BOOLS[1:], a, k); return self.m_.copy()


def ones(n, dtype=float, **k):
    n = n[0] if isinstance(n, tuple) and len(n) == 1 else n
    m = SMask(n, lambda k: z3.BoolVal(True))
    if dtype in (bool, np.bool_): return m
    return Ones(m) if dtype in (int, float) else NotImplemented


def zeros(n, dtype=float, **k):
    if dtype is not bool: return NotImplemented
    n = n[0] if isinstance(n, tuple) and len(n) == 1 else n
    return SMask(n, lambda k: z3.BoolVal(False))


def empty(n, dtype=float, **k):
    c = ctx(); n = n[0] if isinstance(n, tuple) and len(n) == 1 else n
    if 'k0' not in c.ghost: return NotImplemented
    return FArr(n, z3.Real(c.name('uninitialised')), c.ghost['k0'].e, 'new array')


def r_(s):
    n = intexpr(s.stop); lo = intexpr(s.start or 0)
    if s.step is not None: raise Unsupported('r_')
    r = SIdx(lambda k: z3.And(k >= lo, k < n), True, card=SNum(n) - SNum(lo) if s.start else SNum(n))
    if not s.start: r.iota = SNum(n)
    return r


FN = dict(union1d=union1d, setdiff1d=setdiff1d, intersect1d=intersect1d, size=size, array=array, asarray=asarray, atleast_1d=atleast_1d, put=put, ones=ones, zeros=zeros, empty=empty, r_=r_,
          all=lambda m, **k: m.all(), any=lambda m, **k: m.any(), copy=lambda x: x.copy(), int_=array, arange=lambda n: r_(slice(0, n)), setdiff=None, flatnonzero=lambda m: mask_idx(m), sum=lambda m: m.sum(), array_equal=all_same(False), allclose=all_same(True))
del FN['setdiff']


def mask_idx(m):
    n = intexpr(m.n); p = m.p
    return SIdx(lambda k: z3.And(k >= 0, k < n, p(k)), True)


def install(): shim.FUNCS.update(FN)
