"""The property table seen through witness keys.  PDict: the dictionary inside ParameterIndexOperations; Table: a table through the
contracts of its methods (what C03 proves of ParameterIndexOperations and C04 of its views)."""
import z3
from . import rt, vals, shim, index
from .rt import Irr, Unsupported, ctx
from .shim import WSeq
from .vals import Sym, SNum, SObj, Opaque, fresh_int, num
from .index import SIdx


def none(): return SIdx(lambda k: z3.BoolVal(False), True)


def other_pair():
    i = SIdx.symbol('other', irr=True)
    ctx().assume(i.card().e > 0)
    return rt.IrrTuple((Opaque('another property', irr=True), i))


def others(totals=None):
    if totals is None: totals = fresh_int('total'); ctx().assume(totals.e >= 0)
    return Irr(other_pair, dict(size=lambda p: p[1].size), dict(size=totals), 'the other properties')


class PDict(Sym):
    def __init__(self, entries):
        self.e = list(entries)           # [key, SIdx or None]
        ctx().tracked.append(self)
    def _snap_(self): return [[k, None if i is None else i._snap_()] for k, i in self.e]
    def _w(self, key):
        for x in self.e:
            if x[0] is key: return x
        return None
    def __getitem__(self, key):
        x = self._w(key)
        if x is None:
            if isinstance(key, Opaque) and key._irr_: return SIdx.symbol('other', irr=True)
            raise Unsupported('property %r' % (key,))
        if x[1] is None: x[1] = none()   # a defaultdict of empty arrays
        return x[1]
    def get(self, key, default=None):
        x = self._w(key)
        if x is None: raise Unsupported('property %r' % (key,))
        return default if x[1] is None else x[1]
    def __setitem__(self, key, v):
        x = self._w(key)
        if x is None:
            if isinstance(key, Opaque) and key._irr_: return
            raise Unsupported('property %r' % (key,))
        x[1] = SIdx.of(v) if not isinstance(v, SIdx) else v
    def __delitem__(self, key):
        x = self._w(key)
        if x is None:
            if isinstance(key, Opaque) and key._irr_: return
            raise Unsupported('property %r' % (key,))
        if x[1] is None: raise KeyError(key)
        x[1] = None
    def pop(self, key, *d):
        x = self._w(key)
        if x is None: raise Unsupported('property %r' % (key,))
        r = x[1]
        if r is None:
            if d: return d[0]
            raise KeyError(key)
        x[1] = None; return r
    def __contains__(self, key):
        x = self._w(key)
        if x is None:
            if isinstance(key, Opaque) and key._irr_: return bool(ctx().choose(2, 'other property present'))
            raise Unsupported('property %r' % (key,))
        return x[1] is not None
    def clear(self):
        for x in self.e: x[1] = None
    def update(self, other=(), **kw):
        if kw or not isinstance(other, PDict): raise Unsupported('update of a table from %r' % (other,))
        for k, i in list(other.e):
            if i is not None: self[k] = i
    def setdefault(self, key, d=None):
        if key not in self: self[key] = d
        return self[key]
    def _pairs(self):
        out = [Irr(lambda: rt.IrrTuple((Opaque('another property', irr=True), SIdx.symbol('other', irr=True))), label='the other properties')]
        for k, i in self.e:
            if i is not None: out += [(k, i), out[0]]
        return WSeq(out)
    def items(self): return self._pairs()
    def _iter_(self): return [x[0] if not isinstance(x, Irr) else Irr(lambda: Opaque('another property', irr=True), label=x.label) for x in self._pairs()]
    def keys(self): return WSeq(self._iter_())
    def values(self): return WSeq([x[1] if not isinstance(x, Irr) else Irr(lambda: SIdx.symbol('other', irr=True), label=x.label) for x in self._pairs()])
    def __repr__(self): return '<table>'


def items_contract(entries, totals=None):
    """the contract of items(): every property with its positions, those without positions not; entries: [(key, SIdx or None)]"""
    out = [others(totals[0] if totals else None)]
    for j, (k, i) in enumerate(entries):
        if i is not None and (i.size > 0): out += [(k, i), others(totals[j + 1] if totals else None)]
    return WSeq(out)


class Table(object):
    """what a table (or a view of one) does according to its contracts, for the witness keys; other keys are irrelevant.
    sets: [key, SIdx]"""
    @staticmethod
    def make(name, cls, entries, extra=None, lo=None, hi=None):
        E = [[k, i if i is not None else none()] for k, i in entries]
        def find(key):
            for x in E:
                if x[0] is key: return x
            if isinstance(key, Opaque) and key._irr_: return None
            if isinstance(key, Opaque) or isinstance(key, str): raise Unsupported('property %r' % (key,))
            raise Unsupported('property %r' % (key,))
        def subj(o, x): return o if x is not None else Opaque('another property', irr=True)
        def add(o, key, idx):
            x = find(key); i = SIdx.of(idx)
            if lo is not None: inside(i, lo, hi)
            ctx().event('add', subj(o, x), key, i)
            if x is not None: x[1] = index.union1d(x[1], i)
        def remove(o, key, idx):
            x = find(key); i = SIdx.of(idx)
            if lo is not None: inside(i, lo, hi)
            ctx().event('remove', subj(o, x), key, i)
            if x is None: return SIdx.symbol('removed', irr=True)
            old = x[1]; x[1] = index.setdiff1d(old, i); return index.intersect1d(old, i)
        def getitem(o, key):
            x = find(key)
            return SIdx.symbol('other', irr=True) if x is None else SIdx(x[1].m, x[1].sorted, card=x[1].card())
        def delitem(o, key):
            x = find(key); ctx().event('del', subj(o, x), key)
            if x is not None: x[1] = none()
        def items(o): return items_contract([(k, SIdx(i.m, i.sorted, card=i.card())) for k, i in E])
        def properties(o): return WSeq([x if isinstance(x, Irr) and 0 else (Irr(lambda: Opaque('another property', irr=True), label=x.label) if isinstance(x, Irr) else x[0]) for x in items(o)])
        def indices(o): return WSeq([Irr(lambda: SIdx.symbol('other', irr=True), label=x.label) if isinstance(x, Irr) else x[1] for x in items(o)])
        def clear(o):
            ctx().event('clear', o)
            for x in E: x[1] = none()
        def shift(sign):
            def f(o, start, size): ctx().event('right' if sign > 0 else 'left', o, start, size)
            return f
        def update(o, other, offset=0): ctx().event('update', o, other, offset)
        con = dict(add=add, remove=remove, __getitem__=getitem, __delitem__=delitem, items=items, properties=properties, indices=indices, clear=clear, shift_right=shift(1), shift_left=shift(-1), update=update)
        con.update(extra or {})
        o = SObj(name, cls, contracts=con)
        o.__dict__['_sets'] = E
        old = o._snap_
        return o
    @staticmethod
    def set(o, key):
        for k, i in o.__dict__['_sets']:
            if k is key: return i
        raise KeyError(key)


class SetsOf(object):
    'makes the sets of a Table part of the tracked state'
    def __init__(self, o): self.o = o
    def _snap_(self): return [[k, i._snap_()] for k, i in self.o.__dict__['_sets']]


def inside(i, lo, hi):
    k = z3.Int(ctx().name('k'))
    ctx().prove('positions handed on are inside the range', z3.Implies(i.m(k), z3.And(k >= lo, k < hi)))


def eq_sets(i, f):
    'index set i is exactly the set f'
    k = z3.Int(ctx().name('k'))
    return i.m(k) == f(k)
