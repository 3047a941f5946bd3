"""Lists of children with witnesses and segments of any number of others; chains of ancestors."""
import z3
from . import rt, vals, shim
from .rt import Irr, Unsupported, ctx
from .vals import Sym, SNum, num, fresh_int
from .shim import WSeq


def segment(make, n=None, size=None, label='the other children'):
    'any number n of children with sizes adding up to size'
    c = ctx()
    if n is None: n = fresh_int('count'); c.assume(n.e >= 0)
    if size is None: size = fresh_int('sizes'); c.assume(size.e >= 0)
    c.assume(z3.Implies(n.e == 0, size.e == 0))
    return Irr(make, dict(size=lambda e: e.size, count=lambda e: 1), dict(size=size, count=n), label)


class PList(Sym):
    'parameters of a node: witnesses (fake objects) and segments'
    _irr_ = False
    def __init__(self, parts): self.parts = list(parts); self.n = 0; ctx().tracked.append(self)
    def _snap_(self):
        out = []
        for x in self.parts:
            if not isinstance(x, Irr): out.append(x)
            elif not out or out[-1] != '...': out.append('...')
        return out
    def _iter_(self): return list(self.parts)
    def _len(self, parts):
        n = 0
        for x in parts: n = n + (x.totals['count'] if isinstance(x, Irr) else 1)
        return n
    def _len_(self): return self._len(self.parts)
    __len__ = _len_
    def size(self, parts=None):
        n = 0
        for x in (self.parts if parts is None else parts): n = n + (x.totals['size'] if isinstance(x, Irr) else x.size)
        return n
    def place(self, x): return [i for i, y in enumerate(self.parts) if y is x]
    def position(self, x):
        i, = self.place(x)
        return self._len(self.parts[:i])
    def offset(self, x):
        i, = self.place(x)
        return self.size(self.parts[:i])
    def __contains__(self, x):
        if not isinstance(x, Sym): raise Unsupported('membership of %r' % (x,))
        if rt.irrelevant(x): raise Unsupported('membership of an arbitrary element')
        return bool(self.place(x))
    def index(self, x):
        if self.place(x): return self.position(x)
        raise ValueError('not in list')
    def _split(self, i):
        'make position i (as in list.insert) a border between two parts, return where'
        c = ctx(); n = num(self._len_()); i = num(i)
        if i is None: raise Unsupported('position in a list')
        if c.decide(i < 0):
            i = i + n
            if c.decide(i < 0): i = z3.IntVal(0)
        if c.decide(i >= n): return len(self.parts)
        pos = z3.IntVal(0)
        for k, x in enumerate(self.parts):
            if c.decide(i == pos): return k
            if isinstance(x, Irr):
                m = num(x.totals['count'])
                if c.decide(i < pos + m):
                    a, s = SNum(z3.simplify(i - pos)), fresh_int('sizes')
                    c.assume(z3.And(s.e >= 0, s.e <= num(x.totals['size'])))
                    self.parts[k:k + 1] = [segment(x.make, a, s, x.label), segment(x.make, x.totals['count'] - a, x.totals['size'] - s, x.label)]
                    return k + 1
                pos = pos + m
            else: pos = pos + 1
        return len(self.parts)
    def insert(self, i, x):
        self.parts.insert(self._split(i), x)
    def append(self, x): self.parts.append(x)
    def extend(self, xs): self.parts.extend(xs)
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None: raise Unsupported('step in a slice')
            b = len(self.parts) if i.stop is None else self._split(i.stop)
            n = len(self.parts)
            a = 0 if i.start is None else self._split(i.start)
            if i.stop is not None and i.start is not None and len(self.parts) > n: b += 1
            return PSlice(self.parts[a:b])
        return self._at(i)[1]
    def _at(self, i):
        c = ctx(); k = self._split(i)
        if k >= len(self.parts): raise IndexError('list index out of range')
        if isinstance(i, int) and i < 0 or c.decide(num(i) < 0): 
            if c.decide(num(i) + num(self._len_()) < 0): raise IndexError('list index out of range')
        while isinstance(self.parts[k], Irr):
            if not c.decide(num(self.parts[k].totals['count']) == 0):
                el = self.parts[k].make()
                return None, el
            k += 1
            if k >= len(self.parts): raise IndexError('list index out of range')
        return k, self.parts[k]
    def __delitem__(self, i):
        k, x = self._at(i)
        if k is None: raise Unsupported('removal of an arbitrary element')
        del self.parts[k]
    def pop(self, i=-1): x = self[i]; del self[i]; return x
    def remove(self, x):
        if not self.place(x): raise ValueError('not in list')
        del self.parts[self.place(x)[0]]
    def __repr__(self): return '<children %s>' % self.parts


class PSlice(PList):
    def __init__(self, parts): self.parts = list(parts)


def _truth(self): return ctx().decide(num(self._len_()) != 0)
PList.__bool__ = _truth


class Chain(Sym):
    "any number of ancestors nothing is claimed about; behind them comes `next`"
    __slots__ = ('make', 'next')
    _irr_ = False
    def __init__(self, make, next_): self.make = make; self.next = next_
    def __getattr__(self, k): raise Unsupported('attribute %s of an ancestor outside a loop' % k)
    def _is_(self, o):
        if o is None:
            if self.next is not None: return False
            return bool(ctx().choose(2, 'ancestors'))
        return NotImplemented


class Back(Sym):
    'the next ancestor of an arbitrary one'
    __slots__ = ('el', 'state', 'others')
    def __init__(self, el): self.el = el
    def __getattr__(self, k):
        if k in ('state', 'others'): raise AttributeError(k)
        raise Unsupported('attribute %s of an ancestor outside a loop' % k)


def st_counted(c): return {(k[0][1], k[1]) for k in c.session.hyp if isinstance(k[0], tuple) and k[0][0] == 'chain'}
def nat(n):
    x = fresh_int(n); ctx().assume(x.e >= 0); return x


def chain_step(names, loc):
    """the loop rule over a chain of ancestors: the body is executed once for an arbitrary one, which has to leave everything
    tracked alone; returns new values of locals or None"""
    c = ctx(); new = {}
    for k in names:
        v = loc.get(k)
        if isinstance(v, Back):
            st, tr, loc0 = v.state
            for o, s in st:
                ok = rt.same(s, rt.snap(o))
                if ok is not True: c.prove('frame: an ancestor leaves everything else alone', ok if ok is not False else z3.BoolVal(False), object=repr(o)[:200])
            for ev in c.trace[tr:]: c.prove('frame: an ancestor causes events only about itself', rt.irrelevant(ev[1]), event=ev)
            for n, s in loc0.items():
                if n in loc and isinstance(s, (int, SNum)) and not isinstance(s, bool) and isinstance(loc[n], (int, SNum)) and c.entails(num(loc[n]) == num(s) + 1):
                    if (tuple(names), n) in st_counted(c): continue
                    c.session.hyp[('chain', tuple(names)), n] = 'count'
                    raise rt.Restart()
                if (tuple(names), n) in st_counted(c): raise Unsupported('local %s of a loop over the ancestors' % n)
                if n not in loc or rt.same(s, rt.snap(loc[n])) is not True: raise Unsupported('local %s changed by a loop over the ancestors' % n)
            raise rt.PathDone()
        while isinstance(v, Chain):
            if c.choose(2, 'ancestor') == 0:
                el = v.make(); b = Back(el); el.__dict__['_f']['_parent_'] = b
                for n in names:
                    # a local that counts the ancestors
                    if n != k and n in loc and (tuple(names), n) in st_counted(c): new[n] = new.get(n, loc[n]) + nat('passed')
                b.state = ([(o, rt.snap(o)) for o in c.tracked], len(c.trace), {n: rt.snap(new.get(n, loc[n])) for n in names if n != k and n in loc} | {n: rt.snap(x) for n, x in loc.items() if n not in names and n != k and not n.startswith('__') and rt.inplace(x, c)})
                v = el
            else:
                v = v.next
                for n in names:
                    if n != k and n in loc and (tuple(names), n) in st_counted(c): new[n] = new.get(n, loc[n]) + nat('ancestors')
            new[k] = v
    return new
rt.CHAIN_STEP = chain_step


class Tab(Sym):
    'a table of one kind, seen at any position: at(p) tells whether the property is there'
    _irr_ = False
    def __init__(self, name, at, probe=None):
        self.name = name; self.at = at; self.probe = probe
        if probe is not None: ctx().tracked.append(self)
    def _snap_(self): return vals.SBool(self.at(self.probe))
    def shift_right(self, start, size):
        f, s, n = self.at, num(start), num(size)
        self.at = lambda p: z3.If(p < s, f(p), z3.And(p >= s + n, f(p - n)))
    def shift_left(self, start, size):
        f, s, n = self.at, num(start), num(size)
        self.at = lambda p: z3.If(p < s, f(p), f(p + n))
    def update(self, other, offset=0):
        if not isinstance(other, Tab): raise Unsupported('update from %r' % (other,))
        f, g, o = self.at, other.at, num(offset)
        self.at = lambda p: z3.Or(f(p), z3.And(p >= o, g(p - o)))
    def copy(self): return Tab(self.name + "'", self.at)
    def clear(self): self.at = lambda p: z3.BoolVal(False)
    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)
        raise Unsupported('%s of a table' % k)
    def __repr__(self): return '<table %s>' % self.name


class Window(Tab):
    'the part [off, off+size) of another table'
    def __init__(self, name, root, off, size):
        self.name = name; self.root = root; self.off = num(off); self.n = num(size); self.probe = None
    def _get(self):
        r = self.root.at
        return lambda p: z3.And(p >= 0, p < self.n, r(p + self.off))
    at = property(_get)
    def clear(self):
        f = self.root.at
        self.root.at = lambda p: z3.And(f(p), z3.Not(z3.And(p >= self.off, p < self.off + self.n)))
    def copy(self): return Tab(self.name + "'", self.at)
    def _no(self, *a): raise Unsupported('change through a window')
    shift_right = shift_left = update = _no


class Kinds(Sym):
    'a dictionary from kinds of annotation to tables: one kind is followed, any number of others are not'
    _irr_ = False
    def __init__(self, kind, table, irr):
        self.kind = kind; self.d = {kind: table}; self.irr = irr; ctx().tracked.append(self)
    def _snap_(self): return [id(self.d.get(self.kind))]
    def _iter_(self):
        mk = lambda: self._pair()[0]
        return [Irr(mk, label='the other kinds'), self.kind, Irr(mk, label='the other kinds')]
    def _pair(self):
        n = Kind('another kind'); n.here = True
        return n, self.irr()
    def items(self):
        seg = lambda: Irr(lambda: rt.IrrTuple(self._pair()), label='the other kinds')
        return WSeq([seg()] + ([(self.kind, self.d[self.kind])] if self.kind in self.d else []) + [seg()])
    def keys(self): return WSeq(self._iter_())
    def values(self):
        seg = lambda: Irr(self.irr, label='the other kinds')
        return WSeq([seg()] + ([self.d[self.kind]] if self.kind in self.d else []) + [seg()])
    def _key(self, k):
        'the kind followed, if that is its name'
        return self.kind if isinstance(k, str) and isinstance(self.kind, KindName) and self.kind == k else k
    def __getitem__(self, k):
        k = self._key(k)
        if isinstance(k, str) and isinstance(self.kind, KindName): return self.irr()
        return self.d[k] if not isinstance(k, Kind) else self.irr()
    def __setitem__(self, k, v):
        k = self._key(k)
        if isinstance(k, str) and isinstance(self.kind, KindName): return
        if isinstance(k, Kind): k.here = True
        else: self.d[k] = v
    def __delitem__(self, k):
        k = self._key(k)
        if isinstance(k, str) and isinstance(self.kind, KindName): return
        if isinstance(k, Kind): k.here = False
        else: del self.d[k]
    def __contains__(self, k):
        k = self._key(k)
        if isinstance(k, str) and isinstance(self.kind, KindName): raise Unsupported('is there a kind %r' % k)
        return k.here if isinstance(k, Kind) else k in self.d
    def _len_(self): raise Unsupported('number of kinds')


class KindName(Sym):
    'the name of a kind of annotation, which can be any'
    _irr_ = False
    def __eq__(self, o):
        if o is self: return True
        if not isinstance(o, str): return False
        m = ctx().__dict__.setdefault('_kind_names', {})
        if id(self) in m: return m[id(self)] == o
        if (id(self), o) not in m:
            m[(id(self), o)] = bool(ctx().choose(2, 'the kind is called %s' % o))
            if m[(id(self), o)]: m[id(self)] = o
        return m[(id(self), o)]
    def __ne__(self, o): return not self == o
    def _is_(self, o): return self == o
    def __hash__(self): return id(self)
    def __repr__(self): return '<kind>'
    def __getattr__(self, k):
        if k.startswith('__') or k in ('_same_', '_snap_', '_copy_'): raise AttributeError(k)
        raise Unsupported('name of a kind: ' + k)


class Kind(Sym):
    __slots__ = ('name', 'here', 'called')
    _irr_ = True
    def __init__(self, name): self.name = name; self.called = {}
    def __eq__(self, o):
        if isinstance(o, str):
            if o not in self.called: self.called[o] = not any(self.called.values()) and bool(ctx().choose(2, 'another kind is called %s' % o))
            return self.called[o]
        return self is o
    def __ne__(self, o): return not self == o
    def __hash__(self): return id(self)
    def __repr__(self): return '<%s>' % self.name


class Mem(Sym):
    'a block of memory of numbers, followed at some positions'
    _irr_ = False
    def __init__(self, name, follow=()):
        self.name = name; self.cells = []
        for p in follow: self.follow(p)
        ctx().tracked.append(self)
    def _snap_(self): return [v for p, v in self.cells]
    def follow(self, p, v=None):
        self.cells.append((z3.simplify(num(p)), v if v is not None else vals.fresh_real('cell'))); return self.cells[-1][1]
    def read(self, p):
        c = ctx()
        for q, v in self.cells:
            if c.entails(q == p): return v
        return vals.fresh_real('unknown')
    def write(self, lo, hi, src):
        c = ctx()
        for i, (p, v) in enumerate(self.cells):
            if c.decide(z3.And(lo <= p, p < hi)): self.cells[i] = (p, src(z3.simplify(p - lo)))
    def __repr__(self): return '<memory %s>' % self.name


class Arr(Sym):
    'an array of n numbers in a block of memory'
    _irr_ = False
    def __init__(self, mem, off, n, irr=False):
        self.mem = mem; self.off = z3.simplify(num(off)); self.n = n; self._irr_ = irr
        if not irr: ctx().tracked.append(self)
    def _snap_(self): return [id(self.mem), SNum(self.off)]
    def _isinstance_(self, k):
        import numpy
        if k is numpy.ndarray or k is object: return True
        raise Unsupported('isinstance of an array')
    @property
    def ndim(self):
        'the array of a parameter has any number of dimensions, that of a node one'
        if getattr(self, '_nd', None) is None:
            from . import vals
            self._nd = vals.fresh_int('ndim'); ctx().assume(self._nd.e >= 1)
        return self._nd
    @property
    def size(self): return self.n
    @property
    def flags(self): return Flags()
    @property
    def flat(self): return Flat(self)
    def ravel(self, *a): return Flat(self)
    @property
    def data(self): return Data(self.mem, self.off)
    @data.setter
    def data(self, d):
        if not isinstance(d, Data): raise Unsupported('data of an array')
        self.mem = d.mem; self.off = d.off
    def _range(self, s):
        if not isinstance(s, slice) or s.step is not None: raise Unsupported('index of an array')
        c = ctx(); a = num(s.start if s.start is not None else 0); b = num(s.stop if s.stop is not None else self.n)
        if not c.entails(z3.And(a >= 0, a <= b, b <= num(self.n))): raise Unsupported('slice that may leave the array')
        return a, b
    def __getitem__(self, s):
        if s is Ellipsis: s = slice(None)
        a, b = self._range(s)
        return Arr(self.mem, self.off + a, SNum(z3.simplify(b - a)), True)
    def __setitem__(self, s, v):
        if s is Ellipsis: s = slice(None)
        a, b = self._range(s)
        if isinstance(v, Arr): v = Flat(v)
        if not isinstance(v, Flat): raise Unsupported('assignment to an array')
        ctx().prove('arrays copied onto each other have the same size', b - a == num(v.a.n))
        src = v.a; self.mem.write(self.off + a, self.off + b, lambda k, m=src.mem, o=src.off: m.read(o + k))
    def at(self, k): return self.mem.read(self.off + num(k))
    def __repr__(self): return '<array of %s>' % self.mem


class Flat(Sym):
    def __init__(self, a): self.a = a
class Data(Sym):
    def __init__(self, mem, off): self.mem = mem; self.off = off
class Flags(Sym):
    def __getitem__(self, k):
        if k == 'C_CONTIGUOUS': return True
        raise Unsupported('flag')
