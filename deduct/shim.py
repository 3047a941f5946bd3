"""What symbolic values mean to builtin functions, numpy and the instrumented constructs; ordinary values go to the originals."""
import builtins, functools as _functools, copy as _copy, importlib, weakref as _weakref
import numpy as np
import z3
from . import rt, vals
from .rt import Irr, Loop, ConcreteLoop, NoLoop, While, Unsupported, PathDone, ctx, Poison
from . import text
from .vals import Sym, SBool, SNum, SObj, Opaque, Bound, is_sym, num, bexpr, MISSING

WHILE = {}                                # site function name -> invariant factory, set by contracts


def deep_sym(x, depth=2):
    if isinstance(x, (Sym, Irr)): return True
    if depth and isinstance(x, (list, tuple)): return any(deep_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict): return any(deep_sym(y, depth - 1) for y in x.values())
    return False


def seq_of(x):
    'the entries of something iterable for the loop rule, or None if it is an ordinary iterable'
    m = getattr(type(x), '_iter_', None)
    if m is not None: return m(x)
    if rt.has_irr(x): return list(x)
    if isinstance(x, SObj):
        d = x.__dict__
        if '__iter__' in d['_c']: return list(d['_c']['__iter__'](x))
        raise Unsupported('iteration over %r without a contract' % x)
    return None


class PDClass(object):
    def loop(self, it, site, names):
        s = seq_of(it)
        if s is None:
            if isinstance(it, Sym): raise Unsupported('iteration over %r' % (it,))
            return ConcreteLoop(it)
        return Loop(s, site, names)
    def wloop(self, site, names):
        f = site.split(':')[1].split('.')[-1]
        inv = WHILE.get(f)
        return NoLoop(names) if inv is None else While(inv(), site, names)
    def eq_(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (rt.has_irr(a) or rt.has_irr(b)): return seq_eq(a, b)
        return a == b
    def ne_(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (rt.has_irr(a) or rt.has_irr(b)): return not seq_eq(a, b)
        return a != b
    def in_(self, a, b):
        if type(b) in (list, tuple, WSeq, STuple) and rt.has_irr(b) and not any(a is x for x in b):
            raise Unsupported('membership in a sequence of unknown length')
        return a in b
    def is_(self, a, b):
        if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool): return a == b
        m = getattr(type(a), '_is_', None)
        if m is not None and b is not a:
            r = m(a, b)
            if r is not NotImplemented: return r
        m = getattr(type(b), '_is_', None)
        if m is not None and b is not a:
            r = m(b, a)
            if r is not NotImplemented: return r
        return a is b
    def b(self, x):
        'a condition: a list of nothing but unknown segments may be empty'
        if type(x) in (list, WSeq, GenList) and x and all(isinstance(e, Irr) for e in x):
            c = ctx(); n = None
            if all('count' in e.totals for e in x):
                n = 0
                for e in x: n = n + e.totals['count']
            if c.decide(num(n) == 0) if n is not None else c.choose(2, 'empty'): x.clear()
        return x
    def format(self, s, *a, **k):
        if any(isinstance(x, text.SStr) for x in list(a) + list(k.values())): return text.template('{}' if not k else None, s, a)
        return '<text>' if deep_sym(a) or deep_sym(k) else s.format(*a, **k)
    def join(self, s, x):
        q = seq_of(x)
        if q is None and not deep_sym(x):
            x = list(x) if not isinstance(x, (list, tuple)) else x
            if not deep_sym(x): return s.join(x)
            q = list(x)
        if s != '': raise Unsupported('join with a separator')
        return SText(list(x) if q is None else q)
    def fmt(self, s, x):
        a = x if isinstance(x, tuple) else (x,)
        if any(isinstance(y, text.SStr) for y in a):
            if '%d' in s and '%%' not in s:
                parts = s.replace('%d', '%s').split('%s'); kinds = []; rest = s[len(parts[0]):]
                for p in parts[1:]: kinds.append(rest[:2]); rest = rest[2 + len(p):]
                if len(kinds) == len(a) and all(k == '%s' or (isinstance(y, SNum) and not isinstance(y, SBool) and y.e.is_int()) for k, y in zip(kinds, a)): s = s.replace('%d', '%s')
            return text.template('%s', s, a)
        return '<text>' if deep_sym(x) else s % x
    def dict_(self, x):
        if isinstance(x, SObj): return x._shadow()['_c']['__dict__'] if '__dict__' in x._shadow()['_c'] else ObjDict(x)
        return x.__dict__
    def attr_(self, x, k):
        if type(x) is SObj: return x._lookup(k)
        return getattr(x, k)
    def class_(self, x):
        if isinstance(x, SObj):
            if x._shadow()['_cls'] is None: raise Unsupported('class of %r' % x)
            return x._shadow()['_cls']
        return x.__class__
    def super_(self, cls, self_):
        if isinstance(self_, SObj): return SuperProxy(cls, self_)
        return super(cls, self_)
    def intern(self, x):
        m = getattr(type(x), '_intern_', None)
        if m is not None: return m(x)
        import sys
        return sys.intern(x)
    def module(self, name):
        if name == 'numpy': return NP
        if name in MODULES: return MODULES[name]
        return importlib.import_module(name)
    def inner(self, it):
        if seq_of(it) is not None or isinstance(it, Sym): raise Unsupported('nested comprehension over a symbolic collection')
        return it
    def _comp(self, fn, it, site, plain=False):
        s = seq_of(it)
        if s is None:
            if isinstance(it, Sym): raise Unsupported('comprehension over %r' % (it,))
            return None
        c = ctx(); out = []
        for item in s:
            if isinstance(item, rt.At): item.enter(); item = item.x
            if isinstance(item, Irr):
                if c.choose(2, site) == 0:
                    el = item.make()
                    tr = len(c.trace); st = [(o, rt.snap(o)) for o in c.tracked]; gh = rt.snap(c.ghost)
                    list(fn([el]))
                    for o, sn in st + [(c.ghost, gh)]:
                        ok = rt.same(sn, rt.snap(o))
                        if ok is not True: c.prove('frame: an element of %s leaves everything else alone' % item.label, ok if ok is not False else z3.BoolVal(False), object=repr(o)[:200], site=site)
                    for ev in c.trace[tr:]:
                        c.prove('frame: an element of %s causes events only about itself' % item.label, rt.irrelevant(ev[1]), event=ev, site=site)
                    raise PathDone()
                out.append(IrrMap(fn, item, plain))
            else: out.extend(fn([item]))
        return out
    def listcomp(self, fn, it, site, plain=False):
        m = getattr(type(it), '_filter_', None)
        if m is not None: return m(it, fn, site)
        r = self._comp(fn, it, site, plain)
        if r is not None and ctx().ghost.get('index'): return Indexed(r)
        return fn(it) if r is None else WSeq(r) if rt.has_irr(r) else r
    def genexp(self, fn, it, site, plain=False):
        r = self._comp(fn, it, site, plain)
        return fn(it) if r is None else GenList(r)
    def setcomp(self, fn, it, site, plain=False):
        r = self._comp(lambda x: fn(x), it, site)
        if r is None: return fn(it)
        raise Unsupported('set comprehension over a symbolic collection')
    def dictcomp(self, fn, it, site, plain=False):
        s = seq_of(it)
        if s is None: return fn(it)
        raise Unsupported('dict comprehension over a symbolic collection')
PD = PDClass()


class ObjDict(object):
    'the attribute dictionary of a fake object'
    def __init__(self, o): self.o = o
    def _known(self, k):
        d = self.o._shadow()
        if k in d['_f']: return True
        if k in d['_absent']: return False
        raise Unsupported('__dict__[%r] of %r' % (k, self.o))
    def get(self, k, default=None): return self.o._shadow()['_f'][k] if self._known(k) else default
    def __getitem__(self, k):
        if self._known(k): return self.o._shadow()['_f'][k]
        raise KeyError(k)
    def __contains__(self, k): return self._known(k)
    def __setitem__(self, k, v): d = self.o._shadow(); d['_f'][k] = v; d['_absent'].discard(k)
    def __delitem__(self, k):
        if not self._known(k): raise KeyError(k)
        d = self.o._shadow(); del d['_f'][k]; d['_absent'].add(k)
    def pop(self, k, *a):
        if self._known(k): v = self[k]; del self[k]; return v
        if a: return a[0]
        raise KeyError(k)
    def __getattr__(self, k): raise Unsupported('__dict__.%s' % k)


def reduce_(f, it, *a):
    'functools.reduce: the loop it stands for; over symbolic collections only sums of a measure are understood'
    s = seq_of(it)
    if s is None:
        if isinstance(it, Sym): raise Unsupported('reduce')
        return _functools.reduce(f, it, *a)
    if not a: raise Unsupported('reduce without a start')
    acc = a[0]; c = ctx()
    for x in s:
        if not isinstance(x, Irr): acc = f(acc, x); continue
        if isinstance(acc, bool):
            # no element, or one; whatever it makes of the truth value, another one must not change it again
            if c.choose(2, 'reduce') == 0:
                new = bool(f(acc, x.make()))
                if new is not acc and bool(f(new, x.make())) is not new: raise Unsupported('reduce of truth values')
                acc = new
            continue
        el = x.make(); start = vals.fresh_int('acc'); r = f(start, el)
        for m, g in x.measures.items():
            ok = rt.same(r, start + g(el))
            if ok is True or (ok is not False and c.entails(ok)): acc = acc + x.totals[m]; break
        else: raise Unsupported('reduce that is no sum of a measure')
    return acc


class GenList(list): pass


class IrrMap(Irr):
    'the images of a segment of irrelevant elements under a comprehension'
    def __init__(self, fn, base, plain=False):
        # plain: one image for each element; None: any number (nested comprehension), else at most one
        self.fn = fn; self.base = base; self.label = base.label
        def make():
            r = list(fn([base.make()]))
            if not r: raise rt.Infeasible()
            return r[0]
        n = None
        if 'count' in base.totals and plain is not None:
            n = base.totals['count']
            if not plain: m, n = n, vals.fresh_int('left'); ctx().assume(z3.And(n.e >= 0, n.e <= num(m)))
        Irr.__init__(self, make, dict(count=lambda e: 1) if n is not None else None, dict(count=n) if n is not None else None, label=base.label)


class SuperProxy(object):
    def __init__(self, cls, o): self.__dict__.update(_k=cls, _o=o)
    def __getattribute__(self, k):
        if k in ('_k', '_o', '__dict__', '__class__'): return object.__getattribute__(self, k)
        return self._o._lookup(k, start=self._k)
    def __setattr__(self, k, v): raise Unsupported('super().%s = ...' % k)


# ---------------------------------------------------------------------------------------------------------------
# builtin functions

def irr_total(l):
    'sum over a list with segments: the segments contribute the total of the measure their elements are'
    c = ctx(); acc = 0
    for x in l:
        if isinstance(x, IrrMap):
            chain = [x.fn]; base = x.base
            while isinstance(base, IrrMap): chain.insert(0, base.fn); base = base.base
            el = v = base.make()
            for fn in chain:
                r = list(fn([v]))
                if len(r) != 1: raise Unsupported('sum over a filtered collection')
                v = r[0]
            for m, f in base.measures.items():
                ok = rt.same(f(el), v)
                if ok is True or (ok is not False and c.entails(ok)): acc = acc + base.totals[m]; break
            else: raise Unsupported('sum of something that is no measure')
        elif isinstance(x, Irr): raise Unsupported('sum over an unknown segment')
        else: acc = acc + x
    return acc


def b_len(x):
    m = getattr(type(x), '_len_', None)
    if m is not None: return m(x)
    if isinstance(x, SObj): return x._special('__len__')
    if rt.has_irr(x):
        n = 0
        for e in x:
            if not isinstance(e, Irr): n = n + 1; continue
            if 'count' in e.totals: n = n + e.totals['count']
            else: raise Unsupported('length of a list with unknown segments')
        return n
    return len(x)


def b_sum(x, *a):
    m = getattr(type(x), '_sum_', None)
    if m is not None: return m(x)
    if rt.has_irr(x): return irr_total(x)
    return sum(x, *a)


class SRange(object):
    'range with symbolic ends: witnesses have to be asked for by the contract'
    def __init__(self, a, b, step): self.a, self.b, self.step = a, b, step
    def _iter_(self):
        f = ctx().ghost.get('range')
        if f is None: raise Unsupported('range with symbolic ends')
        return f(self)


def b_range(*a):
    if any(isinstance(x, Sym) for x in a):
        if len(a) == 1: return SRange(0, a[0], 1)
        return SRange(a[0], a[1], a[2] if len(a) > 2 else 1)
    return range(*a)


def cls_of(x):
    m = getattr(type(x), '_cls_', None)
    if m is not None: return m(x)
    if isinstance(x, SObj): return x.__dict__['_cls']
    return None


def b_isinstance(x, c):
    if isinstance(c, tuple): return any(b_isinstance(x, y) for y in c)
    if isinstance(c, NDProxy): c = np.ndarray
    m = getattr(type(x), '_isinstance_', None)
    if m is not None:
        r = m(x, c)
        if r is not NotImplemented: return r
    if isinstance(x, SObj):
        k = x.__dict__['_cls']
        if '_isinst' in x.__dict__: return x.__dict__['_isinst'](c)
        if k is None: raise Unsupported('isinstance of %r' % x)
        return issubclass(k, c)
    if isinstance(x, SBool): return issubclass(bool, c)
    if isinstance(x, SNum): return issubclass(int if x.e.is_int() else float, c)
    if isinstance(x, Opaque): raise Unsupported('isinstance of %r' % x)
    if isinstance(x, Bound): return isinstance(x, c)
    r = isinstance(x, c)
    if not r and isinstance(x, Sym): raise Unsupported('isinstance of %r' % (x,))     # what kind of value it stands for is not said
    return r


def b_getattr(x, k, *d):
    if isinstance(x, SObj):
        if d: return x._lookup(k, d[0]) if x._has(k) or x.__dict__['_fallback'] else (d[0] if x.__dict__['_cls'] is not None or k in x.__dict__['_absent'] else x._lookup(k))
        return x._lookup(k)
    if d and isinstance(x, Sym) and not hasattr(x, k): raise Unsupported('getattr(%r, %r)' % (x, k))
    return getattr(x, k, *d)


def b_hasattr(x, k):
    if isinstance(x, SObj): return x._has(k)
    r = hasattr(x, k)
    if not r and isinstance(x, Sym): raise Unsupported('hasattr(%r, %r)' % (x, k))
    return r


def b_type(x, *a):
    if a: return type(x, *a)
    k = cls_of(x)
    if isinstance(x, Sym):
        if k is None: raise Unsupported('type of %r' % (x,))
        return k
    return type(x)


def b_list(*a):
    if not a: return []
    x = a[0]
    s = seq_of(x)
    if s is not None: return list(s)
    if isinstance(x, Sym): raise Unsupported('list of %r' % (x,))
    return list(x)


def b_set(*a):
    if a and (isinstance(a[0], Sym) or rt.has_irr(a[0])):
        m = getattr(type(a[0]), '_set_', None)
        if m is not None: return m(a[0])
        raise Unsupported('set of %r' % (a[0],))
    return set(*a)


def b_tuple(*a):
    if not a: return ()
    r = b_list(*a)
    if rt.has_irr(r): return STuple(r)
    return tuple(r)


def b_minmax(f, lt):
    def g(*a, **k):
        if len(a) == 2 and not k and any(isinstance(x, Sym) for x in a):
            # Python: min(a, b) is b if b < a else a
            x, y = a
            if all(type(v) is vals.SNum and v.e.is_int() or type(v) is int for v in a):
                u, v = num(x), num(y)
                return vals.SNum(z3.If(v < u if lt else v > u, v, u))
            c = (y < x) if lt else (y > x)
            return y if c else x
        if len(a) == 1 and isinstance(a[0], list) and rt.has_irr(a[0]) and not k:
            r = vals.fresh_int('extreme')
            for x in a[0]:
                if not isinstance(x, Irr): ctx().assume((r.e <= num(x)) if lt else (r.e >= num(x)))
            return r
        if deep_sym(a): raise Unsupported('min/max')
        return f(*a, **k)
    return g


def b_abs(x): return abs(x)


def b_float(*a):
    if a and isinstance(a[0], Sym):
        m = getattr(type(a[0]), '_float_', None)
        if m is not None: return m(a[0])
        if isinstance(a[0], SBool): return SNum(z3.ToReal(a[0]._num().e))
        if isinstance(a[0], SNum): return SNum(z3.ToReal(a[0].e)) if a[0].e.is_int() else a[0]
        raise Unsupported('float of %r' % (a[0],))
    return float(*a)


def b_int(*a, **k):
    if a and isinstance(a[0], Sym):
        if isinstance(a[0], SNum) and a[0].e.is_int(): return a[0]
        if isinstance(a[0], text.SStr) and len(a) == 1: return text.to_int(a[0])
        raise Unsupported('int of %r' % (a[0],))
    return int(*a, **k)


def b_bool(*a):
    return bool(*a)


def b_str(*a, **k):
    if a and isinstance(a[0], Sym):
        m = getattr(type(a[0]), '_str_', None)
        if m is not None: return m(a[0])
        if isinstance(a[0], SNum) and not isinstance(a[0], SBool) and a[0].e.is_int(): return text.of_int(a[0])
        return text.fresh('number') if isinstance(a[0], SNum) else '<symbolic>'
    return str(*a, **k)


def b_any(x):
    if rt.has_irr(x):
        r = False
        for e in x:
            if isinstance(e, Irr):
                # no element for which it holds, or one
                if ctx().choose(2, 'any') == 1 and e.make(): return True
            elif e: return True
        return False
    return any(x)


def b_all(x):
    if rt.has_irr(x):
        for e in x:
            if isinstance(e, Irr):
                if ctx().choose(2, 'all') == 1 and not e.make(): return False
            elif not e: return False
        return True
    return all(x)


def b_enumerate(x, start=0):
    s = seq_of(x)
    if s is None and not isinstance(x, Sym): return enumerate(x, start)
    out = []; i = start
    for e in s:
        if isinstance(e, Irr):
            if 'count' not in e.totals: raise Unsupported('enumerate over an unknown segment')
            base = i
            def make(e=e, base=base):
                j = vals.fresh_int('k'); c = ctx(); c.assume(z3.And(j.e >= num(base), j.e < num(base + e.totals['count'])))
                return (j, e.make())
            out.append(Irr(make, {m: (lambda el, f=f: f(el[1])) for m, f in e.measures.items()}, e.totals, e.label)); i = i + e.totals['count']
        else: out.append((i, e)); i = i + 1
    return out


def b_zip(*a):
    m = getattr(type(a[0]), '_zip_', None) if a else None
    if m is not None: return m(*a)
    ss = [seq_of(x) for x in a]
    if all(s is None for s in ss) and not any(isinstance(x, Sym) for x in a): return zip(*a)
    if len(a) == 1: return [Irr(lambda e=e: (e.make(),), {m: (lambda t, f=f: f(t[0])) for m, f in e.measures.items()}, e.totals, e.label, e.loose, e.collect, e.twin) if isinstance(e, Irr) else rt.At((e.x,), e.enter) if isinstance(e, rt.At) else (e,) for e in ss[0]]
    raise Unsupported('zip')


def b_map(f, *a):
    if len(a) == 1:
        s = seq_of(a[0])
        if s is not None:
            r = PD._comp(lambda it: [f(x) for x in it], a[0], 'map')
            return r
    return map(f, *a)


def b_filter(f, a):
    s = seq_of(a)
    if s is not None: return PD._comp(lambda it: [x for x in it if (f(x) if f is not None else x)], a, 'filter')
    return filter(f, a)


def b_sorted(x, **k):
    m = getattr(type(x), '_sorted_', None)
    if m is not None: return m(x, **k)
    if seq_of(x) is not None or deep_sym(x): raise Unsupported('sorted')
    return sorted(x, **k)


def b_reversed(x):
    s = seq_of(x)
    if s is not None: return list(s)[::-1]
    return reversed(x)


def b_iter(x, *a):
    s = seq_of(x)
    if s is not None or isinstance(x, Sym): raise Unsupported('iter')
    return iter(x, *a)


class IrrId(int):
    'the number of an object nothing is claimed about'
    _irr_ = True


def b_id(x):
    m = getattr(type(x), '_id_', None)
    if m is not None: return m(x)
    if isinstance(x, SObj) and rt.irrelevant(x): return IrrId(id(x))
    return id(x)


def b_hex(x):
    m = getattr(type(x), '_hex_', None)
    if m is not None: return m(x)
    return hex(x)


def b_print(*a, **k): pass


def b_callable(x):
    if isinstance(x, SObj): return '__call__' in x.__dict__['_c']
    if isinstance(x, Sym) and not callable(x): raise Unsupported('callable(%r)' % (x,))
    return callable(x)


def b_dir(*a):
    if a and isinstance(a[0], SObj): return a[0]._special('__dir__')
    return dir(*a)


def b_dict(*a, **k):
    if a:
        m = getattr(type(a[0]), '_dict_', None)
        if m is not None: return m(a[0])
        s = seq_of(a[0])
        if s is not None:
            return SDictItems(s)
    elif not k and ctx() is not None and 'dict' in ctx().ghost: return ctx().ghost['dict']()
    return dict(*a, **k)


class SDictItems(object):
    'dict(items) of a symbolic sequence of pairs with different keys'
    def __init__(self, s): self.s = s
    def items(self): return WSeq(self.s)
    def keys(self): raise Unsupported('keys')
    def _no(self, *a): raise Unsupported('use of a dictionary of unknown length')
    __eq__ = __ne__ = __len__ = __iter__ = __contains__ = __getitem__ = __bool__ = _no
    __hash__ = None


class Indexed(list):
    'a list with witness elements and segments of others; the contract knows which entry is at a (symbolic) position'
    def _iter_(self): return list(self)
    def __getitem__(self, i): return ctx().ghost['index'](self, i)
    def _no(self, *a, **k): raise Unsupported('change of a sequence of unknown length')
    __setitem__ = __delitem__ = insert = pop = index = count = remove = append = extend = sort = reverse = _no


def seq_eq(a, b):
    'equality of lists, of which there can be segments of others'
    if a is b: return True
    if rt.has_irr(a) or rt.has_irr(b):
        for x, y in ((a, b), (b, a)):          # longer than the other one, whatever the segments hold
            if not rt.has_irr(y) and sum(not isinstance(i, Irr) for i in x) > len(y): return False
        raise Unsupported('comparison of sequences of unknown length')
    return list(a) == list(b)


class WSeq(list):
    'a sequence with witness elements and segments of others'
    def _iter_(self): return list(self)
    def _pos(self, *a, **k):
        raise Unsupported('position in a sequence of unknown length')
    def _known(self, i):
        if rt.has_irr(self) and i != slice(None):
            k = list(self)
            if not isinstance(i, int) or isinstance(i, bool) or rt.has_irr(k[:i + 1] if i >= 0 else k[i:]): self._pos()
    def _end(self, i):
        'the first or the last element; which one it is depends on how many there are in the segments'
        for x in (self if i == 0 else reversed(list(self))):
            if not isinstance(x, Irr): return x
            if 'count' not in x.totals: self._pos()
            if ctx().decide(num(x.totals['count']) > 0): return x.make()
        raise IndexError('list index out of range')
    def __getitem__(self, i):
        if type(i) is int and i in (0, -1) and rt.has_irr(self): return self._end(i)
        self._known(i); return list.__getitem__(self, i)
    def __setitem__(self, i, v): self._known(i); list.__setitem__(self, i, v)
    def __delitem__(self, i): self._known(i); list.__delitem__(self, i)
    def __eq__(self, o): return seq_eq(self, o) if isinstance(o, (list, tuple)) else NotImplemented
    def __ne__(self, o): return not seq_eq(self, o) if isinstance(o, (list, tuple)) else NotImplemented
    __hash__ = None
    def index(self, *a):
        if rt.has_irr(self): self._pos()
        return list.index(self, *a)
    def insert(self, i, x):
        if rt.has_irr(self) and i != 0: self._pos()
        list.insert(self, i, x)
    def pop(self, *a):
        if rt.has_irr(self): self._pos()
        return list.pop(self, *a)
    def count(self, x):
        if rt.has_irr(self): self._pos()
        return list.count(self, x)


class STuple(WSeq):
    'a tuple with segments of others'
    def __add__(self, o):
        if not isinstance(o, (tuple, STuple)): raise Unsupported('tuple + %r' % type(o))
        return STuple(list(self) + list(o))
    def __radd__(self, o): return STuple(list(o) + list(self))
    def _bad(self, *a): raise Unsupported('operation on a tuple of unknown length')
    append = extend = insert = pop = remove = __setitem__ = __delitem__ = __iadd__ = __getitem__ = _bad


class SText(Sym):
    'a text put together from pieces in order'
    def __init__(self, parts): self.parts = parts
    def __eq__(self, o): raise Unsupported('comparison of texts')
    __ne__ = __eq__
    def __hash__(self): return id(self)


BUILTINS = dict(len=b_len, sum=b_sum, range=b_range, isinstance=b_isinstance, getattr=b_getattr, hasattr=b_hasattr, list=b_list, tuple=b_tuple, set=b_set, frozenset=b_set,
                min=b_minmax(min, True), max=b_minmax(max, False), float=b_float, int=b_int, str=b_str, any=b_any, all=b_all, enumerate=b_enumerate,
                zip=b_zip, map=b_map, filter=b_filter, sorted=b_sorted, reversed=b_reversed, iter=b_iter, id=b_id, hex=b_hex, print=b_print, callable=b_callable, dict=b_dict, dir=b_dir)


for _k, _f in BUILTINS.items(): setattr(PDClass, 'b_' + _k, staticmethod(_f))


# ---------------------------------------------------------------------------------------------------------------
# numpy

class NDProxy(object):
    'np.ndarray: a class to everything but symbolic self arguments'
    def __getattr__(self, k):
        real = getattr(np.ndarray, k)
        def f(self_, *a, **kw):
            m = getattr(type(self_), '_ndarray_', None)
            if m is not None: return m(self_, k, *a, **kw)
            if isinstance(self_, SObj) and ('ndarray.' + k) in self_.__dict__['_c']: return self_.__dict__['_c']['ndarray.' + k](self_, *a, **kw)
            if isinstance(self_, Sym): raise Unsupported('ndarray.%s of %r' % (k, self_))
            return real(self_, *a, **kw)
        return f
    def __call__(self, *a, **k): return np.ndarray(*a, **k)
NDARRAY = NDProxy()

SCALAR = dict(ndim=0, size=1, shape=(), isscalar=True)     # of a single number
FUNCS = {}                                # numpy function name -> symbolic version (returns NotImplemented to decline)


class NPClass(object):
    ndarray = NDARRAY
    def __getattr__(self, k):
        real = getattr(np, k)
        if isinstance(real, type) or not callable(real):
            if k not in FUNCS: return real
        def f(*a, **kw):
            if deep_sym(a) or deep_sym(tuple(kw.values())):
                g = FUNCS.get(k)
                if k in SCALAR and len(a) == 1 and not kw and type(a[0]) is vals.SNum: return SCALAR[k]
                if g is None: raise Unsupported('numpy.%s of symbolic values' % k)
                r = g(*a, **kw)
                if r is NotImplemented: raise Unsupported('numpy.%s of these symbolic values' % k)
                return r
            return real(*a, **kw)
        f.__name__ = k
        return f
NP = NPClass()


class RC(object):
    def __getitem__(self, s):
        m = getattr(type(s if not isinstance(s, slice) else (s.stop if isinstance(s.stop, Sym) else s.start)), '_r_', None)
        if isinstance(s, slice) and any(isinstance(x, Sym) for x in (s.start, s.stop, s.step)):
            g = FUNCS.get('r_')
            if g is None: raise Unsupported('np.r_')
            return g(s)
        return np.r_[s]
NPClass.r_ = RC()


class CopyMod(object):
    def __getattr__(self, k):
        real = getattr(_copy, k)
        def f(x, *a):
            m = getattr(type(x), '_%s_' % k, None)
            if m is not None: return m(x, *a)
            if isinstance(x, SObj) and k in x._shadow()['_c']: return x._shadow()['_c'][k](x, *a)
            if deep_sym(x): raise Unsupported('copy.%s of %r' % (k, x))
            return real(x, *a)
        return f


class WeakMod(object):
    def __getattr__(self, k): return getattr(_weakref, k)
    def ref(self, x, *a):
        if isinstance(x, Sym): return SRef(x)
        return _weakref.ref(x, *a)


class SRef(Sym):
    'weak reference to x; alive or not'
    __slots__ = ('x', 'alive')
    def __init__(self, x, alive=True): self.x = x; self.alive = alive
    def __call__(self): return self.x if self.alive else None
    def __eq__(self, o): return isinstance(o, SRef) and o.x is self.x
    def __ne__(self, o): return not self == o
    def __hash__(self): return id(self.x)
    @property
    def _irr_(self): return rt.irrelevant(self.x)
    def __repr__(self): return 'ref(%r)' % (self.x,)

MODULES = dict(copy=CopyMod(), weakref=WeakMod(), re=text.ReMod())
