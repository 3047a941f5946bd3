"""symbolic values: truth values, integers, reals, fake objects"""
import numpy as np
import z3
from . import rt
from .rt import Unsupported, ctx


class Sym(object):
    __slots__ = ()


def is_sym(x): return isinstance(x, Sym)


class SBool(Sym):
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __bool__(self): return ctx().decide(self.e)
    def __and__(self, o): return SBool(z3.And(self.e, bexpr(o)))
    __rand__ = __mul__ = __rmul__ = __and__
    def __or__(self, o): return SBool(z3.Or(self.e, bexpr(o)))
    __ror__ = __or__
    def __xor__(self, o): return SBool(z3.Xor(self.e, bexpr(o)))
    __rxor__ = __xor__
    def __invert__(self): return SBool(z3.Not(self.e))
    def __eq__(self, o):
        if isinstance(o, (bool, SBool)): return SBool(self.e == bexpr(o))
        if isinstance(o, (int, SNum)): return self._num() == o
        return False
    def __ne__(self, o): return snot(self == o)
    def __hash__(self): raise Unsupported('hash of a symbolic truth value')
    def _num(self): return SNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))
    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __repr__(self): return 'SBool(%s)' % self.e


def snot(x):
    return SBool(z3.Not(x.e)) if isinstance(x, SBool) else (not x)


def bexpr(x):
    if isinstance(x, SBool): return x.e
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, SNum): return x.e != 0
    if isinstance(x, int): return z3.BoolVal(bool(x))
    if isinstance(x, z3.ExprRef): return x
    try:
        import numpy as np
        if isinstance(x, np.bool_): return z3.BoolVal(bool(x))
    except ImportError: pass
    raise Unsupported('%r as a truth value' % (type(x),))


def num(x):
    'z3 arithmetic expression of a number, or None'
    if isinstance(x, SNum): return x.e
    if isinstance(x, SBool): return x._num().e
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')): return None
        return z3.RealVal(repr(x)) if 'e' not in repr(x) else z3.RealVal(str(__import__('fractions').Fraction(repr(x))))
    if isinstance(x, z3.ArithRef): return x
    import numpy as np
    if isinstance(x, np.integer): return z3.IntVal(int(x))
    if isinstance(x, np.floating): return num(float(x))
    if isinstance(x, np.bool_): return z3.IntVal(int(x))
    return None


def _co(a, b):
    if a.is_int() and b.is_real(): a = z3.ToReal(a)
    if b.is_int() and a.is_real(): b = z3.ToReal(b)
    return a, b


class SNum(Sym):
    'a mathematical integer or real'
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def _bin(self, o, f, rev=False):
        if isinstance(o, float) and num(o) is None: raise Unsupported('infinite or undefined number with a symbolic one')
        b = num(o)
        if b is None: return NotImplemented
        a, b = _co(self.e, b)
        if rev: a, b = b, a
        return SNum(f(a, b))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def _div(self, o, rev):
        b = num(o)
        if b is None: return NotImplemented
        a = self.e
        if rev: a, b = b, a
        if a.is_int(): a = z3.ToReal(a)
        if b.is_int(): b = z3.ToReal(b)
        if not z3.is_rational_value(z3.simplify(b)) and ctx().entails(z3.And(a == b, b != 0)): return SNum(z3.RealVal(1))
        return SNum(a / b)
    def __truediv__(self, o): return self._div(o, False)
    def __rtruediv__(self, o): return self._div(o, True)
    def __floordiv__(self, o):
        b = num(o)
        if b is None or not (b.is_int() and self.e.is_int()): return NotImplemented
        if not isinstance(o, int) or o <= 0: raise Unsupported('integer division')
        return SNum(self.e / b)
    def __mod__(self, o):
        b = num(o)
        if b is None or not (b.is_int() and self.e.is_int()): return NotImplemented
        if not isinstance(o, int) or o <= 0: raise Unsupported('modulo')
        return SNum(self.e % b)
    def __pow__(self, o):
        if o == 2: return SNum(self.e * self.e)
        if o == 1: return self
        raise Unsupported('power')
    def __neg__(self): return SNum(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SNum(z3.If(self.e < 0, -self.e, self.e))
    def _cmp(self, o, f, inf):
        if isinstance(o, float) and num(o) is None:
            return inf(o)
        b = num(o)
        if b is None: return NotImplemented
        a, b = _co(self.e, b)
        return SBool(f(a, b))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda o: o > 0)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda o: o > 0)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda o: o < 0)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda o: o < 0)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda o: False)
        return False if r is NotImplemented else r
    def __ne__(self, o): return snot(self == o)
    def __hash__(self): raise Unsupported('hash of a symbolic number')
    def __bool__(self): return ctx().decide(self.e != 0)
    def __index__(self): raise Unsupported('symbolic number used as a concrete index')
    def __int__(self):
        raise Unsupported('int() of a symbolic number')
    def __float__(self): raise Unsupported('float() of a symbolic number')
    def __repr__(self): return 'SNum(%s)' % self.e


def fresh_int(base='i'): return SNum(z3.Int(ctx().name(base)))
def fresh_real(base='r'): return SNum(z3.Real(ctx().name(base)))
def fresh_bool(base='b'): return SBool(z3.Bool(ctx().name(base)))


class Opaque(Sym):
    'a value nothing is known about but its identity'
    __slots__ = ('name', '_irr_', '__weakref__')
    def __init__(self, name, irr=False): self.name = name; self._irr_ = irr
    def __repr__(self): return '<%s>' % self.name
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __hash__(self): return id(self)
    def __bool__(self): raise Unsupported('truth of %s' % self.name)
    def __getattr__(self, k):
        if k.startswith('__') or k in ('_same_', '_snap_', '_irr_'): raise AttributeError(k)
        raise Unsupported('attribute %s of %s' % (k, self.name))


class Bound(object):
    'a function bound to a fake object'
    def __init__(self, f, self_): self.__func__ = f; self.__self__ = self_
    def __call__(self, *a, **k): return self.__func__(self.__self__, *a, **k)
    def __eq__(self, o): return isinstance(o, Bound) and o.__func__ is self.__func__ and o.__self__ is self.__self__
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((id(self.__func__), id(self.__self__)))
    @property
    def __name__(self): return getattr(self.__func__, '__name__', 'f')
    def __repr__(self): return '<bound %s of %r>' % (getattr(self.__func__, '__name__', self.__func__), self.__self__)


MISSING = object()


FLOATS = (None, float, np.float64, 'float', 'float64', 'f8', 'd')
INTS = (None, int, np.int64, np.intp, 'int', 'int64', 'i8')
BOOLS = (None, bool, np.bool_, 'bool', '?')


def keeps(ok, a=(), k={}):
    """a conversion is understood only if it leaves the kind of number as it is"""
    for d in list(a)[:1] + [v for n, v in k.items() if n == 'dtype']:
        if isinstance(d, np.dtype): d = d.type
        if not any(d is o or (isinstance(d, str) and isinstance(o, str) and d == o) for o in ok): raise rt.Unsupported('conversion to %r' % (d,))


def kinds_of(x):
    return getattr(x, '_kinds_', (None,))


def _object_init(self): pass


class SObj(Sym):
    """A fake object of class cls.  An attribute is looked up in: fields (state), contracts (name -> stub called in place of
    the method or property of the real class), and then in the real class, whose methods run for real with this object as self.
    strict: attributes that are in none of them raise AttributeError (otherwise they are Unsupported)."""
    def __init__(self, name, cls=None, fields=None, contracts=None, irr=False, track=True, fallback=None, setters=None, base=None, absent=()):
        d = self.__dict__
        d['_n'] = name; d['_cls'] = cls; d['_f'] = dict(fields or {}); d['_c'] = dict(contracts or {}); d['_irr_'] = irr
        d['_set'] = dict(setters or {}); d['_base'] = dict(base or {}); d['_fallback'] = fallback; d['_absent'] = set(absent)
        if track and not irr: ctx().tracked.append(self)
    def _shadow(self): return self.__dict__
    def _snap_(self):
        tr = {id(x) for x in ctx().tracked}
        return {k: v if id(v) in tr else rt.snap(v) for k, v in self.__dict__['_f'].items()}
    def __repr__(self): return '<%s>' % self.__dict__['_n']
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __hash__(self): return id(self)
    def __bool__(self):
        m = getattr(type(self), '_truth', None)
        return True
    def _lookup(self, k, default=MISSING, start=None):
        d = self.__dict__
        if start is None:
            if k in d['_f']: return d['_f'][k]
            if k in d['_c']:
                v = d['_c'][k]
                return v.get(self) if isinstance(v, Prop) else Bound(v, self) if callable(v) else v
        elif k in d['_base']:
            return d['_base'][k] if getattr(d['_base'][k], '_raw_', False) else Bound(d['_base'][k], self)
        if k in d['_absent']:
            if default is not MISSING: return default
            raise AttributeError(k)
        cls = d['_cls']
        if cls is not None:
            mro = cls.__mro__
            if start is not None: mro = mro[mro.index(start) + 1:]
            for c in mro:
                if c.__module__.split('.')[0] != 'paramz' and c is not object: continue
                if k in c.__dict__:
                    v = c.__dict__[k]
                    if c is object and k == '__init__' and start is not None: return Bound(_object_init, self)
                    if isinstance(v, property): return v.fget(self)
                    if isinstance(v, staticmethod): return v.__func__
                    if isinstance(v, classmethod): return Bound(v.__func__, cls)
                    if callable(v) and hasattr(v, '__code__'): return Bound(v, self)
                    if c is object: raise Unsupported('object.%s' % k)
                    return v
        if d['_fallback'] is not None and start is None: return d['_fallback'](self, k)
        if default is not MISSING: return default
        if k.startswith('__') and k.endswith('__'): raise AttributeError(k)
        raise Unsupported('attribute %s of %r' % (k, self))
    def __getattr__(self, k):
        if k in ('_same_',): raise AttributeError(k)
        return self._lookup(k)
    def __setattr__(self, k, v):
        d = self.__dict__
        if k in d['_set']: d['_set'][k](self, v); return
        cls = d['_cls']
        if cls is not None and k not in d['_f']:
            for c in cls.__mro__:
                if k in c.__dict__:
                    p = c.__dict__[k]
                    if isinstance(p, property):
                        if k in d['_c']: raise Unsupported('assignment to %s' % k)
                        p.fset(self, v); return
                    break
        if k in d['_c']: raise Unsupported('assignment to %s' % k)
        d['_f'][k] = v
        d['_absent'].discard(k)
    def __delattr__(self, k):
        d = self.__dict__
        if k in d['_f']: del d['_f'][k]; d['_absent'].add(k)
        else: raise Unsupported('del of %s' % k)
    def _has(self, k):
        d = self.__dict__
        if k in d['_f'] or k in d['_c']: return True
        if k in d['_absent']: return False
        if d['_cls'] is not None and any(k in c.__dict__ for c in d['_cls'].__mro__): return True
        if d['_fallback'] is not None: raise Unsupported('hasattr %s' % k)
        return False
    def _special(self, k, *a):
        d = self.__dict__
        if k in d['_c']: return d['_c'][k](self, *a)
        cls = d['_cls']
        if cls is not None:
            for c in cls.__mro__:
                if k in c.__dict__ and c.__module__.split('.')[0] == 'paramz': return c.__dict__[k](self, *a)
        raise Unsupported('%s of %r' % (k, self))
    def __getitem__(self, i, *a): return self._special('__getitem__', i, *a)
    def __setitem__(self, i, v): return self._special('__setitem__', i, v)
    def __delitem__(self, i): return self._special('__delitem__', i)
    def __contains__(self, i): return self._special('__contains__', i)
    def __call__(self, *a, **k):
        d = self.__dict__
        if '__call__' in d['_c']: return d['_c']['__call__'](self, *a, **k)
        raise Unsupported('call of %r' % self)
    def __iter__(self): raise Unsupported('iteration over %r' % self)
    def __len__(self): raise Unsupported('len of %r' % self)


for _op in ('add sub mul truediv floordiv mod pow and or xor lshift rshift lt le gt ge neg invert radd rsub rmul rtruediv iadd isub imul').split():
    def _mk(op):
        n = '__%s__' % op
        def f(self, *a): return self._special(n, *a)
        f.__name__ = n
        return f
    setattr(SObj, '__%s__' % _op, _mk(_op))
for _op in ('iadd', 'isub', 'imul'):
    delattr(SObj, '__%s__' % _op)


class Prop(object):
    'a contract standing for a property'
    def __init__(self, get): self.get = get
