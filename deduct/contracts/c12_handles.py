"""C12, C07, C09, C16, C24: indexed parts of a parameter, the flat positions they stand for, its gradient, and small delegations"""
import numpy as np
import z3
from .. import rt, vals, shim, index
from ..base import contract, arg
from ..rt import Unsupported, Irr
from ..shim import WSeq
from ..vals import Sym, SObj, Opaque, SNum, Prop, fresh_int, num
from .c03_tables import NPY


def Pa():
    from paramz.param import Param
    index.install()
    return Param


def relevant(c, *kinds): return [e for e in c.trace if not rt.irrelevant(e[1]) and (not kinds or e[0] in kinds)]


class Arr(SObj):
    'an array known only by what it is'


class Ix(Sym):
    'an index: neither a tuple nor anything else the code asks for'
    _irr_ = False
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    def _isinstance_(self, k): return False


def as_index(s): return s if isinstance(s, tuple) else (s,)


@contract('C12 C09', ['Param.__getitem__'], assumes=['indexing an array gives a part of it (a view, a copy or a scalar that takes no attributes): numpy; gradient has the shape of the values (contract of gradient)'])
def indexing_a_parameter(c):
    K = Pa()
    i, j = Ix('index 1'), Ix('index 2')
    s = [i, (i,), (i, j)][c.choose(3, 'index')]
    scalar = bool(c.choose(2, 'a scalar comes out'))
    log = []
    if scalar:
        class Scalar(object):
            __slots__ = ()
        part = Scalar()
    else: part = SObj('part', K, track=False)
    def sup(o, x, *a, **k):
        if a or k: raise Unsupported('ndarray.__getitem__ with further arguments')
        log.append(x); return part
    gpart = Opaque('part of the gradient'); orig = Opaque('original')
    glog = []
    g = SObj('gradient', None, contracts=dict(__getitem__=lambda o, x: (glog.append(x), gpart)[1]))
    o = SObj('parameter', K, fields=dict(_gradient_array_=g, _original_=orig), base={'__getitem__': sup})
    r = K.__getitem__(o, s)
    c.prove('the part is what indexing the array gives', r is part and len(log) == 1 and as_index(log[0]) == as_index(s))
    if not scalar:
        f = part.__dict__['_f']
        c.prove('it knows its place in the parameter', isinstance(f.get('_current_slice_'), tuple) and f['_current_slice_'] == as_index(s))
        c.prove('it sees the gradient of its place', f.get('_gradient_array_') is gpart and bool(glog) and all(as_index(x) == as_index(s) for x in glog))
        c.prove('and knows the parameter it is a part of', f.get('_original_') is orig)
    c.prove('the parameter is left alone', set(o.__dict__['_f']) == {'_gradient_array_', '_original_'} and o.__dict__['_f']['_gradient_array_'] is g and o.__dict__['_f']['_original_'] is orig)


@contract('C12', ['Param.gradient (getter and setter)'])
def gradient_of_a_parameter(c):
    K = Pa()
    shape = Opaque('shape')
    made = []
    def array(name): return SObj(name, None, track=False, contracts=dict(__setitem__=lambda o, i, v: c.event('set', o, i, v)))
    def new(sh, *a, **k):
        if not (sh is shape): raise Unsupported('array of shape %r' % (sh,))
        made.append(array('new array')); return made[-1]
    shim.FUNCS.update(empty=new, zeros=new)
    st = c.choose(3, 'gradient so far')
    g = array('gradient')
    o = SObj('parameter', K, track=False, fields=dict(_realshape_=shape), absent=('_gradient_array_',) if st == 1 else ())
    if st != 1: o.__dict__['_f']['_gradient_array_'] = g if st == 2 else None
    if c.choose(2, 'write first'):
        v = Opaque('value')
        K.gradient.fset(o, v)
        e = relevant(c, 'set')
        now = o.__dict__['_f'].get('_gradient_array_')
        c.prove('values are written into the gradient array, all of it', len(e) == 1 and e[0][1] is now and e[0][3] is v and e[0][2] in (slice(None), Ellipsis))
    r = K.gradient.fget(o)
    c.prove('reading gives the array there is', r is (g if st == 2 else made[0] if made else None))
    c.prove('a missing one is made once, in the shape of the parameter', len(made) == (st != 2))
    c.prove('and kept', o.__dict__['_f'].get('_gradient_array_') is r and K.gradient.fget(o) is r and len(made) == (st != 2))


def sharing(c):
    'an indexed part of a parameter that shares memory with it or not'
    sh = bool(c.choose(2, 'shares memory'))
    K = Pa()
    def view(name): return SObj(name, None, track=False, contracts=dict(__setitem__=lambda o, i, v: c.event('set', o, i, v), __getitem__=lambda o, i: (c.event('get', o, i), got)[1]))
    got = Opaque('values at an index')
    def plain(v):
        import numpy as np
        def f(o, t=None):
            if t is not np.ndarray and t is not shim.NDARRAY: raise Unsupported('view as %r' % (t,))
            return v
        return f
    vo, vs = view('values of the original'), view('values of the part')
    orig = SObj('original', K, track=False, contracts=dict(view=plain(vo), __setitem__=lambda o, i, v: c.event('set', o, i, v), __getitem__=lambda o, i: Opaque('an observed part')))
    cur = Opaque('index'),
    o = SObj('part', K, fields=dict(_original_=orig, _current_slice_=cur), contracts=dict(view=plain(vs), __setitem__=lambda o, i, v: c.event('set', o, i, v)))
    def share(a, b):
        if {id(a), id(b)} & {id(o), id(vs)} and {id(a), id(b)} & {id(orig), id(vo)}: return sh
        raise Unsupported('memory of something else')
    shim.FUNCS.update(may_share_memory=share, shares_memory=share)
    return K, sh, o, orig, vo, vs, cur, got


@contract('C09 C12', ['Param._read_through'], assumes=['assigning to a part of an array sets its values (numpy)'])
def read_through(c):
    K, sh, o, orig, vo, vs, cur, got = sharing(c)
    K._read_through(o)
    e, g = relevant(c, 'set'), relevant(c, 'get')
    if sh: c.prove('what shares memory is current already: no value changes', all(x[3] is got and x[1] is vs for x in e))
    else:
        c.prove('a copy gets the current values of the original', len(e) == 1 and e[0][1] is vs and e[0][2] in (Ellipsis, slice(None)) and e[0][3] is got)
        c.prove('of its own place', len(g) == 1 and g[0][1] is vo and g[0][2] == cur)
    c.prove('the original is not written', not any(x[1] in (orig, vo) for x in e))


@contract('C09 C12', ['Param._write_through'], assumes=['assigning to a part of an array sets its values (numpy)'])
def write_through(c):
    K, sh, o, orig, vo, vs, cur, got = sharing(c)
    K._write_through(o)
    e = relevant(c, 'set')
    c.prove('the values of a copy are written to its place of the original', (len(e) == 1 or sh) and all(x[1] in (orig, vo) and x[2] == cur and x[3] in (vs, o) for x in e))
    c.prove('the part itself is left alone', not any(x[1] in (o, vs) for x in e))


class Rows(Sym):
    'the multi-indices of the entries of an array of this shape that an index selects, one per entry in the order of the index'
    _irr_ = False
    def __init__(self, shape, sel=None, rolled=False, flat=False): self.shape_ = shape; self.sel = sel; self.rolled = rolled; self.flat = flat
    @property
    def ndim(self):
        if self.flat: return 2
        return AxisCount(self)
    def __getitem__(self, i):
        if self.sel is None and isinstance(i, tuple) and i and isinstance(i[0], slice) and i[0] == slice(None): return Rows(self.shape_, i[1:])
        raise Unsupported('index of multi-indices')
    def reshape(self, *sh):
        sh = sh[0] if len(sh) == 1 else sh
        if not self.rolled or tuple(sh) != (-1, len(self.shape_)): raise Unsupported('reshape to %r' % (sh,))
        return Rows(self.shape_, self.sel, True, True)


class AxisCount(Sym):
    _irr_ = False
    def __init__(self, r): self.r = r


class VecC(Sym):
    'a short vector'
    __array_ufunc__ = None
    _irr_ = False
    def __init__(self, l): self.l = l
    def __mul__(self, o):
        if isinstance(o, (list, tuple)) or hasattr(o, 'tolist'): o = VecC([int(y) for y in o])
        if isinstance(o, VecC) and len(o.l) == len(self.l): return VecC([a * b for a, b in zip(self.l, o.l)])
        raise Unsupported('product')
    def __rmul__(self, o): return self * o
    def __getitem__(self, i):
        if isinstance(i, slice): return VecC(self.l[i])
        if isinstance(i, int): return self.l[i]
        raise Unsupported('index')
    def sum(self, *a): return total(self)


def total(v):
    if not isinstance(v, VecC): return NotImplemented
    r = 0
    for x in v.l: r = r + x
    return r


class Positions(Sym):
    _irr_ = False
    def __init__(self, rows, e): self.rows = rows; self.e = e
    def astype(self, t): return self


@contract('C07 C09 C08', ['Param._raveled_index', 'Param._indices', 'Param._raveled_index_for'],
          assumes=['the number of axes is 1, 2, 3 or 4 (their lengths are arbitrary)', 'indices(shape) indexed behind its first axis gives the multi-indices of the selected entries; rollaxis and reshape list them in order; apply_along_axis applies a function to each (numpy)'])
def flat_positions_of_a_part(c):
    K = Pa()
    d = 1 + c.choose(4, 'axes')
    shape = tuple(fresh_int('n%d' % i) for i in range(d))
    for n in shape: c.assume(n.e >= 1)
    x = [fresh_int('i%d' % i) for i in range(d)]
    for a, n in zip(x, shape): c.assume(z3.And(a.e >= 0, a.e < n.e))
    cur = tuple(Opaque('index %d' % i) for i in range(1 + c.choose(2, 'indices')))
    def indices(sh, *a, **k): return Rows(tuple(sh)) if len(sh) == d and all(p is q for p, q in zip(sh, shape)) else (_ for _ in ()).throw(Unsupported('indices of %r' % (sh,)))
    def rollaxis(r, ax, start=0):
        if isinstance(r, Rows) and r.sel is not None and not r.rolled and ax == 0 and isinstance(start, AxisCount): return Rows(r.shape_, r.sel, True)
        raise Unsupported('rollaxis')
    def moveaxis(r, a, b):
        if isinstance(r, Rows) and r.sel is not None and not r.rolled and a == 0 and b == -1: return Rows(r.shape_, r.sel, True)
        raise Unsupported('moveaxis')
    def cumprod(l, *a, **k):
        out = []; r = 1
        for y in (l.l if isinstance(l, VecC) else l): r = r * y; out.append(r)
        return VecC(out)
    def along(f, ax, r, *a, **k):
        if not (isinstance(r, Rows) and r.flat and ax in (1, -1)): raise Unsupported('apply_along_axis')
        return Positions(r, f(VecC(list(x))))
    ident = lambda p, *a, **k: p if isinstance(p, (Positions, VecC)) else NotImplemented
    shim.FUNCS.update(indices=indices, rollaxis=rollaxis, moveaxis=moveaxis, cumprod=cumprod, apply_along_axis=along, asarray=ident, array=ident, sum=lambda v, *a, **k: total(v))
    o = SObj('parameter', K, fields=dict(_realshape_=shape, _realndim_=d, _current_slice_=cur))
    k = c.choose(3, 'which')
    if k == 0: r = K._raveled_index(o); want = cur
    elif k == 1: want = (Opaque('another index'),); r = K._raveled_index(o, want)
    else: r = K._raveled_index_for(o, SObj('part', K, track=False)); want = cur
    if not isinstance(r, Positions): raise Unsupported('%r as positions' % (r,))
    c.prove('one position per selected entry, in the order of the index', r.rows.sel == tuple(want))
    e = x[0].e
    for a, n in zip(x[1:], shape[1:]): e = e * n.e + a.e
    c.prove('the position of an entry in the flat (row by row) array', num(r.e) == e)
    # ... which lies inside the parameter: one axis after the other
    p, q, n, y = (z3.Int(v) for v in 'pqny')
    step = z3.Implies(z3.And(p >= 0, p < q, y >= 0, y < n), z3.And(p * n + y >= 0, p * n + y < q * n))
    c.prove('a position lies inside the parameter', step)
    pos, size = x[0].e, shape[0].e
    for a, k in zip(x[1:], shape[1:]):
        c.assume(z3.substitute(step, (p, pos), (q, size), (n, k.e), (y, a.e)))          # an instance of what was just shown
        pos, size = pos * k.e + a.e, size * k.e
    P_, S_ = z3.Ints('P S')
    c.prove('a position lies inside the parameter', z3.And(pos >= 0, pos < size))


@contract('C24', ['Gradcheckable.checkgrad', 'Gradcheckable._checkgrad', 'Parentable.has_parent'], assumes=['contract of _checkgrad (below), of _highest_parent_'])
def checkgrad_asks_the_root(c):
    from paramz.core.gradcheckable import Gradcheckable as K
    from paramz.core import HierarchyError
    rt_ = Opaque('verdict')
    has = bool(c.choose(2, 'has a parent'))
    rec = lambda s, *a, **k: (c.event('check', s, a, k), rt_)[1]
    root = SObj('root', K, contracts=dict(_checkgrad=rec))
    o = SObj('object', K, fields=dict(_parent_=Opaque('parent') if has else None, _highest_parent_=root) if has else dict(_parent_=None), contracts={} if has else dict(_checkgrad=rec))
    given = {k: Opaque(k) for k, f in zip(('verbose', 'step', 'tolerance', 'df_tolerance'), [c.choose(2, k) for k in ('verbose', 'step', 'tolerance', 'df_tolerance')]) if f}
    if has is False and not given and c.choose(2, 'no likelihood'):
        o = SObj('object', K, fields=dict(_parent_=None))
        try: K.checkgrad(o); ok = False
        except HierarchyError: ok = True
        c.prove('without a model there is nothing to check: refused', ok); return
    r = K.checkgrad(o, **given)
    e = relevant(c, 'check')
    c.prove('the root of the hierarchy is asked, once', len(e) == 1 and e[0][1] is (root if has else o))
    c.prove('its verdict is given', r is rt_)
    for x in e:
        a, k = x[2], x[3]
        c.prove('about this object', arg(a, k, 0, 'param') is o)
        for i, (nm, df) in enumerate((('verbose', 0), ('step', 1e-6), ('tolerance', 1e-3), ('df_tolerance', 1e-12))):
            v = arg(a, k, i + 1, nm, df)
            c.prove('with the %s given' % nm, v is given[nm] if nm in given else (v == df and not isinstance(v, Sym)))


@contract('C17', ['Parameterizable.enable_caching', 'Parameterizable.disable_caching'], assumes=['contract of traverse (C26); contracts of the caches (C17)'])
def caching_of_a_hierarchy(c):
    index.install()
    from paramz.core.parameter_core import Parameterizable as K
    on = bool(c.choose(2, 'enable'))
    def cache(name, irr=False): return SObj(name, None, irr=irr, track=False, contracts=dict(enable_caching=lambda s: c.event('on', s), disable_caching=lambda s: c.event('off', s)))
    n = SObj('a node', K, track=False, fields=dict(cache=cache('its cache')))
    def trav(s, visit, *a, **k): return visit(n, *a, **k)
    o = SObj('node', K, fields=dict(cache=cache('own cache')), contracts=dict(traverse=trav))
    (K.enable_caching if on else K.disable_caching)(o)
    e = relevant(c)
    c.prove('every node of it has its cache switched, and nothing else', [(x[0], x[1]) for x in e] == [('on' if on else 'off', n.cache)])


@contract('C09', ['Transformation.__new__'], assumes=['object.__new__ gives a new object'])
def one_instance_per_kind(c):
    from paramz.transformations import Transformation as T
    st = c.choose(3, 'instance so far')
    class ObjectNew(object):
        _raw_ = True
        def __call__(self, *a, **k):
            if a[:1] != (cls,): raise TypeError('object.__new__(X): X is not this type')
            made.append(SObj('new instance', None, track=False)); made[-1]._shadow()['_cls'] = cls; return made[-1]
    made = []
    cls = SObj('class', None, track=False, base={'__new__': ObjectNew()})
    other = SObj('base class', None, track=False)
    inst = SObj('instance', None, track=False); inst._shadow()['_cls'] = cls if st == 1 else other
    cls.__dict__['_f']['_instance'] = None if st == 0 else inst
    r = T.__new__(cls)
    if st == 1: c.prove('there is one instance', r is inst and not made)
    else: c.prove('the first of its class, whatever its base class has', len(made) == 1 and r is made[0])
    c.prove('it is remembered', cls.__dict__['_f']['_instance'] is r and T.__new__(cls) is r)


@contract('C10', ['ArrayList.index', 'ArrayList.__contains__'])
def place_of_a_child(c):
    from paramz.core.lists_and_dicts import ArrayList
    n = fresh_int('n'); m = fresh_int('m'); c.assume(z3.And(n.e >= 0, m.e >= 0))
    eq = lambda s, o: c.fail('children are told apart by identity, not by value', '')
    obj = lambda nm, irr=False: SObj(nm, None, irr=irr, contracts=dict(__eq__=eq))
    seg = lambda k: Irr(lambda: obj('another child', True), dict(count=lambda e: 1), dict(count=k), 'other children')
    w, x = obj('child'), obj('stranger')
    here = bool(c.choose(2, 'is in the list'))
    seq = WSeq([seg(n)] + ([w] if here else []) + [seg(m)])
    if c.choose(2, 'question'):
        try: r = ArrayList.index(seq, w)
        except ValueError: r = None
        if here: c.prove('a child is found at its place', z3.BoolVal(False) if r is None else num(r) == n.e)
        else: c.prove('others are refused', r is None)
    else:
        c.prove('the children, by identity, are what it contains', ArrayList.__contains__(seq, w) == here)


@contract('C12 C15', ['Param.param_array', 'Param.values', 'ObsAr.values', 'Param.num_params', 'Param._get_original', 'Constrainable._get_original', 'Parameterized.flattened_parameters (of a Param)'], trusted=['ndarray.view(np.ndarray) is the same memory as a plain array'])
def handles_of_a_parameter(c):
    from paramz.param import Param
    from paramz.core.observable_array import ObsAr
    from paramz.core.constrainable import Constrainable
    plain = Opaque('plain view'); org = Opaque('original')
    def view(s, t=None):
        c.prove('seen as a plain array', t is np.ndarray or isinstance(t, shim.NDProxy)); return plain
    for cls in (Param, ObsAr):
        o = SObj('array', cls, contracts=dict(view=view))
        c.prove('the values are the memory of the array itself', [k for k in cls.__mro__ if 'values' in k.__dict__][0].__dict__['values'].fget(o) is plain)
    o = SObj('parameter', Param, fields=dict(_original_=org))
    c.prove('its array is itself', Param.param_array.fget(o) is o)
    c.prove('it has no parameters below it', Param.num_params.fget(o) == 0)
    l = Param.flattened_parameters.fget(o)
    c.prove('it is the only parameter in it', isinstance(l, list) and len(l) == 1 and l[0] is o)
    c.prove('the original of a part is the one it was taken from', Param._get_original(o, SObj('part', Param)) is org)
    i = Opaque('place'); kid = Opaque('child')
    ps = SObj('children', None, contracts=dict(__getitem__=lambda s, j: c.event('get', s, j) or kid))
    n = SObj('node', Constrainable, fields=dict(parameters=ps))
    c.prove('the original of a child is the one at its place', Constrainable._get_original(n, SObj('part', None, fields=dict(_parent_index_=i))) is kid and [e[2] for e in c.trace if e[0] == 'get'] == [i])


@contract('C18 C07', ['Param.parameter_names'])
def names_of_a_parameter(c):
    import paramz.param as M
    nm, pr = Opaque('name'), Opaque('printable name')
    keep = M.adjust_name_for_printing
    def adj(x):
        c.prove('the printable form of its own name', x is nm); return pr
    M.adjust_name_for_printing = adj
    try:
        o = SObj('parameter', M.Param, fields=dict(name=nm))
        for kw in (dict(), dict(recursive=False), dict(add_self=True), dict(add_self=True, recursive=True), dict(intermediate=True)):
            for p in (True, False, None):
                k = dict(kw) if p is None else dict(kw, adjust_for_printing=p)
                r = M.Param.parameter_names(o, **k)
                c.prove('its own name, in the form asked for', isinstance(r, list) and len(r) == 1 and r[0] is (pr if p else nm))
    finally: M.adjust_name_for_printing = keep


@contract('C05', ['Parameterizable.unfixed_param_array'], trusted=['numpy boolean selection keeps the entries where the mask is True, in order'])
def unfixed_values(c):
    from paramz.core.parameter_core import Parameterizable as K
    n = fresh_int('size'); c.assume(n.e >= 0)
    z = fresh_int('fixed entries'); c.assume(z3.And(z.e >= 0, z.e <= n.e))
    class Mask(Sym):
        _irr_ = False
        def __init__(self): self.off = None
        def astype(self, t): 
            if t is not bool: raise Unsupported('type')
            return self
        def __setitem__(self, i, v):
            if i is not fx or v is not False or self.off is not None: raise Unsupported('mask')
            self.off = i
    def ones(k, dtype=float, **x):
        if not c.entails(num(k) == n.e): raise Unsupported('mask of another length')
        return Mask()
    fx = SObj('fixed', None, fields=dict(size=z)); part = Opaque('selected')
    def get(s, m):
        if not isinstance(m, Mask) or m.off is not fx: raise Unsupported('selection')
        return part
    arr = SObj('values', None, contracts=dict(__getitem__=get))
    tab = SObj('constraints', None, contracts=dict(__getitem__=lambda s, k: fx if k == '__fixed__' or k is FIXED_NAME() else Opaque('other')))
    shim.FUNCS['ones'] = ones
    o = SObj('node', K, fields=dict(_param_array_=arr, constraints=tab, size=n))
    r = K.unfixed_param_array.fget(o)
    c.prove('all entries but the fixed ones', z3.If(z.e == 0, z3.BoolVal(r is arr or r is part), z3.BoolVal(r is part)))


def FIXED_NAME():
    from paramz.transformations import __fixed__
    return __fixed__


@contract('C12 C15', ['ObsAr.__new__', 'Param.__new__'], trusted=['np.require gives an array of the dtype asked for (or raises ValueError), in C order and writable if these are required, with the content of the input; np.atleast_1d keeps that; both take a list or an array'])
def creating_an_array(c):
    from paramz.param import Param
    from paramz.core.observable_array import ObsAr
    from paramz.core.lists_and_dicts import ObserverList
    src = SObj('input', [np.ndarray, list][c.choose(2, 'input')]); other = c.choose(2, 'the input are not numbers') == 1
    new = []
    def require(x, dtype=None, requirements=None, **k):
        if x is not src or k: raise Unsupported('require of something else')
        fl = dtype is not None and dtype in (float, np.float64, 'float', 'd', 'f8', 'float64')
        if dtype is not None and not fl: raise Unsupported('another kind of numbers')
        if fl and other: raise ValueError('could not convert')
        req = {str(r).upper() for r in ([] if requirements is None else [requirements] if isinstance(requirements, str) else requirements)}
        names = dict(C_CONTIGUOUS='C', CONTIGUOUS='C', WRITEABLE='W', F_CONTIGUOUS='F', FORTRAN='F')
        return got(fl, {names.get(r, r) for r in req}, False)
    def got(fl, req, atl):
        def view(s, t=None):
            if t is None: return s
            c.prove('numbers are kept as floating point numbers', bool(fl or other))
            c.prove('the memory is in the documented order and can be written', {'C', 'W'} <= req)
            c.prove('it has at least one dimension', atl)
            o = SObj('array', t, fields=dict(shape=(n, m), size=n * m, ndim=2)); new.append(o)
            return o
        return SObj('required', None, fields=dict(how=(fl, req, atl)), contracts=dict(view=view))
    def atleast_1d(*a):
        if len(a) != 1 or not isinstance(a[0], SObj) or 'how' not in a[0]._f: raise Unsupported('atleast_1d')
        fl, req, atl = a[0]._f['how']
        return got(fl, req, True)
    n, m = fresh_int('rows'), fresh_int('columns'); c.assume(z3.And(n.e >= 1, m.e >= 1))
    shim.FUNCS['require'] = require; shim.FUNCS['atleast_1d'] = atleast_1d
    kind = c.choose(3, 'what is made')
    if kind == 2:
        old = SObj('an observable array', ObsAr, fields=dict(observers=ObserverList(), _update_on=True))
        r = ObsAr.__new__(ObsAr, old)
        c.prove('an observable array is used as it is', r is old and not new); return
    if kind == 0: r = ObsAr.__new__(ObsAr, src)
    else: r = Param.__new__(Param, 'name', src)
    c.prove('one array of the class asked for is made', len(new) == 1 and r is new[0] and r._cls is (ObsAr if kind == 0 else Param))
    o = r._lookup('observers', None)
    c.prove('nobody observes it yet', isinstance(o, ObserverList) and o._poc == [] and r._lookup('_update_on', None) is True)
    if kind == 1:
        c.prove('a parameter is its own original', r._lookup('_original_', None) is r)
        sl = r._lookup('_current_slice_', None)
        c.prove('and has its real shape, size and number of dimensions', all(r._lookup(k, None) is not None for k in ('_realshape_', '_realsize_', '_realndim_')) and isinstance(sl, tuple))
        c.prove('and knows its real shape, size and number of dimensions', z3.And(num(r._lookup('_realshape_')[0]) == n.e, num(r._lookup('_realshape_')[1]) == m.e, num(r._lookup('_realsize_')) == num(n * m), z3.BoolVal(len(r._lookup('_realshape_')) == 2 and r._lookup('_realndim_') == 2)))
        c.prove('its slice is all of it', len(sl) == 1 and isinstance(sl[0], slice) and sl[0].step is None and sl[0].start is None and sl[0].stop is n)


@contract('C09', ['Constrainable._read_through', 'Constrainable._write_through'])
def nodes_hold_no_copies(c):
    from paramz.core.constrainable import Constrainable as K
    f = dict(x=Opaque('state'))
    o = SObj('node', K, fields=dict(f))
    K._read_through(o); K._write_through(o)
    c.prove('nothing is read or written: the values of a node are the ones of its parameters', not c.trace and o._f == f)


@contract('C07', ['Parameterizable.num_params', 'Param.num_params'])
def number_of_children(c):
    from paramz import Param
    from paramz.core.parameter_core import Parameterizable as K
    n = vals.fresh_int('children')
    kids = SObj('children', None, contracts=dict(__len__=lambda s: n))
    o = SObj('node', K, fields=dict(parameters=kids))
    c.prove('a node has as many parameters as children', K.num_params.fget(o) is n)
    p = SObj('parameter', Param, fields=dict(parameters=[]))
    c.prove('a parameter has none', Param.num_params.fget(p) == 0)
