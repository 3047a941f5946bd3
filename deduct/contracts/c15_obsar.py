"""C15: every in-place change of an observable array is announced once, after it was made"""
import numpy as np
from .. import rt, vals, shim
from ..base import contract
from ..vals import SObj, Opaque

INPLACE = sorted(k for k in dir(np.ndarray) if k.startswith('__i') and k.endswith('__') and k not in ('__init__', '__init_subclass__', '__int__', '__index__', '__invert__', '__iter__'))


def array(c, cls, meth, result):
    ops = {}
    def nd(name):
        def f(o, *a, **k):
            c.event('ndarray.' + name, o, a, k)
            if c.choose(2, 'ndarray operation fails'): raise ValueError('operands could not be broadcast')
            return result
        return f
    for k in [meth, '__setitem__']: ops['ndarray.' + k] = nd(k)
    o = SObj('array', cls, fields=dict(), contracts=dict(ops, notify_observers=lambda o, which=None, min_priority=None: c.event('notify', o, which, min_priority)), base={k[8:]: v for k, v in ops.items()})
    return o


def post(c, o, meth, args, r, result, exc):
    t = [e for e in c.trace]
    nd = [e for e in t if e[0].startswith('ndarray.')]
    c.prove('exactly one operation of the plain array, the same one with the same arguments', len(nd) == 1 and nd[0][0] == 'ndarray.' + meth and nd[0][1] is o and len(nd[0][2]) == len(args) and all(x is y for x, y in zip(nd[0][2], args)) and not nd[0][3])
    if exc is None:
        no = [e for e in t if e[0] == 'notify']
        c.prove('observers are notified exactly once, all of them', len(no) == 1 and no[0][1] is o and no[0][3] is None and (no[0][2] is None or no[0][2] is o))
        c.prove('the notification follows the change', bool(t) and t[-1][0] == 'notify')
        if meth != '__setitem__': c.prove('the result of the plain operation is returned', r is result)
    else: c.prove('an error of the plain operation propagates', isinstance(exc, ValueError))


def mk(meth, clsname):
    def fn(c):
        from paramz.core.observable_array import ObsAr
        from paramz.param import Param
        cls = dict(ObsAr=ObsAr, Param=Param)[clsname]
        result = Opaque('result of the plain operation')
        args = (Opaque('index'), Opaque('value')) if meth == '__setitem__' else (Opaque('operand'),)
        own = [k for k in cls.__mro__ if meth in k.__dict__][0]
        c.prove('the operation of the plain array is overridden', own is not np.ndarray and own.__module__.startswith('paramz'))
        if own is np.ndarray: return
        o = array(c, cls, meth, result); r = exc = None
        try: r = own.__dict__[meth](o, *args)
        except ValueError as e: exc = e
        post(c, o, meth, args, r, result, exc)
    fn.__name__ = '%s_%s' % (clsname, meth.strip('_'))
    contract('C15' + (' C14' if meth == '__setitem__' else ''), ['%s.%s' % (clsname, meth)], name=fn.__name__, trusted=['ndarray.%s changes the array as numpy documents it' % meth])(fn)


for _k in INPLACE + ['__setitem__']:
    for _c in ('ObsAr', 'Param'): mk(_k, _c)


@contract('C15', ['ObsAr.__array_wrap__'], trusted=['numpy calls __array_wrap__ for the results of operators and universal functions'])
def results_are_plain(c):
    from paramz.core.observable_array import ObsAr
    from paramz.param import Param
    plain = Opaque('plain view')
    def view(o, t=None):
        c.prove('the result is viewed as a plain array', t is np.ndarray or isinstance(t, shim.NDProxy))
        return plain
    out = SObj('out', ObsAr, contracts=dict(view=view))
    me = SObj('array', ObsAr)
    for cls in (ObsAr, Param):
        f = [k for k in cls.__mro__ if '__array_wrap__' in k.__dict__][0].__dict__['__array_wrap__']
        c.prove('the plain view is what the operation gives', f(me, out, None) is plain)
        c.prove('also without a context', f(me, out) is plain)
        c.prove('the priority never makes numpy give back the observable type', cls.__array_priority__ < 0)


@contract('C15 C12', ['ObsAr.__array_finalize__', 'Param.__array_finalize__'], trusted=['numpy calls __array_finalize__ with the array a view is taken of'])
def views_share_observers(c):
    from paramz.core.observable_array import ObsAr
    from paramz.param import Param
    obs = Opaque('observers'); on = Opaque('switch')
    src = SObj('source', ObsAr, fields=dict(observers=obs, _update_on=on))
    me = SObj('view', ObsAr)
    ObsAr.__dict__['__array_finalize__'](me, src)
    c.prove('a view of an observable array has the same observers and switch', me._lookup('observers', None) is obs and me._lookup('_update_on', None) is on)
    f = dict(observers=obs, _update_on=on, **{k: Opaque(k) for k in ('_parent_', '_parent_index_', '_default_constraint_', '_current_slice_', '_realshape_', '_realsize_', '_realndim_', '_original_', '_name', '_gradient_array_', '_index_operations')})
    src = SObj('source', Param, fields=f)
    me = SObj('view', Param)
    Param.__dict__['__array_finalize__'](me, src)
    for k in f: c.prove('a view of a parameter shares its ' + k, me._lookup(k, None) is f[k])


@contract('C15', ['ObsAr.copy'], trusted=['copy.deepcopy replaces objects by those its memo names (ObsAr.__deepcopy__, exercised by the bounded check)'])
def copies_start_without_observers(c):
    from paramz.core.observable_array import ObsAr
    from paramz.core.lists_and_dicts import ObserverList
    obs = Opaque('observers'); seen = []
    res = Opaque('copy')
    def dc(o, memo): seen.append(dict(memo)); return res
    me = SObj('array', ObsAr, fields=dict(observers=obs), contracts=dict(__deepcopy__=dc))
    r = ObsAr.__dict__['copy'](me)
    c.prove('the copy is what deepcopy gives', r is res and len(seen) == 1)
    new = seen[0].get(id(obs)) if seen else None
    c.prove('the observers are replaced by a new empty list', isinstance(new, ObserverList) and new is not obs and new._poc == [])
