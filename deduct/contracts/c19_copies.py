"""C19, C20: what the hooks for copying and pickling hand to Python's own copy and pickle, and what they do with what comes back.
That deepcopy and pickle themselves reproduce everything they are handed is trusted; the composition is checked bounded."""
import z3
from .. import rt, vals, shim, text
from ..base import contract, arg, only
from ..rt import Irr
from ..shim import WSeq
from ..text import SStr
from ..plist import KindName
from ..vals import SObj, Opaque, Bound, Prop, fresh_bool

PY = ['copy.deepcopy and pickle reproduce what they are handed, look objects up in the memo first, and use the hooks of the classes']
REBUILT = ('_param_array_', '_gradient_array_', '_optimizer_copy_', 'logger', 'observers', '_fixes_', 'cache')
NEVER = ('observers', 'cache')


def relevant(c, *kinds): return [e for e in c.trace if not rt.irrelevant(e[1]) and (not kinds or e[0] in kinds)]


class State(vals.Sym):
    'a state as taken from an object'
    def __init__(self, name, of=None): self.name = name; self.of = of
    def _deepcopy_(self, *a):
        rt.ctx().event('deepcopy', self, a)
        return State('copy of ' + self.name, self)
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __hash__(self): return id(self)
    def __getattr__(self, k):
        if k.startswith('__') or k in ('_same_', '_snap_', '_irr_'): raise AttributeError(k)
        raise rt.Unsupported('state.%s' % k)


@contract('C19', ['Pickleable.copy'], assumes=['traverse_parents visits all other nodes above once (C26)'], trusted=PY)
def copying(c):
    from paramz.core.pickleable import Pickleable
    par = SObj('a parent', None, fields=dict(x=Opaque('state of a parent')))
    def other(): return SObj('another parent', None, irr=True)
    grad, fixes = Opaque('gradient'), [Opaque('fixes'), None][c.choose(2, 'fixes')]
    k = SObj('the copy', None, fields=dict(_parent_index_=Opaque('index'), _parent_=None), contracts=dict(_trigger_params_changed=lambda s, *a: c.event('trigger', s, s._f['_parent_index_'])), track=False)
    seen = []
    def deep(s, memo=None):
        c.event('deepcopy', s); seen.append(dict(memo if memo is not None else {})); return k
    def up(s, visit, *a):
        c.event('parents of', s)
        for x in (Irr(other, label='other parents'), par, Irr(other, label='other parents')): visit(x)
    f = dict(gradient=grad, _fixes_=fixes, x=Opaque('state'), _parent_=par, _parent_index_=Opaque('position'))
    o = SObj('node', Pickleable, fields=f, contracts=dict(deepcopy=deep, traverse_parents=up))
    w = SObj('started the copy', None, contracts=dict(traverse_parents=up))
    given = {12345: Opaque('given')} if c.choose(2, 'memo') else None
    keep = dict(given) if given else {}
    which = w if c.choose(2, 'which') else None
    if which is None: r = Pickleable.copy(o) if given is None else Pickleable.copy(o, given)
    else: r = Pickleable.copy(o, given, which)
    c.prove('the node is copied once', len(seen) == 1)
    if len(seen) != 1: return
    m = {a: b for a, b in seen[0].items() if not rt.irrelevant(a)}
    c.prove('no parent goes into the copy', id(par) in m and m[id(par)] is None)
    c.prove('the parents are those of the object that started the copy', [e[1] for e in relevant(c, 'parents of')] == [o if which is None else w])
    c.prove('what was copied already is kept', all(m.get(a) is b for a, b in keep.items()))
    c.prove('nothing else is left out of the copy', set(m) <= {id(par), id(grad), id(fixes)} | set(keep))
    c.prove('the copy comes back, with no place under a parent', r is k and k._f['_parent_index_'] is None)
    tr = relevant(c, 'trigger')
    c.prove('everything derived is brought up to date on the copy', len(tr) >= 1 and all(e[1] is k for e in tr) and tr[-1][2] is None)
    c.prove('the node copied stays as it is', o._f == f and par._f['x'].name == 'state of a parent')


@contract('C19', ['Parameterized.copy'], assumes=['contract of Pickleable.copy (copying)'], trusted=PY)
def copying_a_node(c):
    from paramz import Parameterized
    from paramz.core.pickleable import Pickleable
    ev = lambda k: (lambda s, *a: c.event(k, s))
    k = SObj('the copy', None, contracts={n: ev(n) for n in ('_connect_parameters', '_connect_fixes', '_notify_parent_change')})
    pa, oa = Opaque('flat array'), Opaque('optimizer vector')
    seen = []
    def up(s, memo=None, which=None): seen.append((dict(memo) if memo is not None else {}, which)); c.event('copy', s); return k
    o = SObj('node', Parameterized, fields=dict(param_array=pa, optimizer_array=oa), base=dict(copy=up))
    given = {12345: Opaque('given')} if c.choose(2, 'memo') else None
    keep = dict(given) if given else {}
    r = Parameterized.copy(o) if given is None else Parameterized.copy(o, given)
    c.prove('copied once, by the general rule', len(seen) == 1 and seen[0][1] in (None, o))
    if len(seen) != 1: return
    m = seen[0][0]
    c.prove('what was copied already is kept', all(m.get(a) is b for a, b in keep.items()))
    c.prove('nothing else is left out of the copy than the flat arrays', set(m) <= {id(pa), id(oa)} | set(keep) and all(m[x] is None for x in (id(pa), id(oa)) if x in m))
    names = [e[0] for e in relevant(c) if e[1] is k]
    c.prove('the memory, the fixes and the parents of the copy are set up anew', set(names) >= {'_connect_parameters', '_connect_fixes', '_notify_parent_change'})
    c.prove('the copy comes back', r is k)


@contract('C19', ['Pickleable.__deepcopy__', 'ObsAr.__deepcopy__', 'Param.__deepcopy__'], trusted=PY + ['ndarray.copy gives memory of its own with the same values'])
def deep_copy_hook(c):
    from paramz.core.pickleable import Pickleable
    from paramz.core.observable_array import ObsAr
    from paramz import Param
    kind = c.choose(3, 'class')
    cls = [Pickleable, ObsAr, Param][kind]
    st = State('state')
    order = []
    def setstate(s, x): c.event('setstate', s, x)
    s_new = SObj('fresh instance', cls, contracts=dict(__setstate__=setstate), track=False)
    made = []
    def new(s, *a, **k): made.append((a, k)); return s_new
    data = Opaque('copy of the values')
    memo = {12345: Opaque('given')}
    when = []
    def getstate(s): c.event('getstate', s); when.append(memo.get(id(s))); return st
    plain = SObj('plain view', None, contracts=dict(copy=lambda s: data))
    o = SObj('object', cls, fields=dict(name=text.fresh('name')), contracts=dict(__getstate__=getstate, __new__=new, view=lambda s, t: plain))
    keep = Pickleable.__setstate__
    try:
        Pickleable.__setstate__ = setstate
        r = cls.__deepcopy__(o, memo)
    finally: Pickleable.__setstate__ = keep
    c.prove('one fresh instance of the same class comes back', r is s_new and len(made) == 1 and made[0][0][:1] == (cls,))
    dc = relevant(c, 'deepcopy')
    c.prove('the state of the object is copied once, with the memo', len(dc) == 1 and dc[0][1] is st and len(dc[0][2]) == 1 and dc[0][2][0] is memo)
    ss = relevant(c, 'setstate')
    c.prove('the fresh instance gets the copied state', len(ss) == 1 and ss[0][1] is s_new and isinstance(ss[0][2], State) and ss[0][2].of is st)
    c.prove('references to the object inside it become references to the copy', memo.get(id(o)) is s_new and len(memo) == 2)
    if kind: 
        a, k = made[0]
        got = k.get('input_array', a[1 if kind == 1 else 2] if len(a) > (1 if kind == 1 else 2) else None)
        c.prove('the values are copied', got is data)
    if kind == 2: c.prove('under the same name', k.get('name', a[1] if len(a) > 1 else None) is o._f['name'])


@contract('C19 C15', ['ObsAr.copy'], trusted=PY)
def copying_an_array(c):
    from paramz.core.observable_array import ObsAr
    obs = Opaque('observers'); k = Opaque('copy'); seen = []
    o = SObj('array', ObsAr, fields=dict(observers=obs), contracts=dict(__deepcopy__=lambda s, m=None: seen.append(m) or k))
    r = ObsAr.copy(o)
    c.prove('a copy comes back', r is k and len(seen) == 1)
    m = seen[0] if seen and isinstance(seen[0], dict) else {}
    c.prove('the observers of the array do not go with it', m.get(id(obs), obs) is not obs and getattr(m.get(id(obs)), '_poc', None) == [])


@contract('C19', ['Param.copy'], assumes=['contract of Pickleable.copy (copying)'], trusted=PY)
def copying_a_parameter(c):
    from paramz import Param
    from paramz.core.pickleable import Pickleable
    k = Opaque('copy'); seen = []
    o = SObj('parameter', Param, fields=dict(name=text.fresh('name')))
    keep = Pickleable.copy
    def general(s, memo=None, which=None): seen.append((s, memo, which)); return k
    try:
        Pickleable.copy = general
        r = Param.copy(o)
    finally: Pickleable.copy = keep
    c.prove('copied once, by the general rule, with nothing left out beforehand', len(seen) == 1 and seen[0][0] is o and not seen[0][1])
    c.prove('the parents above the parameter are the ones left out', len(seen) == 1 and seen[0][2] in (None, o))
    c.prove('the copy comes back', r is k)


class WDict(vals.Sym):
    """a dictionary of which one entry, under any one name, is looked at"""
    def __init__(self): self.put = []; rt.ctx().tracked.append(self)
    def _snap_(self): return list(self.put)
    def __setitem__(self, k, v):
        if rt.irrelevant(k): return
        self.put.append((k, v))
    def __getitem__(self, k): raise rt.Unsupported('lookup')
    def __contains__(self, k): raise rt.Unsupported('lookup')


@contract('C20 C19', ['Pickleable.__getstate__'])
def state_of_an_object(c):
    from paramz.core.pickleable import Pickleable
    name = text.fresh('attribute name'); v = Opaque('value')
    class Other(vals.Opaque):
        'any other name: may be one that is left out or not'
        def __init__(s): vals.Opaque.__init__(s, 'other name', True); s_.append(s)
        def __eq__(s, o):
            if s is o: return True
            return c.choose(2, 'other name') == 1 if isinstance(o, str) else False
        __hash__ = vals.Opaque.__hash__
    s_ = []
    items = lambda: WSeq([Irr(lambda: rt.IrrTuple((Other(), Opaque('value', True))), label='other attributes'), (name, v), Irr(lambda: rt.IrrTuple((Other(), Opaque('value', True))), label='other attributes')])
    class D(vals.Sym):
        def items(s): return items()
        def copy(s): raise rt.Unsupported('copy of the attributes')
    made = []
    old = shim.PDClass.__dict__['b_dict']
    def new_dict(*a, **k):
        if a or k: raise rt.Unsupported('dict(...)')
        made.append(WDict()); return made[-1]
    o = SObj('object', Pickleable, contracts={'__dict__': D()})
    shim.PDClass.b_dict = staticmethod(new_dict)
    try: r = Pickleable.__getstate__(o)
    finally: shim.PDClass.b_dict = old
    if not isinstance(r, WDict): raise rt.Unsupported('state of another kind')
    n = len(r.put)
    never = z3.Or([name.e == z3.StringVal(x) for x in NEVER]); rebuilt = z3.Or([name.e == z3.StringVal(x) for x in REBUILT])
    c.prove('every attribute is kept under its name unless it is built anew on loading', z3.Or(rebuilt, z3.BoolVal(n == 1 and r.put[0][0] is name and r.put[0][1] is v)))
    c.prove('observers and caches are not kept', z3.Or(z3.Not(never), z3.BoolVal(n == 0)))


@contract('C20 C19', ['Pickleable.__setstate__'])
def state_set(c):
    from paramz.core.pickleable import Pickleable
    import paramz.core.lists_and_dicts as L, paramz.caching as C
    st = Opaque('state')
    class D(vals.Sym):
        def update(s, x): c.event('update', o, x)
        def __getattr__(s, k): raise rt.Unsupported('__dict__.%s' % k)
    def setup(s): c.event('setup', s, s._f.get('observers'))
    o = SObj('object', Pickleable, fields={}, contracts={'__dict__': D(), '_setup_observers': setup}, track=False)
    Pickleable.__setstate__(o, st)
    ev = relevant(c)
    c.prove('the attributes of the state are taken over first', [e[0] for e in ev] == ['update', 'setup'] and ev[0][2] is st)
    ob = o._f.get('observers')
    c.prove('an empty list of observers, then the standard ones', isinstance(ob, L.ObserverList) and ob._poc == [] and len(ev) == 2 and ev[1][2] is ob)
    c.prove('an empty cache', isinstance(o._f.get('cache'), C.FunctionCache) and len(o._f['cache']) == 0 and o._f['cache'].caching_enabled is True)
    c.prove('the optimizer vector is read anew', o._f.get('_optimizer_copy_transformed') is False)


@contract('C20 C19', ['Parameterized.__setstate__'], assumes=['contracts of the parts: state_set, connect (C12), _connect_fixes (C08), _notify_parent_change (C11)'])
def state_of_a_node_set(c):
    from paramz import Parameterized
    st = Opaque('state')
    ev = lambda k: (lambda s, *a: c.event(k, s, *a))
    o = SObj('node', Parameterized, contracts={n: ev(n) for n in ('_connect_parameters', '_connect_fixes', '_notify_parent_change', 'parameters_changed')}, base={'__setstate__': ev('super')})
    Parameterized.__setstate__(o, st)
    names = [e[0] for e in relevant(c)]
    c.prove('the state comes first', names[:1] == ['super'] and relevant(c)[0][2] is st)
    c.prove('memory, fixes and parents are set up, the hook runs last', sorted(names[1:]) == ['_connect_fixes', '_connect_parameters', '_notify_parent_change', 'parameters_changed'] and names[-1] == 'parameters_changed')


@contract('C20', ['Indexable.__setstate__'])
def annotations_set(c):
    from paramz.core.indexable import Indexable
    st = Opaque('state'); tab = Opaque('table')
    ev = lambda k: (lambda s, *a: c.event(k, s, *a))
    class Ops(vals.Sym):
        def _iter_(s): return [Irr(lambda: Opaque('other kind', True), label='other kinds'), KIND, Irr(lambda: Opaque('other kind', True), label='other kinds')]
        def __getitem__(s, n): return tab if n is KIND else Opaque('other table', True)
        def items(s): return WSeq([Irr(lambda: rt.IrrTuple((Opaque('other kind', True), Opaque('other table', True))), label='other kinds'), (KIND, tab), Irr(lambda: rt.IrrTuple((Opaque('other kind', True), Opaque('other table', True))), label='other kinds')])
    KIND = KindName()
    def add(s, n, t): c.event('add_io', n, t)
    o = SObj('node', Indexable, fields=dict(_index_operations=Ops()), contracts=dict(_add_io=add), base={'__setstate__': lambda s, x: c.event('super', s, x)})
    Indexable.__setstate__(o, st)
    c.prove('every kind of annotation is there under its name again, with its table', [e[0] for e in relevant(c)] == ['super', 'add_io'] and relevant(c)[0][2] is st and relevant(c)[1][1] is KIND and relevant(c)[1][2] is tab)


@contract('C20', ['ObsAr.__reduce__', 'ObsAr.__setstate__'], trusted=PY + ['ndarray.__reduce__ and ndarray.__setstate__ keep the values'])
def pickling_an_array(c):
    from paramz.core.observable_array import ObsAr
    from paramz.core.pickleable import Pickleable
    f, a, s, st = Opaque('function'), Opaque('arguments'), Opaque('array state'), State('state')
    k1, k2 = Pickleable.__getstate__, Pickleable.__setstate__
    try:
        Pickleable.__getstate__ = lambda o: c.event('getstate', o) or st
        Pickleable.__setstate__ = lambda o, x: c.event('setstate', o, x)
        o = SObj('array', ObsAr, base={'__reduce__': lambda o: (f, a, s)}, contracts={'ndarray.__setstate__': lambda o, x: c.event('array', o, x)})
        r = ObsAr.__reduce__(o)
        c.prove('made by numpy, from the array state and the other attributes', isinstance(r, tuple) and len(r) == 3 and r[0] is f and r[1] is a)
        n = len(c.trace)
        p = SObj('loaded', ObsAr, contracts={'ndarray.__setstate__': lambda o, x: c.event('array', o, x)})
        ObsAr.__setstate__(p, r[2])
        ev = c.trace[n:]
        c.prove('loading sets the array state, then the attributes', [e[0] for e in ev] == ['array', 'setstate'] and all(e[1] is p for e in ev) and ev[0][2] is s and ev[1][2] is st)
    finally: Pickleable.__getstate__, Pickleable.__setstate__ = k1, k2


@contract('C20', ['Pickleable.pickle'], trusted=PY)
def saving(c):
    from paramz.core.pickleable import Pickleable
    import pickle
    path = bool(c.choose(2, 'path'))
    class F(object):
        def __enter__(s): c.event('open', o); return s
        def __exit__(s, *a): c.event('close', o)
    fobj = F(); where = text.fresh('path') if path else SObj('open file', None)
    if not path: where._shadow()['_isinst'] = lambda k: False
    import builtins
    o = SObj('node', Pickleable)
    prot = [None, 2][c.choose(2, 'protocol')]
    opened = []
    class Pick(object):
        def dump(s, x, f, *a, **k): c.event('dump', x, f, a[0] if a else k.get('protocol'))
        def __getattr__(s, k): raise rt.Unsupported('pickle.%s' % k)
    keep = shim.MODULES.get('pickle'); g = Pickleable.pickle.__globals__; had = 'open' in g
    shim.MODULES['pickle'] = Pick(); g['open'] = lambda n, m='r': opened.append((n, m)) or fobj
    try: Pickleable.pickle(o, where) if prot is None else Pickleable.pickle(o, where, prot)
    finally:
        del shim.MODULES['pickle']; del g['open']
    d = [e for e in c.trace if e[0] == 'dump']
    c.prove('the object is written once, in the protocol asked for (the newest, if none)', len(d) == 1 and d[0][1] is o and d[0][3] in ((-1, pickle.HIGHEST_PROTOCOL) if prot is None else (prot,)))
    if path: c.prove('into the file of that name, opened for writing bytes and closed again', len(opened) == 1 and opened[0][0] is where and opened[0][1] == 'wb' and [e[0] for e in c.trace] == ['open', 'dump', 'close'] and d[0][2] is fobj)
    else: c.prove('into the file given, which stays open', opened == [] and len(d) == 1 and d[0][2] is where)


@contract('C20', ['load', '_unpickle'], trusted=PY)
def loading(c):
    import paramz
    path = bool(c.choose(2, 'path'))
    class F(object):
        def __enter__(s): c.event('open', s); return s
        def __exit__(s, *a): c.event('close', s)
    fobj = F(); where = text.fresh('path') if path else SObj('open file', None)
    if not path: where._shadow()['_isinst'] = lambda k: False
    m = Opaque('model'); opened = []
    class Pick(object):
        def load(s, f, *a, **k): c.event('load', f); return m
        def __getattr__(s, k): raise rt.Unsupported('pickle.%s' % k)
    g = paramz.load.__globals__
    shim.MODULES['pickle'] = Pick(); g['open'] = lambda n, mo='r': opened.append((n, mo)) or fobj
    try: r = paramz.load(where)
    finally: del shim.MODULES['pickle']; del g['open']
    ld = [e for e in c.trace if e[0] == 'load']
    c.prove('what was saved comes back', r is m and len(ld) == 1)
    if path: c.prove('from the file of that name, opened for reading bytes and closed again', len(opened) == 1 and opened[0][0] is where and opened[0][1] == 'rb' and [e[0] for e in c.trace] == ['open', 'load', 'close'] and ld[0][1] is fobj)
    else: c.prove('from the file given, which stays open', opened == [] and ld[0][1] is where)


@contract('C20 C09', ['Logistic.__reduce__'], trusted=PY, assumes=['contract of Logistic.__new__: one instance for equal bounds'])
def pickling_a_bounded_constraint(c):
    from paramz.transformations import Logistic
    lo, up, d, made = Opaque('lower'), Opaque('upper'), Opaque('dict'), Opaque('the instance for these bounds')
    cls = SObj('class', None, contracts=dict(__call__=lambda s, *a, **k: c.event('make', s, a, k) or made), track=False)
    o = SObj('constraint', Logistic, fields=dict(lower=lo, upper=up), contracts=dict(__dict__=d, __class__=Prop(lambda s: Logistic)), track=False)
    r = Logistic.__reduce__(o)
    c.prove('loading asks for the instance of the same class for the same bounds', isinstance(r, tuple) and len(r) >= 2 and r[0] is Logistic and tuple(r[1]) == (lo, up))
    c.prove('with the same state', len(r) == 2 or r[2] is d)


@contract('C20', ['Parameterizable.__setstate__'])
def state_of_a_parameter_set(c):
    from paramz.core.parameter_core import Parameterizable as K
    st = Opaque('state')
    o = SObj('node', K, contracts=dict(__class__=Prop(lambda s: K)), base={'__setstate__': lambda s, x: c.event('super', s, x)})
    K.__setstate__(o, st)
    c.prove('the state is set, once', [e[:3] for e in c.trace] == [('super', o, st)])


@contract('C20', ['Cacher.__getstate__', 'Cacher.__setstate__'])
def caches_are_not_pickled(c):
    from paramz.caching import Cacher
    import pickle
    o = SObj('cache', Cacher, fields=dict(operation=Opaque('function')))
    for f in (Cacher.__getstate__, Cacher.__setstate__):
        try: f(o); ok = False
        except pickle.PickleError: ok = True
        c.prove('refused', ok)
    c.prove('nothing happens', not c.trace)


class Operation(vals.Sym):
    'an operation that is cached, with the object it is a method of'
    def __init__(self, of=None): self.of = of
    def __deepcopy__(self, memo=None):
        r = Operation(self); rt.ctx().event('deepcopy', self, memo, r)
        return r
    def _deepcopy_(self, memo=None): return self.__deepcopy__(memo)
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __hash__(self): return id(self)
    def __getattr__(self, k):
        if k.startswith('__') or k in ('_same_', '_snap_', '_irr_', '_copy_'): raise AttributeError(k)
        raise rt.Unsupported('operation.%s' % k)


@contract('C19', ['Cacher.__deepcopy__'], assumes=['contract of Cacher.__init__ (C16): an empty cache of the operation given'], trusted=PY + ['copy.deepcopy of a bound method is the method of the copy of its object'])
def copying_a_cache(c):
    from paramz.caching import Cacher
    op = Operation()
    limit, ign, force = Opaque('limit'), Opaque('ignored arguments'), Opaque('forcing keywords')
    f = dict(operation=op, limit=limit, ignore_args=ign, force_kwargs=force, cacher_enabled=c.choose(2, 'enabled') == 1)
    o = SObj('cache', Cacher, fields=dict(f), contracts=dict(__class__=Prop(lambda s: Cacher)))
    made = []
    def init(s, *a, **k): made.append((s, a, k))
    memo = {12345: Opaque('given')}
    keep = Cacher.__init__
    try:
        Cacher.__init__ = init
        r = Cacher.__deepcopy__(o, memo)
    finally: Cacher.__init__ = keep
    c.prove('one cache of its own comes back', len(made) == 1 and r is made[0][0] and type(r) is Cacher)
    if len(made) != 1: return
    names = ['operation', 'limit', 'ignore_args', 'force_kwargs', 'cacher_enabled']
    got = dict(zip(names, made[0][1])); got.update(made[0][2])
    dc = relevant(c, 'deepcopy')
    c.prove('the operation is copied once, with the memo', len(dc) == 1 and dc[0][1] is op and dc[0][2] is memo)
    c.prove('it computes with the copied operation', len(dc) == 1 and got.get('operation') is dc[0][3])
    c.prove('with the same limit, arguments ignored and forcing keywords', got.get('limit') is limit and got.get('ignore_args') is ign and got.get('force_kwargs') is force)
    c.prove('the cache copied stays as it is', o._f == f)
