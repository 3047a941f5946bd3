"""C14: update hooks.  The chain for one write is put together from the contracts of the functions below:
a write (Parameterized.__setitem__, the optimizer_array setter, constrain, ObsAr.__setitem__ in C15) stores the values and then triggers;
trigger_update -> _trigger_params_changed -> the not fixed children -> notify_observers (C13) -> at priority -100 the own hook, at -inf the parent."""
import z3
import numpy as np
from .. import rt, vals, shim
from ..base import contract, arg, only
from ..rt import Irr
from ..shim import WSeq
from ..vals import SObj, Opaque, Bound, Prop, SBool, fresh_bool

IND = ['the contract of a child (all its not fixed descendants, then itself) is the induction hypothesis over the finite tree']


def P():
    from paramz.core.parameter_core import Parameterizable
    return Parameterizable


def relevant(c): return [e for e in c.trace if not rt.irrelevant(e[1])]


@contract('C14', ['OptimizationHandlable._trigger_params_changed'], assumes=IND)
def children_before_the_node(c):
    def child(name, irr=False):
        fx = fresh_bool('fixed')
        def trig(o, *a, **k): c.event('trigger', o, a, k, fx)
        o = SObj(name, None, contracts=dict(_trigger_params_changed=trig, is_fixed=Prop(lambda o: fx)), irr=irr)
        return o, fx
    seg = lambda: Irr(lambda: child('some other child', True)[0], label='the other children')
    (a, fa), (b, fb) = child('child 1'), child('child 2')
    o = SObj('node', P(), fields=dict(parameters=WSeq([seg(), a, seg(), b, seg()])), contracts=dict(notify_observers=lambda s, *x, **k: c.event('notify', s, x, k)))
    tp = [True, False, None][c.choose(3, 'trigger parent')]
    if tp is None: P()._trigger_params_changed(o); tp = True
    else: P()._trigger_params_changed(o, tp)
    ev = relevant(c)
    kids = [e for e in ev if e[0] == 'trigger']; own = [e for e in ev if e[0] == 'notify']
    na, nb = sum(e[1] is a for e in kids), sum(e[1] is b for e in kids)
    c.prove('a child that is not fixed is updated once, a fixed one not', z3.And(fa.e == z3.BoolVal(na == 0), fb.e == z3.BoolVal(nb == 0)))
    c.prove('no child more than once, in order', na <= 1 and nb <= 1 and (not (na and nb) or kids[0][1] is a))
    c.prove('children do not call the parent back', all(arg(e[2], e[3], 0, 'trigger_parent', True) is False for e in kids))
    c.prove('the node itself comes last and once', len(own) == 1 and ev[-1] is own[0])
    which = arg(own[0][2], own[0][3], 0, 'which'); mn = arg(own[0][2], own[0][3], 1, 'min_priority')
    c.prove('the parent is told exactly if asked to', (which is None or which is o) and (mn is None if tp else mn == -np.inf))


@contract('C14', ['Updateable.trigger_update'])
def trigger_only_when_on(c):
    on = fresh_bool('on'); init = c.choose(3, 'in init')
    f = dict(); absent = []
    if init == 2: absent = ['_in_init_']
    else: f['_in_init_'] = bool(init)
    from paramz.core.updateable import Updateable
    o = SObj('node', Updateable, fields=f, absent=absent, contracts=dict(update_model=lambda s, *a: c.event('ask', s, a) or on, _trigger_params_changed=lambda s, *a, **k: c.event('trigger', s, a, k)))
    tp = [True, False, None][c.choose(3, 'trigger parent')]
    if tp is None: Updateable.trigger_update(o); tp = True
    else: Updateable.trigger_update(o, tp)
    tr = [e for e in relevant(c) if e[0] == 'trigger']
    ok = init != 1
    c.prove('hooks run if and only if updates are on and the object is not being built', z3.And(on.e, z3.BoolVal(ok)) == z3.BoolVal(len(tr) == 1))
    c.prove('at most once', len(tr) <= 1)
    c.prove('only asks for the switch', all(e[2] in ((), (None,)) for e in relevant(c) if e[0] == 'ask'))
    if tr: c.prove('passes on whether to tell the parent', arg(tr[0][2], tr[0][3], 0, 'trigger_parent', True) is tp)


@contract('C14', ['Updateable.update_model'], assumes=['traverse visits every node of the hierarchy once (C26)', '_highest_parent_ is the root'])
def switch(c):
    from paramz.core.updateable import Updateable
    on = bool(c.choose(2, 'on'))
    w = SObj('some node of the hierarchy', Updateable, fields=dict(_update_on=fresh_bool('before')))
    def traverse(r, visit, *a, **k):
        c.event('traverse', r)
        r0 = len(c.trace)
        visit(w, *a, **k)
    root = SObj('root', None, contracts=dict(traverse=traverse, trigger_update=lambda r, *a, **k: c.event('trigger', r, a, k, w._f['_update_on'])))
    o = SObj('node', Updateable, fields=dict(_highest_parent_=root, _update_on=fresh_bool('own')))
    mode = c.choose(3, 'mode')
    if mode == 0:
        r = Updateable.update_model(o) if c.choose(2, 'default') else Updateable.update_model(o, None)
        c.prove('asking changes nothing', r is o._f['_update_on'] and relevant(c) == [])
        return
    if mode == 1:
        bad = [1, 0, 'on', 1.0][c.choose(4, 'bad')]
        try: Updateable.update_model(o, bad); c.fail('anything but a truth value is refused', 'no exception')
        except AssertionError: c.prove('anything but a truth value is refused', relevant(c) == [])
        return
    Updateable.update_model(o, on)
    ev = relevant(c)
    c.prove('every node of the hierarchy is switched', w._f['_update_on'] is on)
    c.prove('the whole hierarchy is triggered once from the root, after all nodes are switched',
            (not on and [e[0] for e in ev] == ['traverse']) or       # triggering does nothing when updates are off (contract trigger)
            [e[0] for e in ev] == ['traverse', 'trigger'] and ev[1][1] is root and arg(ev[1][2], ev[1][3], 0, 'trigger_parent', True) is True and ev[1][4] is on)


@contract('C14', ['Parameterizable._parameters_changed_notification', 'Parameterizable._pass_through_notify_observers'])
def own_hook_and_pass_through(c):
    o = SObj('node', P(), fields=dict(_optimizer_copy_transformed=True), contracts=dict(parameters_changed=lambda s: c.event('hook', s), notify_observers=lambda s, *a, **k: c.event('notify', s, a, k)))
    me, which = Opaque('me'), Opaque('which')
    if c.choose(2, 'function'):
        P()._parameters_changed_notification(o, me, which=which)
        c.prove('the hook runs once', [e[:2] for e in c.trace] == [('hook', o)])
        c.prove('the optimizer vector is read anew', o._f['_optimizer_copy_transformed'] is False)
    else:
        P()._pass_through_notify_observers(o, me, which=which)
        c.prove('the parent notifies all its observers', len(c.trace) == 1 and c.trace[0][:2] == ('notify', o) and arg(c.trace[0][2], c.trace[0][3], 0, 'which') is which and arg(c.trace[0][2], c.trace[0][3], 1, 'min_priority') is None)


class Reject(Exception): pass


@contract('C14 C12', ['Parameterized.__setitem__'], assumes=['item assignment on the value buffer stores the values (numpy)'])
def node_write_then_update(c):
    from paramz import Parameterized
    val = Opaque('value')
    kind = c.choose(3, 'index'); idx = [slice(None), (1, 2), np.array([0, 2])][kind]
    fail = bool(c.choose(2, 'refused'))
    def setit(a, i, v):
        if fail: raise Reject('shape')
        c.event('store', a, i, v)
    buf = SObj('value buffer', None, contracts=dict(__setitem__=setit))
    o = SObj('node', Parameterized, fields=dict(_model_initialized_=bool(c.choose(2, 'initialized')), param_array=buf), contracts=dict(trigger_update=lambda s, *a, **k: c.event('trigger', s, a, k)))
    none = bool(c.choose(2, 'None'))
    try: Parameterized.__setitem__(o, idx, None if none else val); exc = None
    except Exception as e: exc = e
    ev = c.trace
    if not o._f['_model_initialized_']: c.prove('a node that is not initialized refuses', isinstance(exc, AttributeError) and ev == [])
    elif none: c.prove('assigning None does nothing', exc is None and ev == [])
    elif fail: c.prove('a value that does not fit is refused', isinstance(exc, ValueError) and ev == [])
    else:
        c.prove('the values are stored where asked, then the updates run once', exc is None and [e[0] for e in ev] == ['store', 'trigger'] and ev[0][1] is buf and ev[0][2] is idx and ev[0][3] is val and ev[1][1] is o and arg(ev[1][2], ev[1][3], 0, 'trigger_parent', True) is True)


@contract('C14 C25', ['Parameterized.__setitem__'])
def node_write_by_name(c):
    from paramz import Parameterized
    val = Opaque('value'); name = 'pattern'
    target = SObj('selection', None, contracts=dict(__setitem__=lambda s, i, v: c.event('store', s, i, v)))
    o = SObj('node', Parameterized, fields=dict(_model_initialized_=True), contracts=dict(__getitem__=lambda s, n, *a: c.event('select', s, n) or target))
    Parameterized.__setitem__(o, name, val)
    ev = c.trace
    c.prove('writing by name writes all entries of what the name selects', [e[0] for e in ev] == ['select', 'store'] and ev[0][2] is name and ev[1][1] is target and ev[1][2] == slice(None) and ev[1][3] is val)


@contract('C14', ['Parameterizable._setup_observers', 'Param._setup_observers'])
def default_observers(c):
    from paramz import Param
    cls = Param if c.choose(2, 'class') else P()
    par = SObj('parent', P()) if c.choose(2, 'parent') else None
    o = SObj('node', cls, fields=dict(_parent_=par), contracts=dict(add_observer=lambda s, ob, cb, pr=0: c.event('register', s, ob, cb, pr)))
    cls._setup_observers(o)
    ev = [e[2:] for e in c.trace]; want = []
    own = [e for e in ev if e[0] is o]; up = [e for e in ev if e[0] is not o]
    if cls is not Param: c.prove('a node registers its own hook', len(own) == 1 and own[0][1] == Bound(P()._parameters_changed_notification, o) and own[0][2] > -np.inf)
    else: c.prove('a parameter has no hook of its own', own == [])
    c.prove('the parent is registered last of all', (up == []) if par is None else (len(up) == 1 and up[0][0] is par and up[0][1] == Bound(P()._pass_through_notify_observers, par) and up[0][2] == -np.inf))


@contract('C14', ['Updateable.update_toggle', 'Updateable.toggle_update', 'Observable.set_updates'], assumes=['contract of update_model'])
def toggling(c):
    from paramz.core.updateable import Updateable
    from paramz.core.observable import Observable
    on = bool(c.choose(2, 'on'))
    def um(s, *a, **k):
        v = arg(a, k, 0, 'updates')
        if v is None: return on
        c.event('switch', s, v)
    o = SObj('node', Updateable, contracts=dict(update_model=um))
    [Updateable.update_toggle, Updateable.toggle_update][c.choose(2, 'name')](o)
    c.prove('switched to the other state, once', [e[1:3] for e in relevant(c)] == [(o, not on)])
    p = SObj('observable', Observable)
    Observable.set_updates(p, on)
    c.prove('only its own switch', p.__dict__['_f'] == dict(_update_on=on))
    Observable.set_updates(p)
    c.prove('on, if not said otherwise', p.__dict__['_f'] == dict(_update_on=True))
