"""C13: the observer list and the notification of observers.  Priorities are symbolic reals; the list is seen through a witness
entry with any number of others before and behind it (sorted by descending priority: the representation invariant, kept by add)."""
import z3
from .. import rt, vals, shim
from ..base import contract
from ..rt import Irr
from ..shim import WSeq, SRef
from ..vals import SObj, Opaque, fresh_real, fresh_int, num
from ..wlist import WList

INV = ['the list is sorted by descending priority on entry (kept by add and remove, the only functions that change the order)']


def observer_list():
    from paramz.core.lists_and_dicts import ObserverList
    return ObserverList


def entry_maker(c, rel, p_w, obs=None):
    'an arbitrary entry whose priority is related to the one of the witness'
    def make():
        p = fresh_real('prio')
        if p_w is not None: c.assume(rel(p.e, p_w.e))
        o = Opaque('another observer', irr=True)
        return (p, SRef(o, alive=bool(c.choose(2, 'alive'))), Opaque('another callback', irr=True))
    return make


def setup(c, alive=True):
    p = fresh_real('p_witness'); ob = Opaque('observer'); cb = Opaque('callback')
    w = (p, SRef(ob, alive), cb)
    poc = WList(w, entry_maker(c, lambda a, b: a >= b, p), entry_maker(c, lambda a, b: a <= b, p), 'observers')
    return p, ob, cb, w, poc


def same_entry(x, w): return x is not None and x[0] is w[0] and x[1].x is w[1].x and x[2] is w[2]


@contract('C13', ['ObserverList.add', 'ObserverList.flush'], assumes=INV)
def add_keeps_order(c):
    OL = observer_list()
    alive = bool(c.choose(2, 'witness alive'))
    p, ob, cb, w, poc = setup(c, alive)
    ol = SObj('observer list', OL, fields=dict(_poc=poc))
    # iteration through its contract (observer_list_iteration): flush first, then the live entries in order
    def it(o):
        OL.flush(o)
        v = lambda e: (e[0], e[1](), e[2])
        return [Irr(lambda x=x: v(x.make()), {'count': lambda e: 1}, x.totals, x.label) if isinstance(x, Irr) else v(x) for x in o._poc._iter_()]
    ol._c['__iter__'] = it
    q = fresh_real('p_new'); no = Opaque('new observer'); nc = Opaque('new callback')
    OL.add(ol, q, no, nc)
    r = ol._poc
    c.prove('a dead entry is dropped, a live one kept', (r.w is None) == (not alive) and (not alive or same_entry(r.w, w)))
    c.prove('exactly one entry is added', len(r.log) == 1)
    e = r.log[0]
    c.prove('the entry added is the one asked for', len(e) == 3 and e[0] is q and isinstance(e[1], SRef) and e[1].x is no and e[1].alive and e[2] is nc)
    if alive:
        pos = r.added[id(e)]
        c.prove('behind every entry of the same or a higher priority', z3.Implies(p.e >= q.e, z3.BoolVal(pos == 'after')))
        c.prove('before every entry of a lower priority', z3.Implies(p.e < q.e, z3.BoolVal(pos == 'before')))


@contract('C13', ['ObserverList.flush'])
def flush_drops_the_dead(c):
    OL = observer_list(); alive = bool(c.choose(2, 'witness alive'))
    p, ob, cb, w, poc = setup(c, alive)
    ol = SObj('observer list', OL, fields=dict(_poc=poc))
    OL.flush(ol)
    c.prove('flush drops exactly the dead entries', (same_entry(ol._poc.w, w)) if alive else ol._poc.w is None)


@contract('C13', ['ObserverList.__iter__'])
def observer_list_iteration(c):
    OL = observer_list(); alive = bool(c.choose(2, 'witness alive'))
    p, ob, cb, w, poc = setup(c, alive)
    ol = SObj('observer list', OL, fields=dict(_poc=poc)); c.ghost['generator'] = True
    got = []
    for x in OL.__iter__(ol):
        c.prove('iteration gives triples of priority, observer, callback', isinstance(x, tuple) and len(x) == 3)
        c.prove('the observer is alive', x[1] is not None)
        c.event('yield', x[1], x)
        if not rt.irrelevant(x[1]): got.append(x)
    c.prove('each live entry is given once', len(got) == (1 if alive else 0))
    if got: c.prove('with its priority and callback', got[0][0] is p and got[0][1] is ob and got[0][2] is cb)


@contract('C13', ['ObserverList.remove', 'ObserverList.__getitem__', 'ObserverList.__len__'], assumes=INV)
def remove_is_exact(c):
    OL = observer_list()
    p, ob, cb, w, poc = setup(c)
    # the request agrees with the witness in priority, observer, callback or not
    q = fresh_real('p_removed'); so, sc = bool(c.choose(2, 'same observer')), bool(c.choose(2, 'same callback'))
    o2 = ob if so else Opaque('other observer'); c2 = cb if sc else Opaque('other callback')
    def mk(rel):
        def make():
            pr = fresh_real('prio'); c.assume(rel(pr.e, p.e))
            return (pr, SRef(o2 if c.choose(2, 'o') else Opaque('another observer', irr=True)), c2 if c.choose(2, 'c') else Opaque('another callback', irr=True))
        return make
    poc.before = mk(lambda a, b: a >= b); poc.after = mk(lambda a, b: a <= b)
    ol = SObj('observer list', OL, fields=dict(_poc=poc)); ol._c['flush'] = lambda o: None
    def rng(r):
        'range(n - 1, -1, -1) or range(n): the positions before, at and behind the witness'
        n0 = poc.n0
        def lo():
            j = fresh_int('j'); c.assume(z3.And(j.e >= 0, j.e < poc.n0.e)); return j
        def hi():
            j = fresh_int('j'); c.assume(j.e > poc.n0.e); return j
        if r.step == -1 and r.b == -1:
            a = num(r.a); c.prove('all positions are looked at', a >= n0.e)
            return [Irr(hi, label='positions behind'), n0, Irr(lo, label='positions before', loose=[poc])]
        raise rt.Unsupported('range')
    c.ghost['range'] = rng
    OL.remove(ol, q, o2, c2)
    match = z3.And(p.e == q.e, z3.BoolVal(so and sc))
    poc = ol._poc # in place or a new list
    if not isinstance(poc, WList): raise rt.Unsupported('another kind of list')
    c.prove('an entry is gone if and only if priority, observer and callback are the ones given', match == z3.BoolVal(poc.w is None))
    c.prove('an entry kept is as it was', poc.w is None or same_entry(poc.w, w))
    c.prove('nothing is added', poc.log == [])


# ---------------------------------------------------------------------------------------------------------------

def callbacks(c, alive=True):
    'an observable with two witness registrations, the first before the second'
    from paramz.core.observable import Observable
    p1, p2 = fresh_real('p1'), fresh_real('p2'); c.assume(p1.e >= p2.e)
    def cb(name, irr=False):
        def call(o, *a, **k): c.event('call', o, a, k)
        return SObj(name, None, contracts=dict(__call__=call), irr=irr)
    c1, c2 = cb('callback 1'), cb('callback 2'); o1, o2 = Opaque('observer 1'), Opaque('observer 2')
    def seg(hi, lo):
        def make():
            p = fresh_real('prio')
            if hi is not None: c.assume(p.e <= hi.e)
            if lo is not None: c.assume(p.e >= lo.e)
            return (p, Opaque('another observer', irr=True), cb('another callback', True))
        return Irr(make, label='the other registrations')
    seq = WSeq([seg(None, p1), (p1, o1, c1), seg(p1, p2), (p2, o2, c2), seg(p2, None)])
    obs = SObj('observable', Observable)
    ol = SObj('observer list', None, contracts=dict(__iter__=lambda o: list(seq)))
    obs._f['observers'] = ol
    return obs, (p1, c1), (p2, c2)


@contract('C13 C14', ['Observable.notify_observers'], assumes=INV + ['observers do not change the registrations while they are notified'])
def notify_in_order(c):
    from paramz.core.observable import Observable
    obs, (p1, c1), (p2, c2) = callbacks(c)
    on = bool(c.choose(2, 'on')); obs._f['_update_on'] = on
    which = Opaque('which') if c.choose(2, 'which') else None
    kind = c.choose(3, 'minimum')
    mn = [None, fresh_real('minimum'), -float('inf')][kind]
    Observable.notify_observers(obs, which, mn)
    got = [e for e in c.trace if not rt.irrelevant(e[1])]
    w = obs if which is None else which
    ok = all(e[0] == 'call' and len(e[2]) == 1 and e[2][0] is obs and list(e[3]) == ['which'] and e[3]['which'] is w for e in got)
    c.prove('callbacks get the observable and the element that set it off', ok)
    calls = [e[1] for e in got]
    n1, n2 = sum(x is c1 for x in calls), sum(x is c2 for x in calls)
    c.prove('nobody else is called', n1 + n2 == len(calls))
    if not on: c.prove('nobody is called while updates are off', calls == [])
    else:
        above = lambda p: z3.BoolVal(True) if kind != 1 else p.e > mn.e
        c.prove('every registration above the minimum is called exactly once', z3.And(above(p1) == z3.BoolVal(n1 == 1), above(p2) == z3.BoolVal(n2 == 1)))
        c.prove('no registration is called more often', n1 <= 1 and n2 <= 1)
        if n1 and n2: c.prove('in the order of the list', calls[0] is c1 and calls[1] is c2)


@contract('C13', ['Observable.remove_observer'])
def remove_observer_is_exact(c):
    from paramz.core.observable import Observable
    target = Opaque('observer'); other = Opaque('other observer')
    f = Opaque('callback'); g = Opaque('other callback')
    ow = target if c.choose(2, 'witness observer') else other
    cw = f if c.choose(2, 'witness callback') else g
    p = fresh_real('p')
    def make():
        pr = fresh_real('prio')
        o = Opaque('another observer', irr=True) if c.choose(2, 'o') else target
        k = Opaque('another callback', irr=True) if c.choose(2, 'k') else f
        return rt.IrrTuple((pr, o, k))
    seq = [Irr(make, label='the other registrations'), (p, ow, cw), Irr(make, label='the other registrations')]
    def rem(o, pr, ob, cb):
        mine = pr is p and ob is ow and cb is cw
        c.event('remove', Mine if mine else Opaque('other registration', irr=True))
    ol = SObj('observer list', None, contracts=dict(__iter__=lambda o: list(seq), remove=rem))
    obs = SObj('observable', Observable, fields=dict(observers=ol))
    given = bool(c.choose(2, 'callback given'))
    if given: Observable.remove_observer(obs, target, f)
    elif c.choose(2, 'None'): Observable.remove_observer(obs, target, None)
    else: Observable.remove_observer(obs, target)
    n = sum(e[0] == 'remove' and e[1] is Mine for e in c.trace)
    c.prove('a registration is removed if and only if it is of this observer and, if one is given, of this callback', (n > 0) == (ow is target and (not given or cw is f)))


Mine = Opaque('the witness registration')


@contract('C13', ['Observable.add_observer', 'Observable.change_priority'])
def add_and_change_priority(c):
    from paramz.core.observable import Observable
    log = []
    ol = SObj('observer list', None, contracts=dict(add=lambda o, *a: log.append(('add',) + a)))
    o, f, p = Opaque('observer'), Opaque('callback'), fresh_real('p')
    obs = SObj('observable', Observable, fields=dict(observers=ol))
    Observable.add_observer(obs, o, f, p)
    c.prove('an observer is registered with its callback and priority', len(log) == 1 and log[0][1] is p and log[0][2] is o and log[0][3] is f)
    Observable.add_observer(obs, o, f)
    c.prove('the default priority is zero', len(log) == 2 and log[1][1] == 0 and log[1][2] is o and log[1][3] is f)
    log2 = []
    obs = SObj('observable', Observable, contracts=dict(remove_observer=lambda s, a, b=None: log2.append(('remove', a, b)), add_observer=lambda s, a, b, q=0: log2.append(('add', a, b, q))))
    Observable.change_priority(obs, o, f, p)
    c.prove('changing a priority removes this callback of this observer and registers it again', log2 == [('remove', o, f), ('add', o, f, p)])
