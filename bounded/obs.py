"""C13: histories of registrations and notifications against a list model; C15: observable arrays against plain numpy."""
import random, hashlib, gc, operator
import numpy as np
from paramz.core.observable import Observable
from paramz.core.observable_array import ObsAr
from paramz.core.lists_and_dicts import ObserverList
from paramz import Param, Parameterized


class Bad(Exception):
    pass


class O(object):
    """an observer: its callbacks are functions that do not keep it alive"""
    def __init__(self, name): self.name = name
    def __eq__(self, other): return isinstance(other, O)      # equal but not identical observers must be told apart
    def __hash__(self): return 1


class A(ObsAr):
    """an observer which is an array (comparison is elementwise)"""
    pass


def observable(rng):
    k = rng.choice(['plain', 'arr', 'param', 'node'])
    if k == 'plain': return Observable()
    if k == 'arr': return ObsAr(np.arange(3.))
    if k == 'param': return Param('p', np.arange(2.))
    return Parameterized('n')


def case(prop, seed, n=None):
    rng = random.Random('%s/%d' % (prop, seed))
    log = []; k = 0; viol = None
    try:
        for _ in range(n or (12 if prop == 'C13' else 30)): k += (observers if prop == 'C13' else arrays)(rng, log)
    except Bad as e:
        viol = dict(what=str(e), detail=[], seed=seed, history=[str(x) for x in log[-40:]])
    except Exception as e:
        import traceback
        viol = dict(what='%s: %s after %r' % (type(e).__name__, e, log[-1:]), detail=[traceback.format_exc()[-600:]], seed=seed, history=[str(x) for x in log[-40:]])
    return dict(n=k, key=hashlib.sha1(repr(log).encode()).hexdigest(), viol=viol, other=None, sample=[str(x) for x in log[:5]])


PRIOS = [0, 0, 1, -1, 2.5, -100, 7, -np.inf, np.inf, 1e-9]


def observers(rng, log):
    ob = observable(rng)
    calls = []
    model = []                # (priority, observer key, callback key) in calling order
    # registrations which exist from the start (a node listens to itself)
    pre = [(p, o, c) for p, o, c in ob.observers]
    def mk(name):
        def cb(me, which=None): calls.append((name, me, which))
        cb.__name__ = name
        return cb
    cbs = dict((i, mk('c%d' % i)) for i in range(4))
    obs = {}; cnt = [0]
    def new():
        k = 'o%d' % cnt[0]; cnt[0] += 1
        obs[k] = A(np.ones(2)) if rng.random() < .3 else O(k)
        return k
    def addm(p, o, c):
        i = 0
        while i < len(model) and not p > model[i][0]: i += 1
        model.insert(i, (p, o, c))
    pre_keys = {}
    for p, o, c in pre: model.append((p, id(o), 'pre')); pre_keys[id(o)] = c
    on = True
    for _ in range(rng.randint(4, 14)):
        op = rng.choice(['add', 'add', 'add', 'remove', 'removeall', 'prio', 'notify', 'notify', 'min', 'min', 'die', 'updates', 'list'])
        live = [k for k in obs]
        if op == 'add':
            k = rng.choice(live) if live and rng.random() < .5 else new()
            c = rng.randrange(4); p = rng.choice(PRIOS)
            if any(o == k and cc == c and pp == p for pp, o, cc in model) and rng.random() < .5: continue
            log.append(('add', k, c, p))
            if p == 0 and rng.random() < .5: ob.add_observer(obs[k], cbs[c])
            else: ob.add_observer(obs[k], cbs[c], p)
            addm(p, k, c)
        elif op in ('remove', 'removeall', 'prio'):
            if not live: continue
            k = rng.choice(live); c = rng.randrange(4)
            mine = [x for x in model if x[1] == k]
            if mine and rng.random() < .8: c = rng.choice(mine)[2]
            log.append((op, k, c))
            if op == 'remove':
                ob.remove_observer(obs[k], cbs[c]); model[:] = [x for x in model if not (x[1] == k and x[2] == c)]
            elif op == 'removeall':
                ob.remove_observer(obs[k]); model[:] = [x for x in model if x[1] != k]
            else:
                if sum(1 for x in mine if x[2] == c) != 1: continue
                p = rng.choice(PRIOS); log[-1] += (p,)
                ob.change_priority(obs[k], cbs[c], p)
                model[:] = [x for x in model if not (x[1] == k and x[2] == c)]; addm(p, k, c)
        elif op == 'die':
            if not live: continue
            k = rng.choice(live); log.append(('die', k)); del obs[k]; gc.collect(0)
            model[:] = [x for x in model if x[1] != k]
        elif op == 'updates':
            on = rng.random() < .5; log.append(('updates', on)); ob.set_updates(on)
        elif op == 'list':
            got = [(p, o) for p, o, c in ob.observers]
            if len(got) != len(model) or len(ob.observers) != len(model): raise Bad('%d registrations, expected %d' % (len(got), len(model)))
            for (p, o), (pp, k, c) in zip(got, model):
                if p != pp or not (o is obs.get(k) or id(o) == k): raise Bad('registrations are %r, expected %r' % (got, model))
            got = o = None
        else:
            del calls[:]
            which = rng.choice([None, ob, 'other'])
            m = None
            if op == 'min': m = rng.choice(PRIOS); ob.notify_observers(which, m) if rng.random() < .5 else ob.notify_observers(which=which, min_priority=m)
            elif which is None and rng.random() < .5: ob.notify_observers()
            else: ob.notify_observers(which)
            log.append(('notify', which if isinstance(which, str) else which is not None, m))
            want = [c for p, k, c in model if (m is None or p > m) and c != 'pre'] if on else []
            got = [int(n[1:]) for n, me, w in calls]
            if got != want: raise Bad('notification (min priority %r, updates %r) called %r, expected %r; registrations %r' % (m, on, got, want, model))
            for n, me, w in calls:
                if me is not ob: raise Bad('callback got %r as notifier' % (me,))
                if w is not (ob if which is None else which): raise Bad('callback got which=%r, expected %r' % (w, which))
    return 1


# ------------------------------------------------------------------ arrays
IOPS_F = ['__iadd__', '__isub__', '__imul__', '__itruediv__', '__ifloordiv__', '__imod__', '__ipow__']
IOPS_I = IOPS_F[:3] + ['__ifloordiv__', '__imod__', '__ilshift__', '__irshift__', '__iand__', '__ior__', '__ixor__']
BIN = [operator.add, operator.sub, operator.mul, operator.truediv, np.maximum, operator.pow, operator.lt, operator.ge, np.add]
UN = [np.exp, np.sqrt, operator.neg, np.abs, lambda x: x.sum(), lambda x: x.mean(), lambda x: x.sum(axis=0), np.add.accumulate]


def index(rng, sh):
    from .world import gen_idx, mkidx
    d = gen_idx(rng, sh); return d, mkidx(d)


def arrays(rng, log):
    with np.errstate(all='ignore'): return arrays_(rng, log)


def arrays_(rng, log):
    sh = rng.choice([(3,), (1,), (2, 3), (3, 2), (2, 2, 2)])
    ints = rng.random() < .3
    n = int(np.prod(sh))
    base = np.array([rng.randint(1, 9) for _ in range(n)]).reshape(sh) if ints else np.array([rng.uniform(.5, 4) for _ in range(n)]).reshape(sh)
    if ints:
        a = base.copy().view(ObsAr); Observable.__init__(a)
    elif rng.random() < .6: a = ObsAr(base.copy())
    else: a = Param('p', base.copy())
    ref = base.copy()
    odd = not ints and rng.random() < .15      # values at which operations have no finite result
    if not np.array_equal(np.asarray(a), ref): raise Bad('construction changes the values')
    seen = []
    who = O('o')
    def cb(me, which=None): seen.append((me, np.array(a), np.array(me)))
    a.add_observer(who, cb)
    cnt = 0
    for _ in range(rng.randint(2, 6)):
        op = rng.choice(['set', 'set', 'iop', 'iop', 'view', 'viewiop', 'arith', 'arith', 'copy', 'values', 'nested'])
        del seen[:]
        cnt += 1
        if op == 'set':
            d, s = index(rng, sh); sub = ref[s]
            v = np.array([rng.randint(1, 9) if ints else rng.uniform(.5, 4) for _ in range(np.size(sub))]).reshape(np.shape(sub))
            if rng.random() < .3: v = 2
            if odd: v = rng.choice([0., -1., np.nan, np.inf, -np.inf, v])
            if rng.random() < .2: v = ObsAr(np.array(v, float)) if not ints else v
            log.append(('set', d)); a[s] = v; ref[s] = v; times = 1
        elif op == 'nested':
            d, s = index(rng, sh)
            if np.ndim(ref[s]) == 0: continue
            # a[s] += v: the in-place operator on the slice, then the item assignment
            log.append(('a[s] += v', d)); a[s] += 1; ref[s] += 1; times = None
        elif op == 'iop':
            name = rng.choice(IOPS_I if ints else IOPS_F)
            v = rng.choice([2, 3, 1]) if rng.random() < .6 else np.array([rng.choice([1, 2, 3]) for _ in range(n)]).reshape(sh)
            if name in ('__itruediv__',) and ints: continue
            if odd: v = rng.choice([0., -1., .5, np.nan, np.inf, v])
            if sh == (2, 2, 2) and hasattr(np.ndarray, '__imatmul__') and rng.random() < .3:
                name = '__imatmul__'; v = np.array([rng.choice([1, 2, 3]) for _ in range(n)]).reshape(sh)
            log.append(('iop', name))
            try: getattr(ref.copy(), name)(v)
            except ValueError: continue
            r = getattr(a, name)(v); getattr(ref, name)(v); times = 1
            if not np.array_equal(np.asarray(r), ref, equal_nan=True): raise Bad('%s returns %r, expected %r' % (name, r, ref))
        elif op in ('view', 'viewiop'):
            b = rng.choice([lambda x: x[:], lambda x: x[1:] if sh[0] > 1 else x[:], lambda x: x[::2], lambda x: x.T if isinstance(x, (ObsAr,)) and not isinstance(x, Param) else x[:], lambda x: x[:][:1],
                            lambda x: x.reshape(-1) if not isinstance(x, Param) else x[:]])
            try: va, vr = b(a), b(ref)
            except Exception: continue
            log.append((op, va.shape))
            if op == 'view': va[...] = 3; vr[...] = 3
            else: va += 1; vr += 1
            times = 1
        elif op == 'arith':
            if rng.random() < .6:
                f = rng.choice(BIN); o = rng.choice([2, ref.copy(), a, ObsAr(np.asarray(ref, float))])
                ro = np.asarray(o) if isinstance(o, np.ndarray) else o
                log.append(('arith', getattr(f, '__name__', str(f))))
                flip = rng.random() < .4
                try: w = f(ro, ref) if flip else f(ref, ro)
                except ValueError: continue
                r = f(o, a) if flip else f(a, o)
            else:
                f = rng.choice(UN); log.append(('arith', 'unary')); r = f(a); w = f(ref)
            if not np.array_equal(np.asarray(r), np.asarray(w), equal_nan=True): raise Bad('arithmetic on the observable array gives %r, expected %r' % (r, w))
            if np.ndim(r) and isinstance(r, ObsAr) and not r.ndim == 0:
                if getattr(r, 'observers', None) is not None: raise Bad('the result %r of arithmetic is still observable' % (type(r),))
            times = 0
        elif op == 'values':
            log.append(('values',)); v = a.values
            if type(v) is not np.ndarray or not np.array_equal(v, ref, equal_nan=True) or not np.shares_memory(v, a): raise Bad('values is %r' % (v,))
            times = 0
        else:
            if rng.random() < .5: a.remove_observer(who)
            alone = not any(o is who for _, o, _ in a.observers)
            log.append(('copy', 'without observers' if alone else 'with an observer')); c = a.copy()
            if type(c) is not type(a) or not np.array_equal(np.asarray(c), ref, equal_nan=True) or np.may_share_memory(c, a): raise Bad('copy is %r' % (c,))
            if any(o is who for _, o, _ in c.observers): raise Bad('the copy has the observer of the original')
            if alone: a.add_observer(who, cb)
            if any(o is who for _, o, _ in c.observers): raise Bad('the copy has an observer which was added to the original afterwards')
            told = []; late = O('late')
            def cbc(me, which=None): told.append(me)
            c.add_observer(late, cbc)
            c[...] = 5
            if seen: raise Bad('a change of the copy notified the observer of the original')
            if len(told) != 1: raise Bad('a change of the copy notified its observer %d times' % len(told))
            a[...] = ref
            if len(seen) != 1: raise Bad('copying changed the observers of the original')
            if len(told) != 1: raise Bad('a change of the original notified the observer of the copy')
            del seen[:]; times = 0
        if not np.array_equal(np.asarray(a), ref, equal_nan=True): raise Bad('after %r the array is %r, expected %r' % (log[-1], np.asarray(a).tolist(), ref.tolist()))
        if times is not None and len(seen) != times: raise Bad('%r notified %d times, expected %d' % (log[-1], len(seen), times))
        if times is None and not seen: raise Bad('%r did not notify' % (log[-1],))
        if seen and not np.array_equal(seen[-1][1], ref, equal_nan=True): raise Bad('at the notification of %r the array was %r, not yet %r' % (log[-1], seen[-1][1].tolist(), ref.tolist()))
    return cnt
