"""C16, C17: histories of cached calls against a model of the cache (a list of stored calls, each with a changed flag)."""
import random, hashlib, gc, weakref
import numpy as np
from paramz.caching import Cacher, Cache_this, FunctionCache
from paramz.core.observable import Observable
from paramz.core.observable_array import ObsAr
from paramz import Param, Parameterized


class Bad(Exception):
    pass


class Fail(Exception):
    pass


def content(o):
    if isinstance(o, Parameterized): return ('node', tuple(float(v) for v in o.param_array))
    if isinstance(o, np.ndarray): return ('arr', o.shape, tuple(float(v) for v in np.asarray(o).ravel()))
    if isinstance(o, list): return ('list', tuple(o))
    if isinstance(o, Thing): return ('thing', o.v)
    return (type(o).__name__, o)


class Thing(Observable):
    """an observable which is no array"""
    def __init__(self, v): Observable.__init__(self); self.v = v
    def set(self, v): self.v = v; self.notify_observers()


class Num(float):
    pass


class Meth(Parameterized):
    """cached methods"""
    def __init__(self):
        super(Meth, self).__init__('meth'); self.p = Param('p', np.arange(2.)); self.link_parameter(self.p); self.log = []
        self.own = Cacher(self.plain, 2)
    def plain(self, X, k=None): self.log.append('own'); return ('own', content(X), content(k))
    @Cache_this(limit=2)
    def whole(self, X, k=None): self.log.append('whole'); return ('whole', content(self), content(X), content(k))
    @Cache_this(limit=3, ignore_args=(0,))
    def part(self, X, Y=None): self.log.append('part'); return ('part', content(X), content(Y))
    @Cache_this(limit=2, ignore_args=(0,), force_kwargs=('force',))
    def forced(self, X, force=None): self.log.append('forced'); return ('forced', content(X), content(force))


class Entry(object):
    def __init__(self, key, objs): self.key, self.objs, self.changed = key, objs, False


class Model(object):
    """what the property promises"""
    def __init__(self, limit): self.limit = limit; self.l = []; self.on = True
    def find(self, key):
        for e in self.l:
            if len(e.key) == len(key) and all(a is b or (isinstance(a, str) and isinstance(b, str) and a == b and a.startswith('kw:')) for a, b in zip(e.key, key)): return e
    def changed(self, objs):
        for e in self.l:
            if any(touches(o, c) for o in e.objs for c in objs): e.changed = True


def touches(o, c):
    if o is c: return True
    return isinstance(o, np.ndarray) and isinstance(c, np.ndarray) and np.shares_memory(o, c)


def case(prop, seed, n=10):
    rng = random.Random('%s/%d' % (prop, seed))
    log = []; k = 0; viol = None
    try:
        for _ in range(n):
            del log[:-60]
            r = rng.random(); k += (methods if r < .25 else nested if r < .35 else hierarchy if r < .37 else history)(prop, rng, log)
    except Bad as e:
        viol = dict(what=str(e), detail=[], seed=seed, history=[str(x) for x in log[-40:]])
    except Exception as e:
        import traceback
        viol = dict(what='%s: %s after %r' % (type(e).__name__, e, log[-1:]), detail=[traceback.format_exc()[-600:]], seed=seed, history=[str(x) for x in log[-40:]])
    return dict(n=k, key=hashlib.sha1(repr(log).encode()).hexdigest(), viol=viol, other=None, sample=[str(x) for x in log[:5]])


def pool_of(rng):
    a = ObsAr(np.arange(6.).reshape(rng.choice([(6,), (3, 2)])))
    b = ObsAr(np.arange(3.) + 10)
    p = Param('p', np.arange(4.) + 20)
    m = Parameterized('m'); q = Param('q', np.arange(2.) + 30); r = Param('r', np.arange(3.) + 40)
    m.link_parameters(q, r)
    v = a[1:]; w = b[:2]; u = p[1:3]
    # views which overlap, but neither of which is the other one's base
    v2 = a[:2]; u2 = p[2:]
    names = dict(a=a, b=b, p=p, m=m, q=q, r=r, v=v, w=w, u=u, v2=v2, u2=u2, t=Thing(1), n1=1.5, n2=Num(2.5), n3=7, s='text', s2='b', none=None)
    if rng.random() < .25:
        # few arrays, and values which are easily taken for each other
        names = dict((n, names[n]) for n in ('a', 'v', 'v2', 'b', 'p', 'm', 'q', 'r', 'w', 'u', 't', 'none'))
        names.update(rng.choice([dict(e1=1, e2=11, e3=111), dict(f1=1, f2=1.0, f3=True, f4='1'), dict(g1='a', g2='ab', g3='b', g4='bc', g5='c'), dict(h1='None', h2='k', h3='x', h4=0, h5=False, h6='')]))
    return names


def listeners(objs, cacher):
    """the names of the observables the cacher is registered with"""
    return [k for k, o in objs.items() if isinstance(o, Observable) and any(x is cacher for _, x, _ in o.observers)]


def history(prop, rng, log):
    objs = pool_of(rng)
    limit = rng.choice([1, 2, 2, 3, 4, 5])
    ignore = rng.choice([(), (), (), (0,), (1,), (0, 1), [0, 2], (1, 2), (2, 0)])
    force = rng.choice([(), (), ('force',)])
    calls = []; boom = [None]
    def operation(*args, **kw):
        calls.append(1)
        if boom[0]: raise boom[0]
        return (tuple(content(a) for i, a in enumerate(args) if i not in ignore), tuple((k, content(kw[k])) for k in sorted(kw)))
    c = Cacher(operation, limit, ignore, force)
    M = Model(limit)
    log.append(('Cacher', limit, ignore, force))
    past = []
    alike = [n for n in objs if len(n) == 2 and n[0] in 'efgh']
    overlapping = rng.random() < .15
    choose = (lambda: rng.choice(alike if rng.random() < .8 else ['none', 'a', 't'])) if alike else (lambda: rng.choice(['a', 'v', 'v2', 't'])) if overlapping else (lambda: rng.choice(list(objs)))
    k = 0
    kwnames, kwcount = ['k', 'x', 'force', 'p', 's'], [0, 0, 0, 1, 1, 2]; kwsets = None
    if rng.random() < .15:
        # names which are easily taken for each other once put together, and few values
        kwnames, kwcount = rng.choice([['k', 'xs', 'kx', 's'], ['a', 'ab', 'b', 'ba'], ['x', 'xx', 'y', 'X']]), [1, 2, 2, 2]
        if rng.random() < .4: t = rng.choice([',', ',', ' ', '|', '\0', ';', ':', '=', '_', '.', '-', '/', ', ', '\n']); kwsets = [['a', 'b%sc' % t], ['a%sb' % t, 'c']]
        few = rng.sample(sorted(objs), 2); choose = lambda: rng.choice(few)
        log.append(('few', few))
    for _ in range(rng.randint(10, 30)):
        op = rng.choice(['call', 'call', 'call', 'call', 'again', 'again', 'write', 'write', 'fail', 'reset', 'toggle', 'unhash'])
        if op in ('call', 'again', 'fail', 'unhash'):
            if op == 'again' and past: args, kw = rng.choice(past[-4:])
            else:
                args = [choose() for _ in range(rng.choice([1, 1, 2, 2, 3]))]
                while ignore and len(args) <= max(ignore): args.append('t')     # the indices point at positional arguments
                if rng.random() < .15 and len(args) > 1: args[1] = args[0]
                kw = dict((n, choose()) for n in (rng.choice(kwsets) if kwsets else rng.sample(kwnames, rng.choice(kwcount))))
                past.append((args, kw))
            if op == 'fail': boom[0] = rng.choice([Fail('x'), KeyboardInterrupt('y'), ValueError('z')])
            A = [objs[n] for n in args]; K = dict((n, objs[o]) for n, o in kw.items())
            unc = False
            if op == 'unhash':
                A.append([1, 2]); unc = True
            log.append(('fail' if boom[0] else 'call', args, kw, unc)); k += 1
            expect = (tuple(content(x) for i, x in enumerate(A) if i not in ignore), tuple((n, content(K[n])) for n in sorted(K)))
            key = tuple(x for i, x in enumerate(list(A) + [K[n] for n in sorted(K)]) if i not in ignore) + tuple('kw:' + n for n in sorted(K))
            plain = not M.on or unc or any(n in K and K[n] is not None for n in force)
            e = None if plain else M.find(key)
            run = plain or e is None or e.changed
            n0 = len(calls)
            err = got = None
            try: got = c(*A, **K)
            except BaseException as ex:
                err = ex
                if boom[0] is None or ex is not boom[0]: raise
            ran = len(calls) - n0
            if err is not None:
                if not run and prop == 'C17': raise Bad('a call that is cached ran the function, which failed')
                boom[0] = None
                if plain: continue
                M.l = []
                check_obs(prop, objs, c, M); continue
            if boom[0] is not None:
                boom[0] = None
                if ran: raise Bad('the exception of the wrapped function did not propagate')
                if run and prop == 'C16' : raise Bad('the function was not run, although the call was not (or no longer) cached: %r' % (log[-1],))
            if got != expect: raise Bad('call %r returned %r, a fresh call gives %r' % (log[-1], got, expect))
            if ran > 1: raise Bad('call ran the function %d times' % ran)
            if plain and ran != 1: raise Bad('call %r must compute afresh, but did not' % (log[-1],))
            if prop == 'C17' and bool(ran) != run: raise Bad('call %r %s the function; stored before: %d of %d' % (log[-1], 'ran' if ran else 'did not run', len(M.l), limit))
            if not plain:
                if e is None:
                    if len(M.l) == limit: M.l.pop(0)
                    M.l.append(Entry(key, [o for i, o in enumerate(list(A) + [K[n] for n in sorted(K)]) if i not in ignore and isinstance(o, Observable)]))
                else: e.changed = False
            check_obs(prop, objs, c, M)
        elif op == 'write':
            n = rng.choice(['a', 'v', 'v2', 't'] if overlapping else [x for x in ['a', 'b', 'p', 'm', 'q', 'r', 'v', 'w', 'u', 't', 'v2', 'u2'] if x in objs]); o = objs[n]
            how = rng.choice(['set', 'iop', 'item', 'announce'])
            log.append(('write', n, how))
            if n == 't': o.set(rng.random()); M.changed([o])
            elif n == 'm':
                o[:] = np.random.RandomState(rng.randrange(999)).rand(5); M.changed([o, objs['q'], objs['r']])
            else:
                if how == 'set': o[...] = rng.random()
                elif how == 'iop': o *= 1.5; o = objs[n]
                elif how == 'announce': o.notify_observers()
                else: o[0] = rng.random()
                M.changed([o] + ([objs['m']] if n in 'qr' else []))
        elif op == 'reset':
            if rng.random() < .6: continue
            log.append(('reset',)); c.reset(); M.l = []; check_obs(prop, objs, c, M)
        elif op == 'toggle':
            if M.on:
                if rng.random() < .6: continue
                log.append(('off',)); c.disable_cacher(); M.on = False; M.l = []; check_obs(prop, objs, c, M)
            else: log.append(('on',)); c.enable_cacher(); M.on = True
    if prop == 'C17':
        # inputs which no kept result uses are let go
        r = [weakref.ref(objs[n]) for n in ('a', 'b', 't')]
        c.reset(); M.l = []
        A = K = e = got = o = key = err = ex = None; del objs, calls[:]
        gc.collect()
        if any(x() is not None for x in r): raise Bad('the reset cache keeps its inputs alive')
    return k


class Knot(Parameterized):
    def __init__(self, name, below=()):
        super(Knot, self).__init__(name); self.ran = 0
        self.p = Param('p', np.ones(2)); self.link_parameter(self.p)
        for b in below: self.link_parameter(b)
    @Cache_this(limit=3)
    def f(self, x):
        self.ran += 1; return float(np.sum(x))


def hierarchy(prop, rng, log):
    """caching switched off and on for a node: for all of the nodes below as well, and no other"""
    nodes = []
    def mk(depth):
        n = Knot('n%d' % len(nodes), [mk(depth - 1) for _ in range(rng.choice([1, 1, 2]))] if depth else ()); nodes.append(n); return n
    mk(rng.choice([2, 3])); X = ObsAr(np.arange(3.)); on = dict((id(n), True) for n in nodes); has = dict((id(n), False) for n in nodes)
    log.append(('hierarchy', len(nodes)))
    for _ in range(rng.randint(3, 8)):
        op = rng.choice(['off', 'on', 'call', 'call'])
        n = rng.choice(nodes); sub = []; n.traverse(sub.append)
        log.append((op, n.name))
        if op == 'call': todo = nodes
        else:
            (n.disable_caching if op == 'off' else n.enable_caching)(); todo = nodes
            for x in sub:
                if id(x) in on:
                    on[id(x)] = op == 'on'
                    if op == 'off': has[id(x)] = False
        for x in todo:
            for _ in range(2):
                r = x.ran; v = x.f(X)
                if v != 3.: raise Bad('cached method returned %r' % v)
                want = not (on[id(x)] and has[id(x)])
                if prop == 'C17' and (x.ran > r) != want: raise Bad('caching switched %s for %r: the cached method of %r %s the function' % (op, n.name, x.name, 'ran' if x.ran > r else 'did not run'))
                has[id(x)] = on[id(x)]
    return 1


def nested(prop, rng, log):
    """the wrapped function calls itself through the cache"""
    objs = [ObsAr(np.arange(2.) + 10 * i) for i in range(3)] + [Param('p', np.arange(3.) + 50), 1.5, None, 's']
    limit = rng.choice([1, 1, 2, 3, 5, 8]); calls = []; fails = []
    def operation(*args):
        calls.append(1)
        r = (content(args[0]),)
        if len(args) > 1:
            if catch:
                try: r += c(*args[1:])
                except Fail: r += c(*args[1:])
            else: r += c(*args[1:])
        elif fails: raise fails.pop()
        return r
    catch = rng.random() < .3
    c = Cacher(operation, limit)
    log.append(('nested', limit, catch)); past = []
    for _ in range(rng.randint(5, 20)):
        if rng.random() < .4:
            i = rng.randrange(4); log.append(('write', i)); objs[i][...] = rng.random(); continue
        if past and rng.random() < .5: a = rng.choice(past[-3:])
        else: a = [rng.randrange(len(objs)) for _ in range(rng.choice([1, 2, 2, 3, 4]))]; past.append(a)
        A = [objs[i] for i in a]; want = tuple(content(x) for x in A)
        log.append(('call', a))
        if catch and rng.random() < .2: fails.append(Fail('once'))
        for again in (False, True):
            del calls[:]
            try: got = c(*A)
            except Fail:
                if again or len(a) > 1: raise
                break                                   # nothing is there to catch it
            if got != want: raise Bad('nested call %r returned %r, a fresh call gives %r' % (a, got, want))
            if again and prop == 'C17' and calls: raise Bad('repeating the nested call %r ran the function' % (a,))
        del fails[:]
        if prop == 'C17' and len(c.cached_outputs) > limit: raise Bad('%d results are kept, the limit is %d' % (len(c.cached_outputs), limit))
    if prop == 'C17':
        c.reset()
        for x in objs[:4]:
            if any(o is c for _, o, _ in x.observers): raise Bad('the reset cache still observes an input')
    return len(past)


def check_obs(prop, objs, c, M):
    if prop != 'C17': return
    used = [o for e in M.l for o in e.objs]
    lists = [o.observers for o in used]
    for n, o in objs.items():
        if not isinstance(o, Observable): continue
        reg = any(x is c for _, x, _ in o.observers)
        want = any(o.observers is l for l in lists)
        if reg and not want: raise Bad('the cache still observes %r, which no kept result uses' % n)
        if want and not reg: raise Bad('the cache does not observe %r, which a kept result uses' % n)


def methods(prop, rng, log):
    ms = [Meth() for _ in range(2)]
    X = ObsAr(np.arange(3.)); Y = ObsAr(np.arange(2.))
    objs = dict(X=X, Y=Y, V=X[1:], none=None, n=3.5)
    limits = dict(whole=2, part=3, forced=2, own=2)
    models = [dict((n, Model(l)) for n, l in limits.items()) for _ in ms]
    enabled = [True, True]
    log.append(('methods',)); k = 0
    for _ in range(rng.randint(8, 25)):
        i = rng.randrange(2); m = ms[i]
        op = rng.choice(['call', 'call', 'call', 'call', 'write', 'param', 'off', 'on', 'reset'])
        if op == 'call':
            f = rng.choice(['whole', 'part', 'forced', 'own']); n = rng.choice(['X', 'X', 'Y', 'V']); o = objs[n]
            kn = rng.choice([None, 'none', 'n', 'Y']); ko = objs[kn] if kn else None
            log.append((i, f, n, kn)); k += 1
            name = dict(whole='k', part='Y', forced='force', own='k')[f]
            pos = rng.random() < .3
            del m.log[:]
            got = getattr(m, f)(o, ko) if (pos or not kn) and kn else (getattr(m, f)(o, **{name: ko}) if kn else getattr(m, f)(o))
            want = (f, content(m), content(o), content(ko)) if f == 'whole' else (f, content(o), content(ko))
            if got != want: raise Bad('cached method %r returned %r, a fresh call gives %r' % (log[-1], got, want))
            ran = len(m.log)
            if ran > 1: raise Bad('cached method ran %d times' % ran)
            # the decorated function is called with all of its arguments in the order of its signature
            key = ((m,) if f == 'whole' else ()) + (o, ko)
            # a cacher made for a method of the object sees what it is called with
            if f == 'own': key = (o, ko) if pos and kn else (o, ko, 'kw:k') if kn else (o,)
            M = models[i][f]
            plain = not enabled[i]
            if f == 'forced' and ko is not None:
                # a keyword handed over by position is one of the arguments
                models[i][f] = fresh(M, m, f)
                continue
            e = None if plain else M.find(key)
            run = plain or e is None or e.changed
            if prop == 'C17' and bool(ran) != run: raise Bad('cached method %r %s the function' % (log[-1], 'ran' if ran else 'did not run'))
            if not plain:
                if e is None:
                    if len(M.l) == M.limit: M.l.pop(0)
                    M.l.append(Entry(key, [x for x in key if isinstance(x, Observable)]))
                else: e.changed = False
        elif op == 'write':
            n = rng.choice(['X', 'Y', 'V']); log.append(('write', n)); objs[n][...] = rng.random()
            for d in models:
                for M in d.values(): M.changed([objs[n]])
        elif op == 'param':
            log.append(('param', i)); m.p[:] = rng.random()
            for d in models:
                for M in d.values(): M.changed([m, m.p])
        elif op == 'off':
            if rng.random() < .5: continue
            log.append(('off', i)); (m.disable_caching if rng.random() < .5 else m.cache.disable_caching)(); enabled[i] = False
            for M in models[i].values(): M.l = []
        elif op == 'on':
            log.append(('on', i)); (m.enable_caching if rng.random() < .5 else m.cache.enable_caching)(); enabled[i] = True
        elif op == 'reset':
            if rng.random() < .5: continue
            log.append(('reset', i)); m.cache.reset()
            for M in models[i].values(): M.l = []
    return k


def fresh(M, m, f):
    """forget what is stored for one method (used where the model does not predict it)"""
    for c in m.cache.values():
        if c.__name__ == f: c.reset()
    n = Model(M.limit); return n
