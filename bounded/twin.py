"""C19 (copies) and C20 (saving and loading): twins of real hierarchies are driven by the same operations and compared
with each other, and driven separately to see that neither one shows a change of the other one."""
import random, hashlib, io, contextlib, signal, pickle, gc, sys, os, subprocess, tempfile, shutil, types
import numpy as np
import paramz, paramz.caching
from paramz import Param, ObsAr
from .world import World, Mismatch, Mismatches, Skip
from .classes import TRACE, Obs
from . import ops as O
from .hist import alarm, Hang, prof


class Bad(Exception):
    pass


def snap(s, deep=True):
    """everything observable of the hierarchy below s, relative to s"""
    r = {}
    def put(k, f):
        try: r[k] = f()
        except (Hang, Bad): raise
        except Exception as e: r[k] = 'raises ' + type(e).__name__
    real = s.real
    def walk(x, path):
        put(path + ' name', lambda: x.name)
        put(path + ' values', lambda: np.asarray(x.param_array if not isinstance(x, Param) else x.values).tolist())
        put(path + ' size', lambda: int(x.size))
        put(path + ' shape', lambda: tuple(np.shape(x)) if isinstance(x, Param) else None)
        put(path + ' constraints', lambda: sorted((str(k), type(k).__name__, [int(i) for i in v]) for k, v in x.constraints.items()))
        put(path + ' gradient', lambda: (np.shape(x.gradient), repr(np.asarray(x.gradient_full).ravel().tolist())))
        put(path + ' optimizer vector', lambda: np.array(x.optimizer_array).tolist())
        put(path + ' free', lambda: (int(x._size_transformed()), bool(x.is_fixed)))
        put(path + ' flat names', lambda: [n.split('.')[-1] for n in x.parameter_names_flat(include_fixed=True)])
        put(path + ' updates', lambda: bool(x.update_model()))
        put(path + ' printed', lambda: len(str(x)))
        kids = [] if isinstance(x, Param) else list(x.parameters)
        put(path + ' children', lambda: [k.name for k in kids])
        if not isinstance(x, Param):
            put(path + ' attributes', lambda: [[a for a in sorted(vars(x)) if vars(x)[a] is k] for k in kids])
        for i, k in enumerate(kids):
            if k._parent_ is not x or k._parent_index_ != i: r['%s.%d parent' % (path, i)] = 'wrong'
            if k._highest_parent_ is not x._highest_parent_: r['%s.%d root' % (path, i)] = 'wrong'
            walk(k, '%s.%d' % (path, i))
    walk(real, '0')
    if s.parent is None:
        try: memory(real)
        except Bad as e: r['0 memory'] = str(e)
    return r


def ad(a): return a.__array_interface__['data'][0]


def memory(root):
    if isinstance(root, Param): return
    def walk(x, o):
        if x.size:
            for n in ('param_array', 'gradient_full'):
                if ad(np.asarray(getattr(x, n))) != ad(np.asarray(getattr(root, n))) + 8 * o: raise Bad('%s of %s is not part of the root' % (n, x.name))
        for k in ([] if isinstance(x, Param) else x.parameters):
            walk(k, o); o += k.size
    walk(root, 0)


def diff(a, b, drop=()):
    for k in sorted(set(a) | set(b)):
        if any(k == d for d in drop): continue
        if a.get(k) != b.get(k): return '%s: %r / %r' % (k, a.get(k), b.get(k))


def strip(x, inner=False):
    """gradients not yet computed are undefined memory: their shapes are compared, not their values"""
    x = dict((k, v[0] if k.endswith('gradient') and isinstance(v, tuple) else v) for k, v in x.items())
    if inner: x = dict((k, v) for k, v in x.items() if not k.endswith('printed') and k != '0 attributes')
    return x


def sub_world(w, s, rng):
    n = World.__new__(World)
    n.rng = rng; n.roots = [s]; n.log = []; n.k = 0; n.annotate = w.annotate; n.evals = []; n.oldnames = {}; n.opname = ''; n.checks = 0
    return n


def apply(w, op, d, seed):
    """run one operation; ('ok' | kind of failure), calls of hooks by position"""
    w.rng = random.Random(seed)
    del TRACE[:]
    where = dict((id(n.real), tuple(w.addr(n))) for n in w.all_nodes())
    try:
        alarm(30)
        O.OPS[op][1](w, d); out = 'ok'
    except Skip: raise
    except Hang: raise
    except (Mismatch, Mismatches): out = 'mismatch'
    except Exception as e: out = type(e).__name__
    tr = [(where.get(k), v.tolist()) for k, v in TRACE]
    if op in ('link', 'move', 'refuse'): tr = []          # new parts have no position yet
    for r in w.roots:
        for l in r.leaves():
            for e, v in zip(l.e, l.real.view(np.ndarray).ravel()): e.v = float(v)
    return out, tr


OPN = prof(copy=0, pickle=0, drop=0, grad=1, eval=2)
NAMES = sorted(OPN); WTS = [OPN[k] for k in NAMES]


def arrays_of(real):
    """addresses of the memory and of the mutable bookkeeping below real"""
    out = {}
    def walk(x, p):
        for n in ('param_array', 'gradient_full'):
            a = np.asarray(getattr(x, n))
            if a.size: out[('mem', ad(a))] = p + ' ' + n
        out[('obj', id(x))] = p
        for n, io_ in x._index_operations.items():
            o = io_
            while not hasattr(o, '_properties'): o = o._param_index_ops
            out[('obj', id(o._properties))] = p + ' ' + n
            for k, v in o._properties.items():
                if v.size: out[('mem', ad(v))] = '%s %s of %s' % (p, n, k)
        out[('obj', id(x.observers))] = p + ' observers'
        for i, k in enumerate([] if isinstance(x, Param) else x.parameters): walk(k, '%s.%d' % (p, i))
    walk(real, '0')
    return out


def shares(a, b):
    x, y = arrays_of(a), arrays_of(b)
    for k in x:
        if k in y: return '%s / %s' % (x[k], y[k])


def case(prop, seed, nsteps=14):
    rng = random.Random('%s/%d' % (prop, seed))
    log = []; viol = None; other = None; n = 0
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            n = (array_case if rng.random() < .08 and prop == 'C20' else cached_case if prop == 'C19' and rng.random() < .06 else history)(prop, seed, rng, log, nsteps)
    except Bad as e:
        viol = dict(what=str(e)[:600], detail=[], seed=seed, history=log[-60:])
    except Hang as e:
        viol = dict(what=str(e), detail=[], seed=seed, history=log[-60:])
    except (Mismatch, Mismatches) as e: other = str(e)[:200]
    except Exception as e:
        import traceback
        other = '%s: %s' % (type(e).__name__, traceback.format_exc()[-300:])
    finally:
        signal.alarm(0)
    return dict(n=n, key=hashlib.sha1(repr(log).encode()).hexdigest(), viol=viol, other=other, sample=log[:5])


def array_case(prop, seed, rng, log, nsteps):
    """an observable array on its own"""
    shape = rng.choice([(3,), (2, 2), (0,), (1, 2, 2)])
    a = ObsAr(np.array([rng.uniform(-2, 2) for _ in range(int(np.prod(shape)))]).reshape(shape), 3)
    L = []; o = Obs(L, 'outside'); a.add_observer(o, o.cb)
    before = np.array(a)
    for p in range(2, 6):
        log.append(['array', shape, p])
        try: b = pickle.loads(pickle.dumps(a, p))
        except Exception as e: raise Bad('pickling an ObsAr of shape %r with protocol %d: %s %s' % (shape, p, type(e).__name__, e))
        if type(b) is not ObsAr or b.shape != a.shape or not np.array_equal(np.array(b), before): raise Bad('an ObsAr %r came back as %r' % (before.tolist(), b))
        if not np.array_equal(np.array(a), before): raise Bad('pickling changed an ObsAr')
        if len(b.observers): raise Bad('an observer was saved with an ObsAr')
        if b.size:
            del L[:]; b[...] = 7.
            if L: raise Bad('a change of the loaded array called an observer of the saved one')
            if not np.array_equal(np.array(a), before): raise Bad('loaded array shares memory')
            M = []; q = Obs(M, 'new'); b.add_observer(q, q.cb); b[...] = 3.
            if len(M) != 1: raise Bad('the loaded array notified a new observer %d times' % len(M))
            a[...] = before
            if len(L) != 1: raise Bad('the saved array notified its observer %d times after saving' % len(L))
    return 4


class Holder(paramz.Parameterized):
    """a node with caches of its own, and values observed that it holds"""
    def __init__(self, name, rng):
        super(Holder, self).__init__(name)
        self.p = Param('p', np.array([rng.uniform(.5, 2) for _ in range(2)])); self.link_parameter(self.p)
        self.x = ObsAr(np.array([rng.uniform(.5, 2) for _ in range(3)]))
        self.factor = rng.uniform(.5, 2)
        self.own = paramz.caching.Cacher(self._own, rng.randint(1, 3))
        self.plain = paramz.caching.Cacher(_summed, 2)
    def _own(self, x): return float(np.asarray(x).sum() * self.p.values[0] * self.factor)
    @paramz.caching.Cache_this(limit=2)
    def both(self, x, p): return float(np.asarray(x).sum() * np.asarray(p)[-1] * self.factor)


def _summed(x): return float(np.asarray(x).sum())


def cached_case(prop, seed, rng, log, nsteps):
    """nodes holding caches: a copy computes with its own values, and the original with its own"""
    alarm(30)
    top = paramz.Parameterized('top'); parts = [Holder('h%d' % i, rng) for i in range(rng.randint(1, 2))]
    for h in parts: top.link_parameter(h)
    inner = rng.random() < .5
    outside = ObsAr(np.ones(2))
    def check(h, who):
        for x in (h.x, outside):
            for n, got, want in (('own', h.own(x), h._own(x)), ('both', h.both(x, h.p), float(np.asarray(x).sum() * np.asarray(h.p)[-1] * h.factor)), ('plain', h.plain(x), _summed(x))):
                if got != want: raise Bad('cached %s of the %s gives %r, computed %r' % (n, who, got, want))
    if rng.random() < .5: [check(h, 'original') for h in parts]
    k = rng.randrange(len(parts))
    c = parts[k].copy() if inner else top.copy()
    log.append(['copy', 'part' if inner else 'whole'])
    sides = [[parts[k]] if inner else parts, [c] if inner else list(c.parameters)]
    if len(sides[1]) != len(sides[0]): raise Bad('the copy has %d parts of %d' % (len(sides[1]), len(sides[0])))
    for _ in range(nsteps // 2):
        who = rng.randrange(2); h = rng.choice(sides[who]); what = rng.choice(['p', 'x', 'factor', 'outside', 'none'])
        log.append([who, what]); v = rng.uniform(.5, 2)
        if what == 'p': h.p[rng.randrange(2)] = v; h.own.reset()                # its own parameter is no input of a cached method
        if what == 'x': h.x[rng.randrange(3)] = v
        if what == 'factor': h.factor = v; h.own.reset(); h.cache.reset()
        if what == 'outside': outside[rng.randrange(2)] = v
        both = [0, 1]; rng.shuffle(both)
        for s in both: [check(g, ['original', 'copy'][s]) for g in sides[s]]
    return nsteps // 2


def drive(real):
    """a fixed sequence of operations on something just loaded, and everything observable after each"""
    s = types.SimpleNamespace(real=real, parent=None)
    out = [strip(snap(s))]
    n = [0]
    def link():
        if not isinstance(real, Param): real.link_parameter(Param('fresh', np.array([.5, .25])), 0)
    def first():
        if not isinstance(real, Param) and len(real.parameters): real.unlink_parameter(real.parameters[-1])
    def vector():
        x = real.optimizer_array.copy(); real.optimizer_array = x * .5 + .125
    def upper():
        p = real.flattened_parameters[0]; p.constrain_bounded(-4., 4.); p.fix()
    def write(): real[:] = 1.5
    def flip(): real.update_model(False); real.update_model(True)
    for f in (vector, upper, vector, real.unfix, link, real.constrain_positive, vector, first, write, real.unconstrain, real.fix, flip):
        del TRACE[:]
        try: f(); r = 'ok'
        except Hang: raise
        except Exception as e: r = type(e).__name__
        out.append((f.__name__, r, [v.tolist() for _, v in TRACE], strip(snap(s))))
    return out


CHILD = """
import sys, pickle, logging, warnings
warnings.simplefilter('ignore'); logging.disable(50)
sys.path[:0] = %r
import io, contextlib
from bounded import twin
with contextlib.redirect_stdout(io.StringIO()):
    out = twin.drive(pickle.load(open(%r, 'rb')))
pickle.dump(out, open(%r, 'wb'))
"""


def fresh(real, log):
    """load in another process, in which nothing has been made before; it must behave as when loaded here"""
    d = tempfile.mkdtemp()
    try:
        f, o = os.path.join(d, 'saved'), os.path.join(d, 'out')
        real.pickle(f)
        log.append(['load in another process'])
        p = subprocess.run([sys.executable, '-B', '-c', CHILD % ([x for x in sys.path if x], f, o)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=50)
        if p.returncode or not os.path.exists(o): raise Bad('loading in another process failed: %s' % p.stdout[-400:])
        b = pickle.load(open(o, 'rb'))
        a = drive(pickle.load(open(f, 'rb')))
    finally:
        shutil.rmtree(d)
    e = diff(a[0], b[0])
    if e: raise Bad('loaded in another process: %s' % e)
    for x, y in zip(a[1:], b[1:]):
        if x[:3] != y[:3]: raise Bad('%s: %s, hooks %r here, %s, hooks %r when loaded in another process' % (x[0], x[1], x[2][:3], y[1], y[2][:3]))
        e = diff(x[3], y[3])
        if e: raise Bad('after %s here / loaded in another process: %s' % (x[0], e))


def warm(w, rng, k, log, pre):
    """some history before the copy"""
    n = t = 0
    while n < k and t < 6 * k:
        t += 1
        op = rng.choices(NAMES, WTS)[0]
        try: d = O.OPS[op][0](w)
        except Skip: continue
        try:
            log.append([pre, op, d]); O.step(w, op, d); n += 1
        except Skip: log.pop(); continue


def history(prop, seed, rng, log, nsteps):
    alarm(60)
    w = World(rng, annotate=False, nroots=1)
    warm(w, rng, rng.randint(0, 6), log, 'before')
    nodes = [s for s in w.all_nodes() if s.entries()]
    s = rng.choice(nodes) if prop == 'C19' and rng.random() < .5 else rng.choice([r for r in w.roots if r.entries()] or nodes[:1])
    if prop == 'C20' and s.parent is not None: return 0
    # observers from outside
    L = []; obs = [Obs(L, 'outside') for _ in range(2)]
    for o in obs:
        t = rng.choice(s.nodes()); t.real.add_observer(o, o.cb if rng.random() < .6 else (lambda me, which=None: L.append(1)))
    whole = s.root()
    old = snap(whole); mine = snap(s)
    how = rng.choice(['dumps2', 'dumps3', 'dumps4', 'dumps5', 'file', 'buf']) if prop == 'C20' else 'copy'
    log.append([how, s.path()])
    try: c = s.real.copy() if how == 'copy' else O.roundtrip(s.real, how)
    except Exception as e:
        import traceback
        raise Bad('%s of %s failed: %s: %s (%s)' % (how, s.path(), type(e).__name__, e, traceback.format_exc()[-200:]))
    del L[:]
    n = s.clone_into(c, {}); n.on = whole.on; n.parent = None
    d = diff(old, snap(whole))
    if d: raise Bad('%s changed the original: %s' % (how, d))
    if c.has_parent(): raise Bad('the %s has a parent' % how)
    if type(c) is not type(s.real): raise Bad('%s of %r gave %r' % (how, type(s.real), type(c)))
    drop = ['0 gradient'] if s.leaf else []
    if s.parent is not None: drop.append('0 printed')
    new = snap(n)
    d = diff(strip(mine, s.parent is not None), strip(new, s.parent is not None), drop=drop if s.parent is not None else [])
    if d: raise Bad('%s of %s differs: %s' % (how, s.path(), d))
    d = shares(whole.real, c)
    if d: raise Bad('%s of %s shares %s with the original' % (how, s.path(), d))
    for x in n.nodes():
        for _, ob, _ in x.real.observers:
            if any(ob is o for o in obs): raise Bad('an observer was carried over by %s' % how)
    if prop == 'C20' and rng.random() < .05: fresh(s.real, log)
    w2 = sub_world(w, n, rng)
    k = 1
    twins = s.parent is None and [r for r in w.roots] == [s] and rng.random() < (.7 if prop == 'C20' else .5)
    if twins:
        k += twin_phase(w, w2, rng, log, nsteps, how)
    # separate changes
    for _ in range(nsteps // 2):
        a, b = (w, w2) if rng.random() < .5 else (w2, w)
        op = rng.choices(NAMES, WTS)[0]
        a.rng = rng
        try: d = O.OPS[op][0](a)
        except Skip: continue
        before = [snap(r) for r in b.roots]
        del L[:]
        who = 'original' if a is w else how
        log.append([who, op, d])
        try: out = apply(a, op, d, seed)
        except Skip: log.pop(); continue
        if a is w2 and L: raise Bad('a change of the %s called an observer of the original' % how)
        for r, x in zip(b.roots, before):
            e = diff(x, snap(r))
            if e: raise Bad('%s on the %s changed the %s: %s' % (op, who, how if a is w else 'original', e))
        k += 1
        if out[0] != 'ok': break
    return k


def twin_phase(w, w2, rng, log, nsteps, how):
    k = 0
    for r in (w, w2): r.real_ops = 0
    for i in range(nsteps):
        op = rng.choices(NAMES, WTS)[0]
        w.rng = rng
        try: d = O.OPS[op][0](w)
        except Skip: continue
        log.append(['both', op, d])
        sd = rng.randrange(10**6)
        try: o1 = apply(w, op, d, sd)
        except Skip: log.pop(); continue
        try: o2 = apply(w2, op, d, sd)
        except Skip: raise Bad('%s is possible on the original only' % op)
        if o1[0] != o2[0]: raise Bad('%s: %s on the original, %s on the %s' % (op, o1[0], o2[0], how))
        if o1[1] != o2[1]: raise Bad('%s runs the hooks %r on the original, %r on the %s' % (op, o1[1][:4], o2[1][:4], how))
        if len(w.roots) != len(w2.roots): raise Bad('%s splits differently' % op)
        for r, q in zip(w.roots, w2.roots):
            d1 = diff(strip(snap(r)), strip(snap(q)))
            if d1: raise Bad('after %s on the original and the %s: %s' % (op, how, d1))
        k += 1
        if o1[0] != 'ok': break
    return k
