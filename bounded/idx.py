"""C03, C04: random histories on the index tables and their windows against a set of (property, position) pairs."""
import random, hashlib, copy
import numpy as np
from paramz.core.index_operations import ParameterIndexOperations as PIO, ParameterIndexOperationsView as PIOV
from paramz.core.index_operations import extract_properties_to_index, combine_indices, remove_indices, index_empty
from paramz import transformations as TR

PROPS = ['fixed', 'one', TR.Logexp(), TR.Logistic(0, 1), 'two', TR.Square(), 7]


class Bad(Exception):
    pass


def pairs_of(io):
    d = {}
    for p, ind in io.items():
        l = [int(i) for i in ind]
        if l != sorted(set(l)): raise Bad('positions of %r not sorted and distinct: %r' % (p, l))
        if not l: raise Bad('property %r listed without positions' % (p,))
        if any(p is q or p == q for q in d): raise Bad('property %r listed twice' % (p,))
        d[p] = set(l)
    return d


def clean(d):
    return dict((p, s) for p, s in d.items() if s)


def idxs(rng, lo, hi, kmax=5):
    n = rng.randint(0, min(kmax, hi - lo)) if hi > lo else 0
    l = [rng.randrange(lo, hi) for _ in range(n)] if rng.random() < .3 else rng.sample(range(lo, hi), n)
    k = rng.random()
    if k < .6: l = sorted(l)
    return np.array(l, dtype=int)


def queries(rng, io, m, hi, who):
    """all query methods of io against the model m (property -> set)"""
    m = clean(m)
    got = pairs_of(io)
    if got != m: raise Bad('%s.items() is %r, expected %r' % (who, got, m))
    if set(map(id, io.properties())) != set(map(id, m)) or len(io.properties()) != len(m):
        raise Bad('%s.properties() is %r, expected %r' % (who, io.properties(), sorted(map(str, m))))
    inds = io.indices()
    if len(inds) != len(m): raise Bad('%s.indices() has %d lists' % (who, len(inds)))
    for p, i in zip(io.properties(), inds):
        if set(int(x) for x in i) != m[p]: raise Bad('%s.indices() does not match properties()' % who)
    if io.size != sum(len(s) for s in m.values()): raise Bad('%s.size is %r, expected %r' % (who, io.size, sum(len(s) for s in m.values())))
    for p in PROPS:
        if rng.random() < .4 or p in m:
            l = [int(i) for i in io[p]]
            if l != sorted(m.get(p, ())): raise Bad('%s[%r] is %r, expected %r' % (who, p, l, sorted(m.get(p, ()))))
    q = rng.sample(range(hi), rng.randint(1, min(6, hi)))
    if rng.random() < .3: q = q + q[:1]
    r = io.properties_for(np.array(q))
    if len(r) != len(q): raise Bad('%s.properties_for(%r) has length %d' % (who, q, len(r)))
    for i, props in zip(q, r):
        want = [p for p in m if i in m[p]]
        if len(props) != len(want) or any(not any(p is x or p == x for x in props) for p in want):
            raise Bad('%s.properties_for: position %d has %r, expected %r' % (who, i, props, want))
    dd = io.properties_dict_for(np.array(q))
    want = {}
    for i in q:
        for p in m:
            if i in m[p]: want.setdefault(p, []).append(i)
    if set(map(id, dd)) != set(map(id, want)) or any([int(x) for x in dd[p]] != want[p] for p in want):
        raise Bad('%s.properties_dict_for(%r) is %r, expected %r' % (who, q, dd, want))
    got = pairs_of(io)
    if got != m: raise Bad('queries changed the table of %s: %r, expected %r' % (who, got, m))


def build(rng, hi):
    m = {}
    for p in rng.sample(PROPS, rng.randint(0, 4)):
        s = set(int(i) for i in idxs(rng, 0, hi, 6))
        if s: m[p] = s
    io = PIO(dict((p, np.array(sorted(s))) for p, s in m.items())) if rng.random() < .5 else PIO()
    if not len(list(io.items())):
        for p, s in m.items(): io.add(p, np.array(sorted(s)))
    return io, m


def case(prop, seed, n=40):
    rng = random.Random('%s/%d' % (prop, seed))
    log = []; k = 0; viol = None
    try:
        for k in range(0, n): (base if prop == 'C03' else view)(rng, log)
    except Bad as e:
        viol = dict(what=str(e), detail=[], seed=seed, history=log[-30:])
    except Exception as e:
        viol = dict(what='%s: %s after %r' % (type(e).__name__, e, log[-1:]), detail=[], seed=seed, history=log[-30:])
    return dict(n=len(log), key=hashlib.sha1(repr(log).encode()).hexdigest() if len(log) > 3 else None, viol=viol, other=None, sample=[str(x) for x in log[:4]])


def step(rng, io, m, lo, hi, log, who, block=True):
    """one mutating operation on io, the same on the model; lo..hi are the legal positions"""
    op = rng.choice(['add', 'add', 'add', 'remove', 'remove', 'clear', 'update', 'del', 'left', 'right', 'copy'])
    p = rng.choice(PROPS)
    if op == 'add':
        i = idxs(rng, lo, hi); i0 = i.copy(); log.append((who, 'add', str(p), i.tolist()))
        io.add(p, i)
        if not (i == i0).all(): raise Bad('add changed its argument')
        m.setdefault(p, set()).update(int(x) for x in i)
        if len(i):                       # adding must not alias the caller's array
            i += 1000
    elif op == 'remove':
        i = idxs(rng, lo, hi)
        if p in m and m[p] and rng.random() < .6:
            i = np.array(sorted(rng.sample(sorted(m[p]), rng.randint(1, len(m[p])))) , dtype=int)
            if rng.random() < .4: i = np.union1d(i, idxs(rng, lo, hi))
        i = np.unique(i)
        if len(i) and rng.random() < .25: i = np.concatenate([i, i[[rng.randrange(len(i))]]])     # positions named twice
        log.append((who, 'remove', str(p), i.tolist()))
        i0 = i.copy(); r = io.remove(p, i)
        if not (i == i0).all(): raise Bad('remove changed its argument')
        s = m.get(p, set()); want = s & set(int(x) for x in i)
        if sorted(int(x) for x in r) != sorted(want): raise Bad('%s.remove(%r, %r) returned %r, expected %r' % (who, p, i.tolist(), np.asarray(r).tolist(), sorted(want)))
        if not np.issubdtype(np.asarray(r).dtype, np.integer): raise Bad('%s.remove returned dtype %r' % (who, r.dtype))
        s -= want
    elif op == 'clear':
        if rng.random() < .7: return
        log.append((who, 'clear')); io.clear(); m.clear()
    elif op == 'update':
        o, om = build(rng, max(1, (hi - lo) // 2)); off = rng.choice([0, 0, 1, 2, (hi - lo) // 2])
        om0 = dict((q, set(s)) for q, s in om.items())
        log.append((who, 'update', str(om), off))
        if off == 0 and rng.random() < .5: io.update(o)
        else: io.update(o, off)
        for q, s in om.items(): m.setdefault(q, set()).update(x + off for x in s)
        if pairs_of(o) != clean(om0): raise Bad('%s.update changed its argument to %r from %r' % (who, pairs_of(o), om0))
        other = o
        for q in list(om): other.add(q, np.array([900])); 
    elif op == 'del':
        if p not in m or not m[p]: return
        log.append((who, 'del', str(p))); del io[p]; m.pop(p)
    elif op in ('left', 'right') and block:
        start = rng.randrange(lo, hi); size = rng.randint(0, 4)
        log.append((who, op, start, size))
        if op == 'right':
            io.shift_right(start, size)
            for q in m: m[q] = set(x + size if x >= start else x for x in m[q])
        else:
            io.shift_left(start, size)
            for q in m: m[q] = set(x - size if x >= start + size else x for x in m[q] if not start <= x < start + size)
    elif op == 'copy':
        log.append((who, 'copy'))
        c = io.copy() if rng.random() < .5 else copy.deepcopy(io)
        cm = dict((q, set(s)) for q, s in clean(m).items())
        if type(c) is not PIO: raise Bad('copy of %s is a %r' % (who, type(c)))
        if pairs_of(c) != cm: raise Bad('copy of %s has %r, expected %r' % (who, pairs_of(c), cm))
        before = pairs_of(io)
        q = rng.choice(PROPS); c.add(q, np.array([3, 950])); c.shift_right(0, 2); c.shift_left(1, 1); c.remove(q, np.array([4]))
        for q in list(c.properties()): c.remove(q, np.arange(5))
        c.clear()
        if pairs_of(io) != before: raise Bad('a change of the copy changed %s from %r to %r' % (who, before, pairs_of(io)))


def base(rng, log):
    hi = rng.choice([4, 8, 12, 20])
    io, m = build(rng, hi)
    log.append(('new', str(m)))
    queries(rng, io, m, hi, 'table')
    for _ in range(rng.randint(3, 9)):
        step(rng, io, m, 0, hi, log, 'table')
        hi = max([hi] + [x + 1 for s in m.values() for x in s])
        queries(rng, io, m, hi, 'table')
    # helper functions
    a, b = np.unique(idxs(rng, 0, 9)), np.unique(idxs(rng, 0, 9))
    if sorted(set(a.tolist()) | set(b.tolist())) != [int(x) for x in combine_indices(a, b)]: raise Bad('combine_indices(%r, %r)' % (a, b))
    if sorted(set(a.tolist()) - set(b.tolist())) != [int(x) for x in remove_indices(a, b)]: raise Bad('remove_indices(%r, %r)' % (a, b))
    if bool(index_empty(a)) != (len(a) == 0): raise Bad('index_empty(%r)' % (a,))


def view(rng, log):
    total = rng.choice([6, 10, 16])
    io, m = build(rng, total)
    n = rng.randint(1, 3)
    cuts = sorted(rng.sample(range(total + 1), min(total + 1, n + 1)))
    wins = []
    for a, b in zip(cuts, cuts[1:]):
        if b > a: wins.append((a, b - a))
    if not wins: return
    views = []
    for off, size in wins:
        v = PIOV(io, off, size)
        views.append((v, off, size))
        if size > 2 and rng.random() < .5:          # a window on a window
            o2 = rng.randrange(size - 1); views.append((PIOV(v, o2, rng.randint(1, size - o2)), off + o2, None))
    views = [(v, off, v._size) for v, off, _ in views]
    log.append(('table', str(m), [(o, s) for _, o, s in views]))
    def vm(off, size): return dict((p, set(x - off for x in s if off <= x < off + size)) for p, s in m.items())
    for _ in range(rng.randint(3, 8)):
        for v, off, size in views: queries(rng, v, vm(off, size), size, 'window')
        v, off, size = rng.choice(views)
        mm = clean(vm(off, size))
        def outside(): return dict((p, set(x for x in s if not off <= x < off + size)) for p, s in m.items())
        rest = outside()
        # updates stay inside the window
        step_view(rng, v, mm, size, log, (off, size))
        m.clear()
        for p in PROPS:
            s = set(rest.get(p, ())) | set(x + off for x in mm.get(p, ()))
            if s: m[p] = s
        got = pairs_of(io)
        if got != clean(m): raise Bad('the table is %r, expected %r' % (got, clean(m)))
    for v, off, size in views: queries(rng, v, vm(off, size), size, 'window')
    queries(rng, io, m, total, 'table')


def step_view(rng, v, mm, size, log, who):
    while True:
        n = len(log)
        op = rng.random()
        if op < .12:
            o, om = build(rng, size); log.append((who, 'update', str(om)))
            v.update(o)
            for q, s in om.items(): mm.setdefault(q, set()).update(s)
            if pairs_of(o) != clean(om): raise Bad('update through a window changed its argument')
            return
        if op < .2 and size > 1:
            off = rng.randrange(1, size); o, om = build(rng, size - off); log.append((who, 'update', str(om), off))
            v.update(o, off)
            for q, s in om.items(): mm.setdefault(q, set()).update(x + off for x in s)
            return
        if op < .3:
            log.append((who, 'clear')); v.clear(); mm.clear(); return
        st = random.Random(rng.random())
        # the generic operations which stay in the window
        o2 = st.choice(['add', 'remove', 'del', 'copy'])
        _one(st, v, mm, size, log, who, o2)
        if len(log) > n: return


def _one(rng, v, mm, size, log, who, op):
    class R(object):
        pass
    old = rng.choice
    first = [True]
    def choice(l):
        if first[0] and len(l) == 11:
            first[0] = False; return op
        return old(l)
    rng.choice = choice
    try: step(rng, v, mm, 0, size, log, who, block=False)
    finally: rng.choice = old
