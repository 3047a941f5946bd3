"""The public operations: gen_<op>(world) -> JSON descriptor, do_<op>(world, descriptor) -> effects on the specification."""
import random, re, pickle, os, tempfile
import numpy as np
import paramz
from paramz.core import HierarchyError
from paramz.param import ParamConcatenation
from .spec import Con, CONS, Entry, S
from .classes import Node, Mod, TRACE, wt
from .world import *


def res(approx=(), hooks=(), **kw):
    d = dict(approx=list(approx), hooks=list(hooks)); d.update(kw); return d


def leafp(s): return s.leaf
def nodep(s): return not s.leaf and len(s.entries()) > 0
def anyp(s): return len(s.entries()) > 0


def need(c):
    if not c: raise Skip()


# ------------------------------------------------------------------ writing values
def zero_first(w, s, es, act, d):
    """zero is a value like any other: written first, where nothing forbids it"""
    if not d.get('z') or any(e.con for e in es) or not es: return
    act(0. if d['z'] == 1 else 0); keep = [e.v for e in es]
    for e in es: e.v = 0.
    try:
        if s.leaf:       # the root may not be initialised yet
            got = np.asarray(s.real).ravel()
            for i, e in enumerate(s.e):
                if not w.close(got[i], e.v): raise Mismatch('values', '%s entry %d is %r after zero was written, expected %r' % (s.path(), i, float(got[i]), e.v))
        else: w.cmp_values(s.root(), ())
    finally:
        for e, v in zip(es, keep): e.v = v
    del TRACE[:]

def zflag(w): return w.rng.choice([1, 2]) if w.rng.random() < .2 else 0

def gen_write(w):
    s = w.pick(leafp); d = gen_idx(w.rng, s.shape)
    pos = positions(s.shape, d)
    es = [s.e[int(i)] for i in pos.ravel()]
    v = common_value(w.rng, es) if w.rng.random() < .4 else None
    if v is None: v = np.array([legal_value(w.rng, e.con) for e in es]).reshape(pos.shape).tolist()
    return dict(a=w.addr(s), idx=d, v=v, z=zflag(w))

def do_write(w, d):
    s = w.at(d['a']); pos = positions(s.shape, d['idx']).ravel()
    zero_first(w, s, [s.e[int(i)] for i in pos], lambda v: s.real.__setitem__(mkidx(d['idx']), v), d)
    s.real[mkidx(d['idx'])] = d['v']
    vals = np.broadcast_to(np.asarray(d['v'], float).ravel() if np.ndim(d['v']) else d['v'], pos.shape).ravel()
    for i, v in zip(pos, vals): s.e[int(i)].v = float(v)
    return res(hooks=[s])

BASIC = ('all', 's', 'e')
def gen_iop(w):
    s = w.pick(leafp)
    d = gen_idx(w.rng, s.shape, scalar=False)
    how = w.rng.choice(['handle', 'item', 'view', 'attr'])
    if how == 'view' and not (d[0] in BASIC or (d[0] == 't' and all(x[0] in BASIC + ('n',) for x in d[1]))): d = ['all']
    if how in ('handle', 'attr'): d = ['all']
    if how == 'attr':
        need(s.parent is not None and attr_ok(s))
    pos = positions(s.shape, d)
    es = [s.e[int(i)] for i in pos.ravel()]
    tgt = [legal_value(w.rng, e.con) for e in es]
    return dict(a=w.addr(s), idx=d, how=how, o=w.rng.choice(['+', '-', '*', '/']), v=np.array(tgt).reshape(pos.shape).tolist())

def _iop(x, o, y):
    if o == '+': x += y
    elif o == '-': x -= y
    elif o == '*': x *= y
    else: x /= y
    return x

def do_iop(w, d):
    s = w.at(d['a']); pos = positions(s.shape, d['idx'])
    cur = np.array([s.e[int(i)].v for i in pos.ravel()]).reshape(pos.shape); tgt = np.asarray(d['v'], float)
    o = d['o']
    arg = {'+': tgt - cur, '-': cur - tgt, '*': tgt / cur, '/': cur / tgt}[o]
    new = _iop(cur.copy(), o, arg)
    if d['how'] == 'handle': x = s.real; _iop(x, o, arg)
    elif d['how'] == 'view': x = s.real[mkidx(d['idx'])]; _iop(x, o, arg)
    elif d['how'] == 'item':
        ix = mkidx(d['idx']); x = s.real
        if o == '+': x[ix] += arg
        elif o == '-': x[ix] -= arg
        elif o == '*': x[ix] *= arg
        else: x[ix] /= arg
    else:
        n = pname(s.name); p = s.parent.real
        setattr(p, n, _iop(getattr(p, n), o, arg))
    for i, v in zip(pos.ravel(), new.ravel()): s.e[int(i)].v = float(v)
    return res(hooks=[s])

def gen_view(w):
    """assignment through a basic view of a parameter"""
    h = gen_held(w, basic) or {}
    s = w.at(h['a']) if h else w.pick(leafp); d = h.get('idx')
    if d is None:
        for _ in range(20):
            d = gen_idx(w.rng, s.shape, scalar=False)
            if basic(d): break
        else: d = ['all']
    pos = positions(s.shape, d)
    es = [s.e[int(i)] for i in pos.ravel()]
    v = np.array([legal_value(w.rng, e.con) for e in es]).reshape(pos.shape).tolist()
    return dict(h, a=w.addr(s), idx=d, v=v, z=zflag(w))

def do_view(w, d):
    s = w.at(d['a']); pos = positions(s.shape, d['idx']).ravel()
    x = handle(w, s, d)
    zero_first(w, s, [s.e[int(i)] for i in pos], lambda v: x.__setitem__(slice(None), v), d)
    x[:] = d['v']
    for i, v in zip(pos, np.asarray(d['v'], float).ravel()): s.e[int(i)].v = float(v)
    return res(hooks=[s])

def attr_ok(s):
    if s.parent is None: return False
    p = pname(s.name)
    return [pname(c.name) for c in s.parent.children].count(p) == 1 and p not in dir(type(s.parent.real))

def gen_attr(w):
    s = w.pick(lambda s: attr_ok(s) and len(s.entries()) > 0)
    es = s.entries()
    v = common_value(w.rng, es) if w.rng.random() < .5 else None
    if v is None:
        v = [legal_value(w.rng, e.con) for e in es]
        if s.leaf: v = np.array(v).reshape(s.shape).tolist()
    return dict({'as': w.rng.randrange(4)}, a=w.addr(s), v=v, z=zflag(w))

def do_attr(w, d):
    s = w.at(d['a'])
    zero_first(w, s, s.entries(), lambda v: setattr(s.parent.real, pname(s.name), v), d)
    v = np.array(d['v'])
    if v.ndim == 0 or s.leaf: v = [lambda v: v, lambda v: float(v) if v.ndim == 0 else v.tolist(), lambda v: paramz.Param('other', v), lambda v: paramz.ObsAr(v)][d.get('as', 0)](v)
    setattr(s.parent.real, pname(s.name), v)
    es = s.entries()
    for e, v in zip(es, np.broadcast_to(np.asarray(d['v'], float).ravel() if np.ndim(d['v']) else d['v'], (len(es),))): e.v = float(v)
    return res(hooks=[s])

def gen_nodewrite(w):
    s = w.pick(nodep)
    n = len(s.entries())
    k = w.rng.choice(['all', 's', 'i', 'm'])
    d = {'all': ['all'], 's': ['s', w.rng.choice([None, 0, 1]), w.rng.choice([None, -1, 3]), w.rng.choice([None, 2])],
         'i': ['i', w.rng.sample(range(n), w.rng.randint(1, n))], 'm': ['m', [w.rng.random() < .5 for _ in range(n)]]}[k]
    pos = positions((n,), d)
    need(pos.size)
    es = s.entries(); es = [es[int(i)] for i in pos]
    v = common_value(w.rng, es) if w.rng.random() < .4 else None
    if v is None: v = [legal_value(w.rng, e.con) for e in es]
    return dict(a=w.addr(s), idx=d, v=v, z=zflag(w))

def do_nodewrite(w, d):
    s = w.at(d['a']); es = s.entries(); ix = mkidx(d['idx'])
    if isinstance(ix, list): ix = np.array(ix)
    pos = positions((len(es),), d['idx'])
    zero_first(w, s, [es[int(i)] for i in pos], lambda v: s.real.__setitem__(ix, v), d)
    s.real[ix] = d['v']
    for i, v in zip(pos, np.broadcast_to(d['v'], pos.shape)): es[int(i)].v = float(v)
    return res(hooks=[s])

def xval(w, con):
    x = w.rng.uniform(-2.5, 2.5)
    return x if abs(x) > .2 else .7

def gen_optset(w):
    s = w.pick(anyp); x = [xval(w, e.con) for e in s.free()]
    # sometimes numbers which are the current values of (some of) the parameters themselves
    if w.rng.random() < .15: p = w.rng.choice([.5, 1, 1]); x = [float(e.v) if .2 < abs(e.v) < 2.5 and w.rng.random() < p else y for e, y in zip(s.free(), x)]
    return dict(a=w.addr(s), x=x)

def set_from_opt(es, x):
    for e, v in zip(es, x): e.v = Con(e.con).f(v) if e.con else float(v)

def do_optset(w, d):
    s = w.at(d['a']); need(s.entries())
    fr = s.free()
    s.real.optimizer_array = np.array(d['x'], float)
    set_from_opt(fr, d['x'])
    back = np.array(s.real.optimizer_array)
    want = [abs(x) if e.con and e.con[0] == 'Square' else x for e, x in zip(fr, d['x'])]
    if back.shape != (len(want),) or not np.allclose(back, want, rtol=1e-6, atol=1e-7):
        raise Mismatch('optvec', 'wrote %r to the optimizer vector of %s, read back %r' % (d['x'], s.path(), back.tolist()))
    return res(approx=[e for e in fr if e.con], hooks=[s])

# ------------------------------------------------------------------ constraints
def target(w, d):
    """(real handle, entries) of a descriptor with address and optional index"""
    s = w.at(d['a'])
    if d.get('idx') is None: return s, s.real, s.entries()
    pos = positions(s.shape, d['idx']).ravel()
    return s, handle(w, s, d), [s.e[int(i)] for i in pos]

def handle(w, s, d):
    """the indexed part of a parameter: taken now, or kept since an earlier operation"""
    if w.held is None: return s.real[mkidx(d['idx'])]
    if d.get('held') is not None and d['held'] < len(w.held): return w.held[d['held']][2]
    x = s.real[mkidx(d['idx'])]
    if len(w.held) < 5: w.held.append((s, d['idx'], x))
    return x

def gen_held(w, ok=lambda d: True):
    c = [i for i, (s, d, x) in enumerate(w.held or ()) if ok(d)]
    if not c or w.rng.random() < .6: return None
    i = w.rng.choice(c); return dict(a=w.addr(w.held[i][0]), idx=w.held[i][1], held=i)

def basic(d): return d[0] in BASIC or (d[0] == 't' and all(x[0] in BASIC + ('n',) for x in d[1]))

def gen_target(w, prefer=None):
    d = gen_held(w)
    if d is not None: return d
    s = w.pick(anyp, prefer)
    d = dict(a=w.addr(s), idx=None)
    if s.leaf and w.rng.random() < .5: d['idx'] = gen_idx(w.rng, s.shape, scalar=False)
    return d

def gen_con(w):
    d = gen_target(w); d['key'] = list(w.rng.choice(CONS)); d['how'] = w.rng.choice(['constrain', 'conv']); return d

def do_con(w, d):
    s, real, es = target(w, d); key = tuple(d['key'])
    if d['how'] == 'conv' and key[0] == 'Logexp': real.constrain_positive()
    elif d['how'] == 'conv' and key[0] == 'NegativeLogexp': real.constrain_negative(warning=False)
    elif d['how'] == 'conv' and key[0] == 'Logistic': real.constrain_bounded(*key[1:])
    else: real.constrain(make_con(key))
    c = Con(key); ap = []
    for e in es:
        e.con = key; e.fixed = False
        if not c.legal(e.v): e.v = c.init(e.v); ap.append(e)
    return res(approx=ap, hooks=[s])

def gen_uncon(w):
    d = gen_target(w, lambda s: any(e.con for e in s.entries()))
    s = w.at(d['a'])
    present = sorted(set(e.con for e in s.entries() if e.con))
    r = w.rng.random()
    if r < .35 or not present: keys = []
    elif r < .85: keys = [w.rng.choice(present)]
    else: keys = w.rng.sample(CONS, 2)
    d['keys'] = [list(k) for k in keys]; d['how'] = w.rng.choice(['uncon', 'conv']); return d

def do_uncon(w, d):
    s, real, es = target(w, d); keys = [tuple(k) for k in d['keys']]
    if d['how'] == 'conv' and len(keys) == 1 and keys[0][0] in ('Logexp', 'NegativeLogexp', 'Logistic'):
        k = keys[0]
        if k[0] == 'Logexp': real.unconstrain_positive()
        elif k[0] == 'NegativeLogexp': real.unconstrain_negative()
        else: real.unconstrain_bounded(*k[1:])
    else: real.unconstrain(*[make_con(k) for k in keys])
    for e in es:
        if not keys: e.con = None; e.fixed = False
        elif e.con in keys: e.con = None
    return res()

def gen_fix(w):
    d = gen_target(w, lambda s: not all(e.fixed for e in s.entries()))
    s, real, es = target(w, d)
    d['v'] = common_value(w.rng, es) if w.rng.random() < .3 else None
    d['z'] = zflag(w) if d['v'] is not None else 0
    d['how'] = w.rng.choice(['fix', 'constrain_fixed', 'constrain']); return d

def do_fix(w, d):
    s, real, es = target(w, d)
    if d['v'] is not None:
        zero_first(w, s, es, lambda v: real.fix(v), d)
        (real.fix if d['how'] == 'fix' else real.constrain_fixed)(d['v'], warning=False)
        for e in es: e.v = float(d['v'])
    elif d['how'] == 'constrain': real.constrain('fixed')
    else: getattr(real, d['how'])()
    for e in es: e.fixed = True
    return res(hooks=[s] if d['v'] is not None else [])

def gen_unfix(w):
    d = gen_target(w, lambda s: any(e.fixed for e in s.entries()))
    d['how'] = w.rng.choice(['unfix', 'unconstrain_fixed', 'uncon']); return d

def do_unfix(w, d):
    s, real, es = target(w, d)
    if d['how'] == 'uncon': real.unconstrain('fixed')
    else: getattr(real, d['how'])()
    for e in es: e.fixed = False
    return res()

# ------------------------------------------------------------------ structure
def build_new(w, seed, kind):
    old = w.rng; w.rng = random.Random(seed)
    try:
        return w.rand_leaf() if kind == 'leaf' else w.rand_node(1, False, empty=(kind == 'empty'))
    finally:
        w.rng = old

def gen_link(w):
    s = w.pick(lambda s: not s.leaf and s.root().on)
    r = w.rng.random()
    root = s.root()
    if r < .5 or len(w.roots) < 2:
        src = ['new', w.rng.randrange(10**6), w.rng.choice(['leaf', 'leaf', 'node', 'empty'])]
    elif r < .8:
        c = [x for x in w.roots if x is not root and x.on and not isinstance(x.real, Mod)]
        need(c); src = w.addr(w.rng.choice(c))
    else:
        c = [x for x in w.all_nodes() if x.root() is not root and x.parent is not None and x.root().on]
        need(c); src = w.addr(w.rng.choice(c))
    n = len(s.children)
    return dict(a=w.addr(s), src=src, index=w.rng.choice([None, None, 0, n, w.rng.randint(0, n), -1, n + 3]))

def do_link(w, d):
    s = w.at(d['a'])
    if d['src'][0] == 'new':
        x = build_new(w, d['src'][1], d['src'][2])
    else:
        x = w.at(d['src'])
    if d['index'] is None: s.real.link_parameter(x.real)
    else: s.real.link_parameter(x.real, index=d['index'])
    detach(w, x)
    if d['index'] is None: s.children.append(x)
    else: s.children.insert(d['index'], x)
    x.parent = s
    w.adopt_names(s.root(), None)
    return res()

def detach(w, x):
    if x.parent is None:
        w.roots[:] = [r for r in w.roots if r is not x]
    else:
        w.oldnames.setdefault(id(x.parent), set()).add(pname(x.name))
        x.parent.children[:] = [c for c in x.parent.children if c is not x]
        x.parent = None

def gen_unlink(w):
    return dict(a=w.addr(w.pick(lambda s: s.parent is not None)))

def do_unlink(w, d):
    s = w.at(d['a']); on = s.root().on
    s.parent.real.unlink_parameter(s.real)
    detach(w, s); s.on = on
    w.roots.append(s)
    return res()

def gen_swap(w):
    s = w.pick(lambda s: not s.leaf and s.root().on and s.children and s.entries(), prefer=lambda s: s.parent is None)
    return dict(a=w.addr(s), seed=w.rng.randrange(10**6), order=w.rng.choice(['first', 'last']))

def do_swap(w, d):
    'all children out, one new parameter of the same total size in'
    s = w.at(d['a']); n = len(s.entries()); on = s.root().on
    while s.children:
        x = s.children[0 if d['order'] == 'first' else -1]
        s.real.unlink_parameter(x.real)
        detach(w, x); x.on = on
        w.roots.append(x)
    old = w.rng; w.rng = random.Random(d['seed'])
    try: x = w.rand_leaf((n,))
    finally: w.rng = old
    s.real.link_parameter(x.real); detach(w, x); s.children.append(x); x.parent = s
    w.adopt_names(s.root(), None)
    return res()

def gen_move(w):
    s = w.pick(lambda s: s.parent is not None and s.root().on)
    return dict(a=w.addr(s), index=w.rng.choice([0, -1, w.rng.randint(0, len(s.parent.children))]))

def do_move(w, d):
    s = w.at(d['a']); p = s.parent
    p.real.link_parameter(s.real, index=d['index'])
    p.children[:] = [c for c in p.children if c is not s]
    p.children.insert(d['index'], s)
    w.adopt_names(p.root(), None)
    return res()

def gen_refuse(w):
    s = w.pick(lambda s: not s.leaf)
    k = w.rng.choice(['again', 'inside', 'above', 'stranger'])
    root = s.root()
    if k == 'again':
        need(s.children); x = w.rng.choice(s.children); idx = None
    elif k == 'inside':
        c = [n for n in root.nodes() if n.parent is not None and n.parent is not s and s not in n.nodes()]
        need(c); x = w.rng.choice(c); idx = w.rng.choice([None, 0])
    elif k == 'above':
        x = w.rng.choice([s] + s.ancestors()); idx = w.rng.choice([None, 0])
    else:
        c = [n for n in w.all_nodes() if n.parent is not s]
        need(c); x = w.rng.choice(c); idx = None
    return dict(a=w.addr(s), x=w.addr(x), kind=k, index=idx)

def do_refuse(w, d):
    s, x = w.at(d['a']), w.at(d['x'])
    try:
        if d['kind'] == 'stranger': s.real.unlink_parameter(x.real)
        elif d['index'] is None: s.real.link_parameter(x.real)
        else: s.real.link_parameter(x.real, d['index'])
    except HierarchyError:
        return res()
    raise Mismatch('result', 'linking/unlinking (%s) was not refused' % d['kind'])

def gen_rename(w):
    s = w.pick(); return dict(a=w.addr(s), name=w.fresh_name())

def do_rename(w, d):
    s = w.at(d['a']); old = s.name
    s.real.name = d['name']
    if s.parent is not None and old != d['name']: w.oldnames.setdefault(id(s.parent), set()).add(pname(old))
    s.name = d['name']
    w.adopt_names(s.root(), None)
    return res()

# ------------------------------------------------------------------ updates
def gen_updates(w):
    s = w.pick(); return dict(a=w.addr(s), on=w.rng.choice([True, True, False]), toggle=w.rng.random() < .3)

def do_updates(w, d):
    s = w.at(d['a']); r = s.root()
    on = d['on']
    if d['toggle']: on = not r.on; s.real.update_toggle()
    else: s.real.update_model(on)
    r.on = on
    return res(allhooks=[r] if on else [])

def gen_trigger(w): return dict(a=w.addr(w.pick()))
def do_trigger(w, d):
    s = w.at(d['a']); s.real.trigger_update(); return res(hooks=[s])

# ------------------------------------------------------------------ copies
def gen_copy(w):
    need(len(w.roots) < 5); return dict(a=w.addr(w.pick(anyp)))

def do_copy(w, d):
    s = w.at(d['a']); c = s.real.copy()
    n = s.clone_into(c, {}); n.on = s.root().on
    w.roots.append(n)
    return res(unhook=True)

def gen_pickle(w):
    need(len(w.roots) < 5); s = w.rng.choice(w.roots)
    return dict(a=w.addr(s), how=w.rng.choice(['dumps2', 'dumps4', 'dumps5', 'file', 'buf']))

def roundtrip(real, how):
    if how.startswith('dumps'): return pickle.loads(pickle.dumps(real, int(how[5:])))
    if how == 'buf':
        # what else is in the file is left alone
        b = io.BytesIO(); pickle.dump('first', b); at = b.tell(); real.pickle(b); pickle.dump('last', b); b.seek(at)
        r = paramz.load(b)
        if pickle.load(b) != 'last': raise Exception('loading from an open file read something else')
        return r
    f = tempfile.NamedTemporaryFile(delete=False); f.close()
    try:
        real.pickle(f.name); return paramz.load(f.name)
    finally:
        os.unlink(f.name)

def do_pickle(w, d):
    s = w.at(d['a']); c = roundtrip(s.real, d['how'])
    n = s.clone_into(c, {}); n.on = s.on
    w.roots.append(n)
    return res(unhook=True)

def gen_drop(w):
    need(len(w.roots) > 3); return dict(i=w.rng.randrange(len(w.roots)))
def do_drop(w, d):
    del w.roots[d['i']]; return res(unhook=True)

# ------------------------------------------------------------------ randomize
def gen_randomize(w):
    s = w.pick(anyp); return dict(a=w.addr(s), x=[xval(w, e.con) for e in s.free()], default=w.rng.random() < .15)

def do_randomize(w, d):
    s = w.at(d['a']); fr = s.free()
    if d['default']:
        st = np.random.get_state(); np.random.seed(3); x = np.random.normal(size=len(fr)); np.random.seed(3)
        try: s.real.randomize()
        finally: np.random.set_state(st)
        set_from_opt(fr, x)
        return res(approx=fr, allhooks=[s.root()] if s.root().on else [])
    calls = []
    def gen(size, *a, **kw):
        calls.append((int(size), a, kw)); return np.array(d['x'])
    s.real.randomize(gen, scale=2)
    if [(c[0], c[2]) for c in calls] != [(len(fr), {'scale': 2})]:
        raise Mismatch('result', 'generator of randomize called with %r, %d free entries' % (calls, len(fr)))
    set_from_opt(fr, d['x'])
    return res(approx=fr, allhooks=[s.root()] if s.root().on else [])

# ------------------------------------------------------------------ optimizer callbacks
def gen_eval(w):
    c = [r for r in w.roots if isinstance(r.real, Mod) and r.on and r.free()]
    need(c); s = w.rng.choice(c)
    d = dict(a=w.addr(s), x=[xval(w, e.con) for e in s.free()], which=w.rng.choice(['_objective', '_grads', '_objective_grads']))
    # optimizers hand over one array again and again, sometimes a point which was evaluated before
    d['reuse'] = w.rng.random() < .5
    last = w.__dict__.get('xlast', {}).get(id(s.real))
    if last is not None and len(last) == len(d['x']) and w.rng.random() < .25: d['x'] = list(last)
    fixed = [i for i, e in enumerate(s.entries()) if e.fixed]
    # gradients of fixed entries are nobody's business, a model need not compute them
    if fixed and w.rng.random() < .3: d['odd'] = {str(i): w.rng.choice(['nan', 'inf', '-inf', '1e300']) for i in fixed if w.rng.random() < .6}
    return d

def do_eval(w, d):
    s = w.at(d['a']); fr = s.free(); m = s.real
    x = np.array(d['x'], float); x0 = x.copy()
    keep = w.__dict__.setdefault('xkeep', {})
    if d.get('reuse'):
        k = keep.get(id(m))
        if k is not None and k[0] is m and k[1].size == x.size: x = k[1]; x[:] = x0
        else: keep[id(m)] = (m, x)
    w.__dict__.setdefault('xlast', {})[id(m)] = list(d['x'])
    odd = {int(i): float(v) for i, v in d.get('odd', {}).items()}
    m.bad = odd or None
    try: out = getattr(m, d['which'])(x)
    finally: m.bad = None
    if not (x == x0).all(): raise Mismatch('result', 'the vector handed to %s was changed' % d['which'])
    set_from_opt(fr, d['x'])
    es = s.entries(); n = len(es); ww, t = wt(n)
    v = np.array([e.v for e in es]); f = .5 * np.sum(ww * (v - t) ** 2); g = ww * (v - t)
    gg = []
    for i, e in enumerate(es):
        if not e.fixed: gg.append(g[i] * (Con(e.con).d(e.v) if e.con else 1.))
    if d['which'] == '_objective': fv, gr = out, None
    elif d['which'] == '_grads': fv, gr = None, out
    else: fv, gr = out
    if fv is not None and not abs(fv - f) <= 1e-7 * (1 + abs(f)): raise Mismatch('eval', '%s(x) returned objective %r, expected %r' % (d['which'], fv, f))
    if gr is not None:
        if np.shape(gr) != (len(gg),) or not np.allclose(gr, gg, rtol=1e-6, atol=1e-9):
            raise Mismatch('eval', '%s(x) returned gradient %r, expected %r' % (d['which'], np.asarray(gr).tolist(), gg))
        for old, cp in w.evals:
            if old.shape != cp.shape or not (old == cp).all(): raise Mismatch('eval', 'gradient returned by an earlier evaluation changed from %r to %r' % (cp.tolist(), old.tolist()))
        w.evals.append((gr, np.array(gr))); del w.evals[:-6]
    for i, v in odd.items(): g[i] = v if abs(v) > 1e50 else np.nan
    full = np.asarray(m.gradient_full)
    if full.shape != (n,) or not np.allclose(full, g, rtol=1e-6, atol=1e-9, equal_nan=True): raise Mismatch('eval', 'after %s the gradient stored on the model is %r, expected %r' % (d['which'], full.tolist(), g.tolist()))
    return res(approx=fr, hooks=[s])

# ------------------------------------------------------------------ gradient writes
def gen_grad(w):
    h = gen_held(w, basic) or {}
    s = w.at(h['a']) if h else w.pick(anyp); d = h.get('idx')
    if d is not None or s.leaf and w.rng.random() < .5:
        # through a basic view of a parameter
        for _ in range(20):
            if d is not None: break
            d = gen_idx(w.rng, s.shape, scalar=False)
            if not basic(d): d = None
        else: d = ['all']
        pos = positions(s.shape, d)
        return dict(h, a=w.addr(s), idx=d, how=w.rng.choice(['set', 'put', 'add']), g=[w.rng.uniform(-1, 1) for _ in range(pos.size)], shape=list(pos.shape))
    return dict(a=w.addr(s), g=[w.rng.uniform(-1, 1) for _ in s.entries()])

def do_grad(w, d):
    s = w.at(d['a']); g = np.array(d['g'])
    if d.get('idx') is not None:
        pos = positions(s.shape, d['idx']).ravel(); h = g.reshape(d['shape'])
        g = np.array(s.real.gradient).ravel(); x = handle(w, s, d)
        if d['how'] == 'set': x.gradient = h
        elif d['how'] == 'put': x.gradient[...] = h
        else: x.gradient += h; h = h + g[pos].reshape(h.shape)
        g[pos] = h.ravel()
        if np.shape(x.gradient) != h.shape or not np.array_equal(x.gradient, h, equal_nan=True): raise Mismatch('grad', 'gradient of a part of %s is %r, expected %r' % (s.path(), np.asarray(x.gradient).tolist(), h.tolist()))
    elif s.leaf: s.real.gradient = g.reshape(s.shape)
    else: s.real.gradient = g
    for n in [s] + s.ancestors() + s.nodes():
        if not n.entries(): continue
        if n in s.nodes(): o = n.offset_in(s); got = np.asarray(n.real.gradient).ravel(); want = g[o:o + len(n.entries())]
        else: o = s.offset_in(n); got = np.asarray(n.real.gradient).ravel()[o:o + len(g)]; want = g
        if got.shape != want.shape or not np.array_equal(got, want, equal_nan=True): raise Mismatch('grad', 'gradient written through %s is %r at %s, expected %r' % (s.path(), got.tolist(), n.path(), want.tolist()))
    return res()

# ------------------------------------------------------------------ annotations
def gen_annot(w):
    need(w.annotate); d = gen_target(w); d['name'] = w.rng.choice(['red', 'blue']); d['rm'] = w.rng.random() < .3; return d

def do_annot(w, d):
    s = w.at(d['a']); n = len(s.entries())
    pos = np.arange(n) if d['idx'] is None else positions(s.shape, d['idx']).ravel()
    es = s.entries()
    if d['rm']: w.ann_of(s.real).remove(d['name'], np.sort(pos))
    else: w.ann_of(s.real).add(d['name'], pos)
    for i in pos:
        e = es[int(i)]; e.ann = (e.ann - {d['name']}) if d['rm'] else (e.ann | {d['name']})
    return res()

# ------------------------------------------------------------------ regular expressions and concatenations
def dotted(n): return '.'.join(pname(x.name) for x in (list(reversed(n.ancestors()))[1:] + [n]))

def gen_regex(w):
    s = w.pick(nodep)
    des = s.nodes()[1:]
    x = w.rng.choice(des)
    pat = w.rng.choice(['', '.*', re.escape(dotted(x)) + '$', '.*' + re.escape(pname(x.name)), re.escape(dotted(x)), '.*[abx]$', 'nomatch', pname(x.name)[0]])
    d = dict(a=w.addr(s), pat=pat, do=w.rng.choice(['read', 'write', 'write', 'part', 'part', 'con', 'uncon', 'fix', 'unfix', 'assign', 'partcon', 'partfix', 'partread', 'partwrite']),
             key=list(w.rng.choice(CONS)), seed=w.rng.randrange(10**6), compiled=w.rng.random() < .3)
    return d

def do_regex(w, d):
    s = w.at(d['a']); rng = random.Random(d['seed'])
    exp = [n for n in s.nodes()[1:] if re.match(d['pat'], dotted(n))]
    key = re.compile(d['pat']) if d['compiled'] else d['pat']
    if not exp:
        try: s.real[key]
        except AttributeError: return res()
        raise Mismatch('result', 'pattern %r matches nothing below %s but gave a result' % (d['pat'], s.path()))
    got = s.real[key]
    if len(exp) == 1:
        if got is not exp[0].real: raise Mismatch('result', 'pattern %r below %s should give %s itself' % (d['pat'], s.path(), exp[0].path()))
        leaves = exp[0].leaves(); conc = False
    else:
        leaves = []
        for n in exp:
            for l in n.leaves():
                if not any(l is k for k in leaves): leaves.append(l)
        if not isinstance(got, ParamConcatenation): raise Mismatch('result', 'pattern %r below %s gave %r' % (d['pat'], s.path(), type(got)))
        if len(got.params) != len(leaves) or any(a is not b.real for a, b in zip(got.params, leaves)):
            raise Mismatch('result', 'pattern %r below %s selects %r, expected %r' % (d['pat'], s.path(), [p.hierarchy_name() for p in got.params], [l.path() for l in leaves]))
        conc = True
    es = [e for l in leaves for e in l.e]
    owner = [l for l in leaves for e in l.e]
    n = len(es)
    if not n: return res()
    do = d['do']
    if do == 'read' or (not conc and do.startswith('part')):
        if conc:
            v = got.values()
            if np.shape(v) != (n,) or any(a != e.v for a, e in zip(v, es)): raise Mismatch('result', 'values of the concatenation are %r, expected %r' % (np.asarray(v).tolist(), [e.v for e in es]))
        return res()
    tgt = leaves if conc else [exp[0]]
    if do in ('write', 'assign'):
        v = common_value(rng, es) if rng.random() < .5 else None
        if v is None:
            if not conc and exp[0].leaf: v = np.array([legal_value(rng, e.con) for e in es]).reshape(exp[0].shape)
            else: v = np.array([legal_value(rng, e.con) for e in es])
        zero_first(w, s, es, (lambda v: s.real.__setitem__(key, v)) if do == 'assign' else lambda v: got.__setitem__(slice(None), v), dict(z=rng.choice([0, 0, 0, 0, 1, 2])))
        if do == 'assign': s.real[key] = v
        else: got[:] = v
        for e, x in zip(es, np.broadcast_to(np.ravel(v) if np.ndim(v) else v, (n,))): e.v = float(x)
        return res(hooks=tgt)
    if do == 'con':
        k = tuple(d['key']); c = Con(k)
        if k[0] == 'Logexp': got.constrain_positive()
        elif k[0] == 'NegativeLogexp': got.constrain_negative()
        elif k[0] == 'Logistic': got.constrain_bounded(*k[1:])
        else: got.constrain(make_con(k))
        return con_effect(es, k, tgt)
    if do == 'uncon':
        k = tuple(d['key'])
        if rng.random() < .4: k = None
        if k is None: got.unconstrain()
        elif k[0] == 'Logexp': got.unconstrain_positive()
        elif k[0] == 'NegativeLogexp': got.unconstrain_negative()
        elif k[0] == 'Logistic': got.unconstrain_bounded(*k[1:])
        else: got.unconstrain(make_con(k))
        for e in es:
            if k is None: e.con = None; e.fixed = False
            elif e.con == k: e.con = None
        return res()
    if do == 'fix':
        v = common_value(rng, es) if rng.random() < .3 else None
        if v is not None: zero_first(w, s, es, lambda v: got.fix(v), dict(z=rng.choice([0, 0, 0, 0, 1, 2])))
        got.fix(v) if v is not None else got.constrain_fixed()
        for e in es:
            e.fixed = True
            if v is not None: e.v = float(v)
        return res(hooks=tgt if v is not None else [])
    if do == 'unfix':
        got.unfix() if rng.random() < .5 else got.unconstrain_fixed()
        for e in es: e.fixed = False
        return res()
    # an indexed part of the concatenation
    idx = gen_idx(rng, (n,), scalar=(do == 'part'))
    pos = positions((n,), idx)
    if do == 'part':
        sub = [es[int(i)] for i in np.ravel(pos)]
        v = common_value(rng, sub) if rng.random() < .4 or np.ndim(pos) == 0 else None
        if v is None: v = np.array([legal_value(rng, e.con) for e in sub])
        if np.ndim(pos) == 0: v = np.ravel(v)[0]
        got[mkidx(idx)] = v
        for e, x in zip(sub, np.broadcast_to(v, (len(sub),))): e.v = float(x)
        return res(hooks=tgt)
    mask = np.zeros(n, bool); mask[mkidx(idx)] = True
    sub = [e for e, m in zip(es, mask) if m]          # parts are in concatenation order
    own = [o for o, m in zip(owner, mask) if m]
    part = got[mkidx(idx)]
    single = len(set(id(o) for o in own)) == 1
    if do == 'partread':
        v = np.ravel(part.values if single else part.values())
        if v.shape != (len(sub),) or any(a != e.v for a, e in zip(v, sub)): raise Mismatch('result', 'part %s of the concatenation is %r, expected %r' % (idx_str(idx), v.tolist(), [e.v for e in sub]))
        return res()
    if do == 'partcon':
        k = tuple(d['key']); part.constrain(make_con(k)); return con_effect(sub, k, own)
    if do == 'partfix':
        part.fix()
        for e in sub: e.fixed = True
        return res()
    if single: return res()
    v = np.array([legal_value(rng, e.con) for e in sub])
    part[:] = v
    for e, x in zip(sub, v): e.v = float(x)
    return res(hooks=own)

def con_effect(es, k, tgt):
    c = Con(k); ap = []
    for e in es:
        e.con = k; e.fixed = False
        if not c.legal(e.v): e.v = c.init(e.v); ap.append(e)
    return res(approx=ap, hooks=tgt)

# ------------------------------------------------------------------ traversal
def gen_traverse(w):
    return dict(a=w.addr(w.pick()), fail=w.rng.random() < .3, up=w.rng.random() < .5, at=w.rng.randint(0, 3))

def do_traverse(w, d):
    s = w.at(d['a'])
    class Boom(Exception): pass
    if d['fail']:
        c = [0]
        def bad(x):
            if c[0] == d['at']: raise Boom()
            c[0] += 1
        try: (s.real.traverse_parents if d['up'] else s.real.traverse)(bad)
        except Boom: pass
    for n in (s, s.root(), w.pick()):
        seen = []; n.real.traverse(lambda x, a, k=None: seen.append((x, a, k)), 5, k=6)
        want = n.nodes()
        if len(seen) != len(want) or any(x[0] is not y.real for x, y in zip(seen, want)):
            raise Mismatch('result', 'traversal from %s visits %r, expected %r' % (n.path(), [x[0].name for x in seen], [y.path() for y in want]))
        if any(x[1:] != (5, 6) for x in seen): raise Mismatch('result', 'traversal from %s loses the arguments of the visitor' % n.path())
        seen = []; n.real.traverse_parents(seen.append)
        want = [x for x in n.root().nodes() if x not in n.nodes()]
        if len(seen) != len(want) or any(sum(1 for x in seen if x is y.real) != 1 for y in want):
            raise Mismatch('result', 'upward traversal from %s visits %r, expected %r' % (n.path(), [x.name for x in seen], [y.path() for y in want]))
    return res()

OPS = dict((k[3:], (globals()['gen_' + k[3:]], globals()['do_' + k[3:]])) for k in list(globals()) if k.startswith('do_'))

# parts of parameters which were taken before these are no parts of the hierarchy any more (or have the old switch of updates: known finding of C14)
STRUCT = ('link', 'unlink', 'move', 'swap', 'refuse', 'copy', 'pickle', 'drop', 'updates')

def step(w, op, desc):
    """run one described operation and all comparisons; raises Mismatches"""
    gen, do = OPS[op]
    del TRACE[:]
    if op in STRUCT and w.held is not None: del w.held[:]
    on = dict((id(r), r.on) for r in w.roots)
    grads = None
    if op in STRUCT and op not in ('copy', 'pickle') and w.rng.random() < .5:
        grads = []
        for r in w.roots:
            # recomputing a model fills in its gradient, so only the others keep theirs
            if isinstance(r.real, Mod): continue
            for l in r.leaves():
                v = np.array([w.rng.uniform(-3, 3) for _ in l.e]).reshape(l.shape)
                l.real.gradient = v; grads.append((l, v))
    try:
        eff = do(w, desc)
    except (Mismatch, Skip):
        raise
    except Mismatches:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Mismatch('exception', '%s: %s (%s:%s)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.name))
    errs = []
    for l, v in grads or ():
        if isinstance(l.root().real, Mod): continue
        if not np.array_equal(np.asarray(l.real.gradient), v):
            errs.append(Mismatch('grad', 'the gradient of %s was %r and is %r after %s' % (l.path(), v.tolist(), np.asarray(l.real.gradient).tolist(), op)))
            break
    trace_ok = not eff.get('unhook')
    if trace_ok:
        try:
            targets = [t for t in eff['hooks'] if t.root().on and on.get(id(t.root()), True)]
            off = [r for r in w.roots if not r.on and on.get(id(r)) is False] if op != 'updates' else [r for r in w.roots if not r.on]
            w.check_hooks(targets, off)
            for r in eff.get('allhooks', ()):
                for n in r.nodes():
                    if not n.leaf and n.entries() and (n is r or not all(e.fixed for e in n.entries())): w.check_hooks([n])
        except Mismatch as m:
            errs.append(m)
    try:
        w.compare_all(approx=eff['approx'])
    except Mismatches as m:
        errs += m.l
    if errs: raise Mismatches(errs)
