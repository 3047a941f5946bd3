"""C05, C06, C07, C08, C27: the optimizer vector of a node.  A node with n entries is seen at one arbitrary entry k0.  At most one
constraint C holds k0 (C09); its maps are uninterpreted elementwise functions (what they are is C01/C02).  The set of fixed entries
is an arbitrary set.  Array lengths, offsets and index sets are symbolic."""
import z3
from .. import rt, vals, shim, index, table
from ..base import contract, arg
from ..index import SIdx, SMask, FArr, Sel, Vec, PosSel, forall
from ..rt import Irr, Unsupported
from ..table import Table, eq_sets, items_contract
from ..vals import SObj, Opaque, SNum, Prop, fresh_int, fresh_real, num
from .c03_tables import NPY

MAPS = ['the maps of a constraint work element by element (C01); no entry has two constraints (C09)',
        'contracts of the bookkeeping tables and windows (C03, C04)']
FIX = ['if a root that is not a parameter has a mask _fixes_ of its own size, it tells exactly the entries not fixed (kept by _connect_fixes, _set_fixed, _set_unfixed: contracts below)']
R2R = z3.RealSort()


def OH():
    from paramz.core.parameter_core import OptimizationHandlable
    index.install()
    return OptimizationHandlable


def Pz():
    from paramz.parameterized import Parameterized
    index.install()
    return Parameterized


def Par():
    from paramz.param import Param
    index.install()
    return Param


class World(object): pass


def node(c, root=None, fixes=None, fixed=None, cls=None, contracts=None, vec=False):
    """a node with n entries.  root: has no parent; fixes: how _fixes_ stands"""
    w = World()
    if cls is None: cls = Par() if c.choose(2, 'a parameter') else Pz()
    par = cls is not Pz()
    n = w.n = fresh_int('n'); k0 = w.k0 = fresh_int('k0')
    c.assume(z3.And(n.e >= 1, k0.e >= 0, k0.e < n.e)); c.ghost['k0'] = k0
    phi = SIdx.symbol('fixed'); w.phi = phi.m
    c.assume(forall(lambda k: z3.Implies(phi.m(k), z3.And(k >= 0, k < n.e))))
    some = phi.card(); w.nfixed = some
    c.assume(some.e <= n.e)
    c.ghost['cards'] = [(phi.m, some)]
    w.has = c.decide(some.e > 0) if fixed is None else fixed
    if fixed is not None: c.assume((some.e > 0) if fixed else (some.e == 0))
    F, G, D = (z3.Function(x, R2R, R2R) for x in ('f', 'finv', 'init')); H = z3.Function('gradfactor', R2R, R2R, R2R)
    w.F, w.G, w.H = F, G, H
    w.own = bool(c.choose(2, 'k0 has a constraint'))
    cs = SIdx.symbol('C') if w.own else None
    if w.own:
        c.assume(forall(lambda k: z3.Implies(cs.m(k), z3.And(k >= 0, k < n.e)))); c.assume(cs.m(k0.e))
    def maps(name, irr=False):
        def f(o, s): return s.map(lambda e: F(e))
        def finv(o, s): return s.map(lambda e: G(e))
        def gf(o, s, d):
            index.same_key(s, d)
            return Sel(s.dom, H(s.e, d.e), s.key)
        from paramz.transformations import Transformation
        return SObj(name, Transformation, contracts=dict(f=f, finv=finv, gradfactor=gf), irr=irr)
    w.C = maps('constraint')
    x = w.x = FArr(n, fresh_real('x').e, k0.e, 'param_array'); w.x0 = x.e; c.tracked.append(x)
    def other():
        i = SIdx.symbol('other', irr=True)
        c.assume(i.card().e > 0); c.assume(z3.Not(i.m(k0.e))); c.assume(forall(lambda k: z3.Implies(i.m(k), z3.And(k >= 0, k < n.e))))
        return rt.IrrTuple((maps('another constraint', True), i))
    def items(o):
        out = [Irr(other, label='the other constraints')]
        for (k, i) in (['fixed', SIdx(phi.m, True, card=some) if w.has else None], [w.C, None if cs is None else SIdx(cs.m, True, card=cs.card())]):
            if i is not None: out += [(k, i), out[0]]
        return shim.WSeq(out)
    w.cons = SObj('constraints', None, contracts=dict(items=items, __getitem__=lambda o, k: getc(o, k)))
    def getc(o, k):
        if k == 'fixed' and isinstance(k, str): return SIdx(phi.m, True, card=some)
        if k is w.C: return SIdx(cs.m, True) if w.own else table.none()
        raise Unsupported('constraint %r' % (k,))
    w.root = (c.choose(2, 'has a parent') == 0) if root is None else root
    f = dict(parameters=Opaque('children')); absent = []
    fixes = c.choose(3, '_fixes_') if fixes is None else fixes
    free = lambda k: z3.Not(phi.m(k))
    if fixes == 0: f['_fixes_'] = None
    elif fixes == 1: absent.append('_fixes_')
    elif w.root and not par: f['_fixes_'] = SMask(n, free)
    else:
        # nobody tells about changes: what is remembered may be out of date
        m = fresh_int('old_length'); c.assume(m.e >= 0)
        f['_fixes_'] = SMask(m, lambda k, g=z3.Function(c.name('old'), z3.IntSort(), z3.BoolSort()): g(k))
    if par: f['_realsize_'] = n
    w.free = lambda k: z3.And(k >= 0, k < n.e, z3.Not(phi.m(k)))
    con = dict(size=Prop(lambda o: n), constraints=Prop(lambda o: w.cons), param_array=Prop(lambda o: x), has_parent=lambda o: not w.root,
               trigger_update=lambda o, *a, **k: c.event('update', o, x._snap_(), a, k))
    con.update(contracts or {})
    w.o = SObj('node', cls, fields=f, absent=absent, contracts=con)
    w.cls = cls
    return w


def copies(c, w):
    'what is left of earlier reads of the optimizer vector: nothing, or an array of any length with anything in it'
    d = w.o.__dict__
    k = c.choose(3, 'earlier copy')
    if k == 0: d['_f']['_optimizer_copy_'] = None
    elif k == 1: d['_absent'].add('_optimizer_copy_')
    else:
        m = fresh_int('old_length'); c.assume(m.e >= 0)
        d['_f']['_optimizer_copy_'] = FArr(m, fresh_real('stale').e, w.k0.e, 'earlier copy')
    d['_f']['_optimizer_copy_transformed'] = bool(c.choose(2, 'transformed'))


def selection(c, w, r):
    'a result as (positions, value at k0, one per position in ascending order)'
    if isinstance(r, FArr):
        c.prove('one element per entry', num(r.n) == w.n.e); return (lambda k: z3.And(k >= 0, k < w.n.e)), r.e
    if isinstance(r, Sel): return r.dom, r.e
    raise Unsupported('%r as a vector' % (r,))


def want_read(w): return w.G(w.x0) if w.own else w.x0
def want_write(w, e): return w.F(e) if w.own else e


def read(c, w): return w.cls.optimizer_array.fget(w.o)


def is_free_vector(c, w, r, e, what):
    dom, v = selection(c, w, r)
    k = z3.Int(c.name('k'))
    c.prove('one element per free entry, in the order of the flat array', dom(k) == w.free(k))
    c.prove(what, z3.Implies(w.free(w.k0.e), v == e))


@contract('C05', ['OptimizationHandlable.optimizer_array (getter)', 'Constrainable._has_fixes', 'Constrainable._ensure_fixes'], assumes=MAPS + FIX, trusted=NPY)
def read_vector(c):
    w = node(c); copies(c, w)
    r = read(c, w)
    is_free_vector(c, w, r, want_read(w), 'the element of a free entry is its value through the inverse of its constraint')
    c.prove('reading changes no parameter', w.x.e == w.x0)
    c.prove('the vector is not the parameter array', r is not w.x)
    c.prove('reading runs no hook', not c.trace)


def vector(c, w, name='p'):
    return Vec(w.n - w.nfixed, w.free, fresh_real(name).e, name)


def write(c, w, p):
    w.cls.optimizer_array.fset(w.o, p)


@contract('C05 C06 C14', ['OptimizationHandlable.optimizer_array (setter)', 'Constrainable._has_fixes'], assumes=MAPS + FIX, trusted=NPY)
def write_vector(c):
    w = node(c, fixes=None); copies(c, w)
    p = vector(c, w)
    write(c, w, p)
    free = w.free(w.k0.e)
    c.prove('a free entry gets the constrained value of its own element', z3.Implies(free, w.x.e == want_write(w, p.e)))
    c.prove('a fixed entry keeps its value', z3.Implies(z3.Not(free), w.x.e == w.x0))
    ev = [e for e in c.trace if e[0] == 'update']
    c.prove('dependents are told once', len(ev) == 1)
    if ev: c.prove('after all values are in place', ev[0][2]._same_(w.x._snap_()))


@contract('C05', ['OptimizationHandlable.optimizer_array (getter and setter)'], assumes=MAPS + FIX + ['finv(f(p)) = p for the values concerned (C01; not the saturated ones, not the sign for the squared constraint)'], trusted=NPY)
def write_then_read(c):
    w = node(c, fixes=None); copies(c, w)
    p = vector(c, w)
    c.assume(w.G(w.F(p.e)) == p.e)
    read(c, w)
    write(c, w, p)
    r = read(c, w)
    is_free_vector(c, w, r, p.e, 'reading again returns what was assigned')


@contract('C06', ['OptimizationHandlable._transform_gradients'], assumes=MAPS + FIX + ['called on a root'], trusted=NPY)
def transform_gradients(c):
    w = node(c, root=True, fixes=None)
    g = FArr(w.n, fresh_real('g').e, w.k0.e, 'gradient of the model'); c.tracked.append(g); g0 = g.e
    r = w.cls._transform_gradients(w.o, g)
    is_free_vector(c, w, r, w.H(w.x0, g0) if w.own else g0, "the element of a free entry is its gradient times the derivative of its constraint's map at the current value")
    c.prove('the gradient stored on the model is left alone', g.e == g0)
    c.prove('and not handed out', r is not g)
    c.prove('no parameter changes', w.x.e == w.x0)
    c.prove('evaluating runs no hook', not c.trace)


@contract('C07', ['OptimizationHandlable._size_transformed'], assumes=MAPS)
def transformed_size(c):
    w = node(c, fixes=0)
    c.prove('the transformed size is the number of entries that are not fixed', num(w.cls._size_transformed(w.o)) == w.n.e - w.nfixed.e)


@contract('C07 C05', ['OptimizationHandlable.optimizer_array (getter)', 'OptimizationHandlable._size_transformed'], assumes=MAPS + FIX + ['a mask that is the complement of a set of m positions in 0..n-1 has n - m entries'], trusted=NPY)
def length_of_vector(c):
    w = node(c); copies(c, w)
    r = read(c, w)
    c.prove('the length of the vector is the transformed size', num(r.size) == num(w.cls._size_transformed(w.o)))


@contract('C08 C05', ['Constrainable._ensure_fixes', 'Constrainable._connect_fixes', 'Constrainable._has_fixes'], assumes=FIX, trusted=NPY)
def fixes_from_constraints(c):
    which = c.choose(3, 'which')
    w = node(c)
    w.cons.__dict__['_c']['__delitem__'] = lambda o, k: c.event('del', o, k)
    if which == 0:
        w.cls._ensure_fixes(w.o)
        f = w.o.__dict__['_f']['_fixes_']
        if not isinstance(f, SMask): raise Unsupported('_fixes_ is %r' % (f,))
        c.prove('the mask tells exactly the entries that are not fixed', index.mask_same(f, SMask(w.n, lambda k: z3.Not(w.phi(k)))))
    elif which == 1:
        # called when the hierarchy has changed: whatever _fixes_ was may be out of date
        if isinstance(w.o.__dict__['_f'].get('_fixes_'), SMask): w.o.__dict__['_f']['_fixes_'] = SMask(fresh_int('old_length'), lambda k, g=z3.Function(c.name('old'), z3.IntSort(), z3.BoolSort()): g(k))
        same_size = c.choose(2, 'same length')
        if same_size and isinstance(w.o.__dict__['_f'].get('_fixes_'), SMask): w.o.__dict__['_f']['_fixes_'].n = w.n
        w.cls._connect_fixes(w.o)
        f = w.o.__dict__['_f'].get('_fixes_')
        if w.has: c.prove('the mask tells exactly the entries that are not fixed', isinstance(f, SMask) and index.mask_same(f, SMask(w.n, lambda k: z3.Not(w.phi(k)))))
        c.prove('no constraint is dropped but the empty set of fixed ones', all(e[0] == 'del' and e[2] == 'fixed' and not w.has for e in c.trace))
    else:
        c.prove('there are fixes if and only if an entry is fixed', z3.BoolVal(bool(w.cls._has_fixes(w.o))) == (w.nfixed.e > 0))


@contract('C08', ['Constrainable._set_fixed', 'Constrainable._set_unfixed'], assumes=['contract of _offset_for', 'the root is told after the bookkeeping has changed; until then its mask is right for the fixes before (or not there)'], trusted=NPY)
def told_about_fixes(c):
    un = bool(c.choose(2, 'unfixed'))
    w = node(c, root=True, fixes=0)
    off = fresh_int('offset'); c.assume(off.e >= 0)
    param = Opaque('parameter')
    I = SIdx.symbol('I', sorted=True); i = lambda k: I.m(k - off.e)
    c.assume(forall(lambda k: z3.Implies(I.m(k), z3.And(k >= 0, k + off.e < w.n.e))))
    before = z3.Function(c.name('fixed_before'), z3.IntSort(), z3.BoolSort())
    rng = lambda k: z3.And(k >= 0, k < w.n.e)
    if un: c.assume(forall(lambda k: z3.Implies(i(k), z3.Not(w.phi(k))))); c.assume(forall(lambda k: z3.Implies(z3.And(before(k), rng(k)), z3.Or(w.phi(k), i(k))))); c.assume(forall(lambda k: z3.Implies(w.phi(k), before(k))))
    else: c.assume(forall(lambda k: z3.Implies(rng(k), w.phi(k) == z3.Or(before(k), i(k)))))
    k = c.choose(3, '_fixes_')
    f = w.o.__dict__
    if k == 0: pass
    elif k == 1: f['_f'].pop('_fixes_'); f['_absent'].add('_fixes_')
    else: f['_f']['_fixes_'] = SMask(w.n, lambda k: z3.Not(before(k)))
    f['_c']['_offset_for'] = lambda o, p: off if p is param else (_ for _ in ()).throw(Unsupported('offset of %r' % (p,)))
    (w.cls._set_unfixed if un else w.cls._set_fixed)(w.o, param, I)
    m = f['_f'].get('_fixes_')
    if isinstance(m, SMask): c.prove('afterwards the mask tells exactly the entries that are not fixed', index.mask_same(m, SMask(w.n, lambda k: z3.Not(w.phi(k)))))
    else: c.prove('no mask only if nothing is fixed', w.nfixed.e == 0)
    c.prove('no parameter changes', w.x.e == w.x0)


@contract('C27', ['OptimizationHandlable.randomize', 'OptimizationHandlable.optimizer_array (setter)', 'OptimizationHandlable._size_transformed'], assumes=MAPS + FIX + ['contracts of update_model (C14)'], trusted=NPY)
def randomize(c):
    state = vals.fresh_bool('updates on'); on = [state]
    def um(o, *a, **k):
        v = arg(a, k, 0, 'updates', None)
        if v is None: return on[0]
        c.event('switch', o, v, w.x._snap_()); on[0] = v
    w = node(c, fixes=None, contracts=dict(update_model=um))
    copies(c, w)
    made = []; extra = Opaque('loc')
    def gen(*a, **k):
        size = k.pop('size', None)
        if size is None: raise Unsupported('the size is not handed to the generator by name')
        c.prove('one number per free entry is drawn', num(size if not isinstance(size, tuple) else size[0]) == w.n.e - w.nfixed.e)
        c.prove('the arguments are handed through', (a == (extra,) and not k) or (a == () and list(k.values()) == [extra]))
        made.append(vector(c, w, 'draw')); return made[-1]
    own = c.choose(2, 'generator')
    if own: w.cls.randomize(w.o, gen, extra)
    else:
        shim.NP.__dict__['random'] = R = Opaque('np.random')
        class Rnd(object): normal = staticmethod(gen)
        shim.NP.__dict__['random'] = Rnd
        try: w.cls.randomize(w.o, loc=extra)
        finally: del shim.NP.__dict__['random']
    c.prove('drawn once', len(made) == 1)
    free = w.free(w.k0.e)
    c.prove('a free entry gets the constrained value of its own draw', z3.Implies(free, w.x.e == want_write(w, made[0].e)))
    c.prove('a fixed entry keeps its value', z3.Implies(z3.Not(free), w.x.e == w.x0))
    c.prove('the update switch is as before', on[0] is state)
    sw = [e for e in c.trace if e[0] == 'switch']
    off = [j for j, e in enumerate(c.trace) if e[0] == 'switch' and e[2] is False]; ups = [j for j, e in enumerate(c.trace) if e[0] == 'update']
    c.prove('the switch is set back last, when the values are in place', bool(sw) and c.trace[-1][0] == 'switch' and sw[-1][2] is state)
    if sw: c.prove('nothing changes after that', sw[-1][3]._same_(w.x._snap_()))


@contract('C07', ['Indexable._raveled_index', 'Indexable._raveled_index_for'], assumes=['contract of _offset_for and of _raveled_index of the parameter'], trusted=NPY)
def flat_index(c):
    from paramz.core.indexable import Indexable
    from paramz.param import ParamConcatenation
    index.install()
    n = fresh_int('n'); c.assume(n.e >= 1)
    off = fresh_int('offset'); c.assume(off.e >= 0)
    kind = c.choose(2, 'which')
    if kind == 0:
        o = SObj('node', Indexable, contracts=dict(size=Prop(lambda o: n)))
        r = Indexable._raveled_index(o)
        c.prove('a node stands for all its entries in order', z3.And(eq_sets(SIdx.of(r), lambda k: z3.And(k >= 0, k < n.e)), z3.BoolVal(r.sorted)))
    else:
        R = SIdx.symbol('own', sorted=bool(c.choose(2, 'in order')))
        p = SObj('parameter', None, contracts=dict(_raveled_index=lambda o: R)); p.__dict__['_isinst'] = lambda k: False
        o = SObj('root', Indexable, contracts=dict(_offset_for=lambda o, q: off if q is p else 1/0))
        m = R.m
        r = Indexable._raveled_index_for(o, p)
        c.prove('its entries, counted from the start of the root', eq_sets(SIdx.of(r), lambda k: m(k - off.e)))
        c.prove('in the same order', r.sorted == R.sorted)


@contract('C07 C24 C25', ['Indexable._raveled_index_for'], assumes=['its own contract for each entry of the concatenation (induction: entries are no concatenations); shown for a concatenation of three entries, nothing is kept between them'], trusted=['numpy.hstack puts arrays one behind the other'])
def flat_index_of_a_concatenation(c):
    from paramz.core.indexable import Indexable
    from paramz.param import ParamConcatenation
    offs = [fresh_int('offset %d' % i) for i in range(3)]
    rs = [SIdx.symbol('own %d' % i, sorted=bool(c.choose(2, 'in order %d' % i))) for i in range(3)]; ms = [r.m for r in rs]
    ps = []
    for i in range(3):
        p = SObj('entry %d' % i, None, contracts=dict(_raveled_index=lambda o, i=i: rs[i])); p.__dict__['_isinst'] = lambda k: False
        ps.append(p)
    whole = SObj('concatenation', ParamConcatenation, fields=dict(params=list(ps)), track=False)
    o = SObj('root', Indexable, contracts=dict(_offset_for=lambda o, q: offs[[x is q for x in ps].index(True)]))
    out = Opaque('stacked'); got = []
    def hstack(l, *a, **k):
        if a or k: raise Unsupported('hstack')
        got.append(list(l)); return out
    index.install(); shim.FUNCS['hstack'] = shim.FUNCS['concatenate'] = hstack
    r = Indexable._raveled_index_for(o, whole)
    if r is not out: raise Unsupported('%r as positions' % (r,))
    c.prove('stacked once, all entries', len(got) == 1 and len(got[0]) == 3)
    if len(got) == 1 and len(got[0]) == 3:
        for i in range(3):
            m = ms[i]; x = SIdx.of(got[0][i])
            c.prove('each in the order of the concatenation, counted from the start of the root', eq_sets(x, lambda k: m(k - offs[i].e)))
            c.prove('each in its own order', x.sorted == rs[i].sorted)


@contract('C07 C24', ['Indexable._raveled_index_for_transformed'], assumes=FIX + ['contract of _raveled_index_for; called on a root'], trusted=NPY + ['cumsum counts the true entries up to and including each position'])
def index_in_vector(c):
    w = node(c, root=True, fixes=None)
    R = SIdx.symbol('entries'); rm = R.m; param = Opaque('parameter')
    c.assume(forall(lambda k: z3.Implies(rm(k), z3.And(k >= 0, k < w.n.e))))
    w.o.__dict__['_c']['_raveled_index_for'] = lambda o, p: SIdx(rm, True) if p is param else 1/0
    r = w.cls._raveled_index_for_transformed(w.o, param)
    # rank(k): number of free entries before k
    rank = z3.Function('rank', z3.IntSort(), z3.IntSort())
    c.assume(rank(0) == 0); c.assume(forall(lambda k: z3.Implies(z3.And(k >= 0, k < w.n.e), rank(k + 1) == rank(k) + z3.If(w.phi(k), 0, 1))))
    k0 = w.k0.e
    if isinstance(r, SIdx) and not isinstance(r, PosSel):
        dom = r.m; pos = k0
    elif isinstance(r, PosSel): dom = r.dom; pos = r.f(k0)
    else: raise Unsupported('%r as positions' % (r,))
    k = z3.Int(c.name('k'))
    c.prove('one index per free entry of the parameter, in order', dom(k) == z3.And(rm(k), z3.Not(w.phi(k))))
    for F in c.ghost.get('cumsums', []):
        # lemma by induction over the positions: trues up to k and falses before k + 1 make k + 1
        c.prove('lemma: ranks and counts of fixed entries (start)', F(z3.IntVal(-1)) + rank(0) == 0)
        j = z3.Int(c.name('j'))
        c.prove('lemma: ranks and counts of fixed entries (step)', z3.Implies(z3.And(j >= 0, j < w.n.e, F(j - 1) + rank(j) == j), F(j) + rank(j + 1) == j + 1))
        c.assume(forall(lambda k: z3.Implies(z3.And(k >= -1, k < w.n.e), F(k) + rank(k + 1) == k + 1)))
    if not w.has:
        j = z3.Int(c.name('j'))
        c.prove('lemma: without fixed entries ranks are positions (step)', z3.Implies(z3.And(j >= 0, j < w.n.e, rank(j) == j), rank(j + 1) == j + 1))
        c.assume(forall(lambda k: z3.Implies(z3.And(k >= 0, k <= w.n.e), rank(k) == k)))
    c.prove('the index of an entry is the number of free entries before it', z3.Implies(dom(k0), pos == rank(k0)))
