"""C08, C09: constraining, fixing and back.  A parameter, slice or node stands for an arbitrary sorted set R of positions (contract of
_raveled_index); the bookkeeping it writes to is seen for three properties: the constraint asked for, an earlier one, and the fixes,
each with an arbitrary set of positions; all further properties may have any."""
import z3
from .. import rt, vals, shim, index, table
from ..base import contract, arg, only
from ..index import SIdx, FArr, forall
from ..rt import Irr, Unsupported
from ..shim import WSeq
from ..table import Table, eq_sets
from ..vals import SObj, Opaque, SNum, Prop, fresh_int, fresh_real, fresh_bool, num
from .c03_tables import NPY

CON = ['contracts of the bookkeeping tables and windows (C03, C04)', 'contract of _raveled_index: the positions the object stands for, each once, in any order (for parameters and parts of them: flat_positions_of_a_part)']


def Pz():
    from paramz.parameterized import Parameterized
    index.install()
    return Parameterized


class W(object): pass


def target(c, names=('asked for', 'earlier', 'fixed'), contracts=None, cls=None):
    from paramz.transformations import Transformation
    w = W()
    w.R = SIdx.symbol('R')
    c.assume(w.R.card().e > 0)
    w.x = FArr(fresh_int('n'), fresh_real('x').e, fresh_int('k0').e, 'values'); w.x0 = w.x.e; c.tracked.append(w.x)
    c.ghost['k0'] = SNum(w.x.k0)
    D = w.D = z3.Function('initialize', z3.RealSort(), z3.RealSort())
    def T(name): return SObj(name, Transformation, contracts=dict(initialize=lambda o, a: (c.event('initialize', o), FArr(a.n, D(a.e), a.k0))[1]))
    w.T, w.E = T('constraint asked for'), T('earlier constraint')
    w.keys = dict(new=w.T, old=w.E, fixed='fixed')
    w.S = {}; ent = []
    for nm, k in w.keys.items():
        i = SIdx.symbol(nm); w.S[nm] = i.m; ent.append([k, i])
    w.table = Table.make('bookkeeping', None, ent)
    c.tracked.append(table.SetsOf(w.table))
    R = w.R.m
    w.hp = SObj('root', None, contracts=dict(_set_fixed=lambda o, *a, **k: c.event('set_fixed', o, a, k, now(w, 'fixed')), _set_unfixed=lambda o, *a, **k: c.event('set_unfixed', o, a, k, now(w, 'fixed'))), track=False)
    ordered = bool(c.choose(2, 'positions in order'))          # advanced indexing picks entries in any order
    con = dict(_raveled_index=lambda o: SIdx(R, ordered, card=w.R.card()), constraints=Prop(lambda o: w.table), _highest_parent_=Prop(lambda o: w.hp), param_array=Prop(lambda o: w.x),
               _read_through=lambda o: c.event('read through', o, w.x._snap_()), _write_through=lambda o: c.event('write through', o, w.x._snap_()), name=Prop(lambda o: 'name'), hierarchy_name=lambda o, *a: 'name',
               trigger_update=lambda o, *a, **k: c.event('update', o, a, k, w.x._snap_(), {n: now(w, n) for n in w.S}),
               notify_observers=lambda o, *a, **k: c.event('notify', o, a, k, w.x._snap_(), {n: now(w, n) for n in w.S}))
    con['size'] = Prop(lambda o: w.R.card())
    con.update(contracts or {})
    w.o = SObj('target', cls or Pz(), contracts=con)
    w.cls = cls or Pz()
    import logging
    return w


def now(w, n): return Table.set(w.table, w.keys[n]).m


def sets(c, w, want, what):
    k = z3.Int(c.name('k')); R = w.R.m
    for n, f in want.items():
        c.prove('%s (%s)' % (what, {'new': 'the constraint asked for', 'old': 'an earlier constraint', 'fixed': 'the fixes'}[n]), now(w, n)(k) == f(R(k), w.S[n](k)))


keep = lambda r, s: s
union = lambda r, s: z3.Or(r, s)
minus = lambda r, s: z3.And(s, z3.Not(r))


def evs(c, *names): return [e for e in c.trace if e[0] in names]


def quiet(c):
    import logging
    logging.disable(logging.CRITICAL)


def root_told(c, w, kind):
    'whenever fixes change the root is told about exactly the positions concerned, after the bookkeeping has changed'
    k = z3.Int(c.name('k')); R = w.R.m
    t = evs(c, kind)
    return t, k, R


@contract('C08 C09', ['Indexable._add_to_index_operations'], assumes=CON)
def add_to_bookkeeping(c):
    quiet(c); w = target(c)
    which = ['new', 'fixed'][c.choose(2, 'which')]
    rec = SIdx.symbol('reconstrained'); warn = bool(c.choose(2, 'warning'))
    r = w.cls._add_to_index_operations(w.o, w.table, rec, w.keys[which], warn)
    c.prove('the positions of the target are returned', eq_sets(SIdx.of(r), w.R.m))
    sets(c, w, {n: union if n == which else keep for n in w.S}, 'only the target gets it')
    c.prove('nothing else happens', not evs(c, 'update', 'notify') and w.x.e == w.x0)


@contract('C08 C09', ['Indexable._remove_from_index_operations', 'Constrainable.unconstrain'], assumes=CON, trusted=NPY)
def unconstrain(c):
    w = target(c)
    k = c.choose(5, 'arguments')
    args = [(), (w.T,), (w.T, w.E), ('fixed',), (w.E, 'fixed')][k]
    gone = {n: (k == 0 or any(a is w.keys[n] or (n == 'fixed' and isinstance(a, str)) for a in args)) for n in w.S}
    r = w.cls.unconstrain(w.o, *args)
    sets(c, w, {n: minus if gone[n] else keep for n in w.S}, 'the target loses exactly what it was asked for')
    j, R = z3.Int(c.name('k')), w.R.m
    if k:
        if not isinstance(r, SIdx): r = SIdx.of(r)
        c.prove('the positions concerned are returned', r.m(j) == z3.Or([z3.And(R(j), w.S[n](j)) for n in w.S if gone[n]]))
    t = evs(c, 'set_unfixed')
    if gone['fixed']:
        c.prove('the root is told if something is no longer fixed', z3.Or(z3.BoolVal(len(t) > 0), z3.Not(z3.And(R(j), w.S['fixed'](j)))))
        for e in t:
            p, i = arg(e[2], e[3], 0, 'param'), SIdx.of(arg(e[2], e[3], 1, 'index'))
            c.prove('it is told the positions freed (and at most others of the target), after the bookkeeping', z3.And(z3.BoolVal(p is w.o), z3.Implies(z3.And(R(j), w.S['fixed'](j)), i.m(j)), z3.Implies(i.m(j), R(j)), e[4](j) == z3.And(w.S['fixed'](j), z3.Not(R(j)))))
    c.prove('values stay', w.x.e == w.x0)


@contract('C08', ['Constrainable.unconstrain_fixed', 'Constrainable.unconstrain', 'Indexable._remove_from_index_operations'], assumes=CON, trusted=NPY)
def unfix(c):
    w = target(c)
    r = (w.cls.unfix if c.choose(2, 'alias') else w.cls.unconstrain_fixed)(w.o)
    sets(c, w, dict(new=keep, old=keep, fixed=minus), 'unfixing frees exactly the target and keeps the constraints')
    j, R = z3.Int(c.name('k')), w.R.m
    c.prove('the positions freed are returned', SIdx.of(r).m(j) == z3.And(R(j), w.S['fixed'](j)))
    t = evs(c, 'set_unfixed')
    c.prove('the root is told if something is no longer fixed', z3.Or(z3.BoolVal(len(t) > 0), z3.Not(z3.And(R(j), w.S['fixed'](j)))))
    for e in t:
        p, i = arg(e[2], e[3], 0, 'param'), SIdx.of(arg(e[2], e[3], 1, 'index'))
        c.prove('it is told the positions freed (and at most others of the target), after the bookkeeping', z3.And(z3.BoolVal(p is w.o), z3.Implies(z3.And(R(j), w.S['fixed'](j)), i.m(j)), z3.Implies(i.m(j), R(j)), e[4](j) == z3.And(w.S['fixed'](j), z3.Not(R(j)))))
    c.prove('values stay', w.x.e == w.x0)


@contract('C08 C14', ['Constrainable.constrain_fixed', 'Indexable._add_to_index_operations'], assumes=CON, trusted=NPY)
def fix(c):
    quiet(c)
    val = [None, fresh_real('value'), Opaque('an array of values')][c.choose(3, 'value')]
    w = target(c, contracts=dict(__setitem__=lambda o, s, v: c.event('set', o, s, v)))
    kw = {}
    if val is not None: kw['value'] = val
    tp = [None, True, False][c.choose(3, 'trigger parent')]
    if tp is not None: kw['trigger_parent'] = tp
    (w.cls.fix if c.choose(2, 'alias') else w.cls.constrain_fixed)(w.o, **kw)
    sets(c, w, dict(new=keep, old=keep, fixed=union), 'fixing fixes exactly the target and remembers the constraints')
    j, R = z3.Int(c.name('k')), w.R.m
    t = evs(c, 'set_fixed')
    c.prove('the root is told if something becomes fixed', z3.Or(z3.BoolVal(len(t) > 0), z3.Not(z3.And(R(j), z3.Not(w.S['fixed'](j))))))
    for e in t:
        p, i = arg(e[2], e[3], 0, 'param'), SIdx.of(arg(e[2], e[3], 1, 'index'))
        c.prove('it is told the positions newly fixed (and at most others of the target), after the bookkeeping', z3.And(z3.BoolVal(p is w.o), z3.Implies(z3.And(R(j), z3.Not(w.S['fixed'](j))), i.m(j)), z3.Implies(i.m(j), R(j)), e[4](j) == z3.Or(w.S['fixed'](j), R(j))))
    st = evs(c, 'set', 'write through')
    if val is None: c.prove('no value is written', not evs(c, 'set'))
    else:
        c.prove('the value is written to all of it and reaches the parameter', [e[0] for e in st][:2] == ['set', 'write through'] and st[0][2] == slice(None) and st[0][3] is val and c.trace.index(st[1]) < c.trace.index(t[0]) if len(st) > 1 and t else False)
    told = evs(c, 'notify', 'update')
    c.prove('the observers are told', len(told) >= 1)
    def whole(e):
        if e[0] == 'update': return arg(e[2], e[3], 0, 'trigger_parent', True) is True
        m = arg(e[2], e[3], 1, 'min_priority', None)
        if m is not None and not isinstance(m, float): raise Unsupported('minimum priority %r' % (m,))
        return m is None
    c.prove('all of them unless the parent is to be left out', any(whole(e) for e in told) if tp is not False else not any(whole(e) for e in told))
    c.prove('after everything is in place', all(c.trace.index(e) > c.trace.index(x) for e in told for x in t) if len(told) == 1 else True)


@contract('C09 C14', ['Constrainable.constrain', 'Constrainable.unconstrain', 'Indexable._remove_from_index_operations', 'Indexable._add_to_index_operations'], assumes=CON + ['contract of initialize (C01)'], trusted=NPY)
def constrain(c):
    quiet(c); w = target(c)
    tp = [None, True, False][c.choose(3, 'trigger parent')]
    kw = {} if tp is None else dict(trigger_parent=tp)
    r = w.cls.constrain(w.o, w.T, **kw)
    sets(c, w, dict(new=union, old=minus, fixed=minus), 'afterwards the target has exactly the constraint asked for')
    c.prove('the values of the target are made legal', w.x.e == w.D(w.x0))
    rt_, wt, up = evs(c, 'read through'), evs(c, 'write through'), evs(c, 'update')
    c.prove('values are current before they are made legal', len(rt_) >= 1)
    if rt_: c.prove('before', rt_[0][2].e == w.x0)
    c.prove('the values reach the parameter', len(wt) >= 1)
    if wt: c.prove('after they are made legal', wt[-1][2].e == w.D(w.x0))
    c.prove('dependents are told once', len(up) == 1)
    j = z3.Int(c.name('k')); R = w.R.m
    if up:
        c.prove('after everything is in place', z3.And(up[-1][4].e == w.D(w.x0), *[up[-1][5][n](j) == now(w, n)(j) for n in w.S]))
        c.prove('the parent is told unless asked not to', arg(up[-1][2], up[-1][3], 0, 'trigger_parent', True) is (True if tp is None else tp))
    for e in evs(c, 'set_unfixed'):
        p, i = arg(e[2], e[3], 0, 'param'), SIdx.of(arg(e[2], e[3], 1, 'index'))
        c.prove('the root is told exactly what is no longer fixed', z3.And(z3.BoolVal(p is w.o), i.m(j) == z3.And(R(j), w.S['fixed'](j)), e[4](j) == z3.And(w.S['fixed'](j), z3.Not(R(j)))))
    c.prove('the root is told if something is no longer fixed', z3.Or(z3.BoolVal(len(evs(c, 'set_unfixed')) > 0), z3.Not(z3.And(R(j), w.S['fixed'](j)))))


@contract('C09 C08', ['Constrainable.constrain'], assumes=['contract of fix'])
def constrain_by_fix_or_nonsense(c):
    quiet(c)
    ret = Opaque('what fix returns')
    w = target(c, contracts=dict(fix=lambda o, *a, **k: (c.event('fix', o, a, k), ret)[1], constrain_fixed=lambda o, *a, **k: (c.event('fix', o, a, k), ret)[1]))
    if c.choose(2, 'which'):
        tp = [None, True, False][c.choose(3, 'trigger parent')]
        r = w.cls.constrain(w.o, 'fixed', **({} if tp is None else dict(trigger_parent=tp)))
        e = evs(c, 'fix')
        c.prove('constraining to the fix is fixing', len(c.trace) == 1 and len(e) == 1 and arg(e[0][2], e[0][3], 0, 'value') is None and arg(e[0][2], e[0][3], 2, 'trigger_parent', True) is (True if tp is None else tp) and r is ret)
    else:
        try: w.cls.constrain(w.o, 'positive'); refused = False
        except ValueError: refused = True
        c.prove('what is no constraint is refused', refused)
        c.prove('without an effect', not evs(c, 'fix', 'update', 'notify', 'initialize', 'add', 'remove') and w.x.e is w.x0)
        sets(c, w, dict(new=keep, old=keep, fixed=keep), 'nothing changes')


@contract('C09', ['Constrainable.constrain_positive', 'Constrainable.constrain_negative', 'Constrainable.constrain_bounded', 'Constrainable.unconstrain_positive', 'Constrainable.unconstrain_negative', 'Constrainable.unconstrain_bounded'],
          assumes=['contract of constrain and unconstrain'])
def named_constraints(c):
    from paramz import transformations as tr
    Pz(); from paramz.core.constrainable import Constrainable as K
    got = []
    o = SObj('target', K, contracts=dict(constrain=lambda o, *a, **k: got.append(('constrain', a, k)), unconstrain=lambda o, *a, **k: got.append(('unconstrain', a, k))))
    k = c.choose(6, 'which'); warn, tp = [(True, True), (False, False), (True, False), (False, True), (None, None)][c.choose(5, 'flags')]
    if k < 3:
        kw = {} if tp is None else dict(warning=warn, trigger_parent=tp)
        [K.constrain_positive, K.constrain_negative, lambda o, **q: K.constrain_bounded(o, 2., 5., **q)][k](o, **kw)
        if tp is None: warn = tp = True
        if len(got) != 1: raise Unsupported('not one call')
        n, a, q = got[0]
        t = arg(a, q, 0, 'transform')
        c.prove('the flags are handed on', arg(a, q, 1, 'warning', True) is warn and arg(a, q, 2, 'trigger_parent', True) is tp and n == 'constrain')
    else:
        [K.unconstrain_positive, K.unconstrain_negative, lambda o: K.unconstrain_bounded(o, 2., 5.)][k - 3](o)
        if len(got) != 1: raise Unsupported('not one call')
        n, a, q = got[0]; c.prove('exactly this one is removed', n == 'unconstrain' and len(a) == 1); t = a[0]
    c.prove('the constraint meant', type(t) is [tr.Logexp, tr.NegativeLogexp, tr.Logistic][k % 3] and (k % 3 != 2 or (t.lower == 2. and t.upper == 5.)))


@contract('C08', ['Param.is_fixed'], assumes=['contracts of the windows (C04): positions inside the parameter', 'a set of positions inside 0..n-1 has n of them if and only if it has all (finite sets)'])
def leaf_is_fixed(c):
    Pz(); from paramz.param import Param
    n = fresh_int('n'); c.assume(n.e >= 1)
    phi = SIdx.symbol('fixed'); card = phi.card(); m = phi.m
    c.assume(forall(lambda k: z3.Implies(m(k), z3.And(k >= 0, k < n.e))))
    full = forall(lambda k: z3.Implies(z3.And(k >= 0, k < n.e), m(k)))
    c.assume((card.e == n.e) == full); c.assume(card.e <= n.e)
    cons = SObj('constraints', None, contracts=dict(__getitem__=lambda o, k: phi if k == 'fixed' else table.none()))
    o = SObj('parameter', Param, contracts=dict(size=Prop(lambda o: n), _realsize_=Prop(lambda o: n), constraints=Prop(lambda o: cons)))
    r = Param.is_fixed.fget(o)
    c.prove('a parameter is fixed if and only if all its entries are', vals.bexpr(r) == full)


@contract('C08', ['Constrainable.is_fixed'], assumes=['contract of is_fixed of the children (induction over the finite tree)'])
def node_is_fixed(c):
    Pz(); from paramz.core.constrainable import Constrainable as K
    log = []
    def child(name, irr=False):
        fx = fresh_bool('fixed')
        return SObj(name, None, contracts=dict(is_fixed=Prop(lambda o: (log.append((o, fx)), fx)[1])), irr=irr), fx
    a, fa = child('a child')
    seg = lambda: Irr(lambda: child('another child', True)[0], label='the other children')
    o = SObj('node', K, fields=dict(parameters=WSeq([seg(), a, seg()])))
    r = K.is_fixed.fget(o)
    b = vals.bexpr(r)
    c.prove('a node is fixed only if every child is', z3.Implies(b, fa.e))
    c.prove('and is not fixed only if one is not', z3.Or(b, z3.Or([z3.Not(f.e) for _, f in log]) if log else z3.BoolVal(False)))


@contract('C09 C20', ['Logistic.__new__'], assumes=['class invariant: no two live initialised instances have the same bounds (shown to be kept)', 'a new object is an uninitialised one'])
def one_instance_per_bounds(c):
    from paramz import transformations as tr
    lo, hi = fresh_real('lower'), fresh_real('upper')
    def inst(name, irr=False, bounds=None):
        o = SObj(name, tr.Logistic, irr=irr, track=False)
        o.__dict__['initialised'] = True
        if bounds is None:
            o.__dict__['_absent'].update(('lower', 'upper')); o.__dict__['initialised'] = False
        else: o.__dict__['_f'].update(lower=bounds[0], upper=bounds[1])
        return o
    alive = bool(c.choose(2, 'alive')); init = bool(c.choose(2, 'initialised'))
    wl, wh = fresh_real('wl'), fresh_real('wh')
    w = inst('an instance', bounds=(wl, wh) if init else None)
    same = z3.And(wl.e == lo.e, wh.e == hi.e) if alive and init else z3.BoolVal(False)
    def other():
        if c.choose(2, 'initialised'):
            a, b = fresh_real('l'), fresh_real('h')
            if alive and init: c.assume(z3.Not(z3.And(a.e == wl.e, b.e == wh.e)))
            o = inst('another instance', True, (a, b))
        else: o = inst('another instance', True)
        return shim.SRef(o, bool(c.choose(2, 'alive')))
    seg = lambda: Irr(other, label='the other instances')
    L = WSeq([seg(), shim.SRef(w, alive), seg()])
    new = inst('new instance')
    class ObjectNew(object):
        _raw_ = True
        def _is_(self, o): return o is object.__new__
        def __call__(self, *a):
            if a != (cls,): raise TypeError('object.__new__() takes exactly one argument')
            return new
    cls = SObj('Logistic', None, fields=dict(_instances=L), base={'__new__': ObjectNew()}, track=False)
    r = tr.Logistic.__new__(cls, lo, hi)
    if not isinstance(r, SObj): raise Unsupported('%r returned' % (r,))
    if r is new:
        c.prove('a new instance only if there is none with these bounds', z3.Not(same))
        refs = [x for x in list(cls.__dict__['_f']['_instances']) if not isinstance(x, Irr)]
        c.prove('a new instance is remembered once', sum(x.x is new for x in refs) == 1)
    else:
        c.prove('an instance that is not new has these bounds', z3.And(r.lower.e == lo.e, r.upper.e == hi.e) if r.__dict__['initialised'] else False)
    c.prove('if there is one with these bounds it is the one', z3.Implies(same, z3.BoolVal(r is w)))
    refs = [x for x in list(cls.__dict__['_f']['_instances']) if not isinstance(x, Irr)]
    c.prove('a live instance is not forgotten', not alive or sum(x.x is w for x in refs) == 1)


@contract('C09', ['Logistic.__init__'])
def bounds_set(c):
    from paramz import transformations as tr
    lo, hi = fresh_real('lower'), fresh_real('upper')
    o = SObj('instance', tr.Logistic, track=False)
    try: tr.Logistic.__init__(o, lo, hi); ok = True
    except AssertionError: ok = False
    c.prove('bounds in the wrong order are refused, others not', z3.BoolVal(ok) == (lo.e < hi.e))
    f = o.__dict__['_f']
    if ok: c.prove('the bounds are the ones given', z3.And(f['lower'].e == lo.e, f['upper'].e == hi.e, f['difference'].e == hi.e - lo.e))
    else: c.prove('a refused instance has no bounds and so matches nothing later', 'lower' not in f or 'upper' not in f)
