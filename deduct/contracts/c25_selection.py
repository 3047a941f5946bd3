"""C25: selection by pattern and concatenations.

grep_param_names: which of the visited objects are selected (traverse visits each once, C26).  ParamConcatenation: one or two
arbitrary parameters among any number of others, at symbolic offsets and with symbolic sizes; an index is an arbitrary set of
positions SEL with arbitrary values VAL (what numpy takes an index expression to select)."""
import re
import numpy as np
import z3
from .. import rt, vals, shim, plist
from ..base import contract, arg, only
from ..plist import Chain
from ..rt import Irr, At, Unsupported
from ..shim import WSeq, irr_total
from ..vals import Sym, SObj, Opaque, SBool, SNum, Prop, fresh_bool, fresh_int, num


def PC():
    from paramz.param import ParamConcatenation
    return ParamConcatenation


def relevant(c): return [e for e in c.trace if not rt.irrelevant(e[1])]
def nat(n, lo=0):
    x = fresh_int(n); rt.ctx().assume(x.e >= lo); return x


class Dotted(Sym):
    'a dotted name'
    _irr_ = False
    def __init__(self, below): self.below = below
    def partition(self, sep):
        if sep != '.': raise Unsupported('partition at %r' % (sep,))
        return (Opaque('name of the root'), '.', self.below)
    def split(self, sep, n=-1):
        if sep != '.' or n != 1: raise Unsupported('split')
        return [Opaque('name of the root'), self.below]
    def __bool__(self): return True


@contract('C25', ['Parameterized.grep_param_names'], assumes=['traverse visits the node and each of its descendants once (C26); the visitor is shown for four visits, it has no state but the list of results'],
          trusted=['re.Pattern.match'])
def selection_by_pattern(c):
    import paramz.parameterized as pm
    P = pm.Parameterized
    m = {}
    def match(s, t, *a, **k):
        if a or k or id(t) not in m: raise Unsupported('match of something else')
        return object() if c.decide(m[id(t)][1].e) else None
    pat = SObj('pattern', re.Pattern, contracts=dict(match=match, search=lambda *a, **k: (_ for _ in ()).throw(Unsupported('search'))))
    text = 'some pattern'
    def obj(n):
        b = Opaque('name of %s below the root' % n); m[id(b)] = (b, fresh_bool('matches ' + n))
        return SObj(n, P, contracts=dict(hierarchy_name=lambda s, *a, **k: Dotted(b))), m[id(b)][1]
    (o, mo), (x, mx), (y, my), (z, mz) = obj('node'), obj('x'), obj('y'), obj('z')
    def traverse(s, visit, *a, **k):
        c.event('traverse', s)
        for w in (o, x, y, z): visit(w, *a, **k)
    o._c['traverse'] = traverse
    compiled = c.choose(2, 'compiled'); got = []
    old = pm.compile
    pm.compile = lambda t, *a: (got.append(t), pat)[1]
    try: r = P.grep_param_names(o, pat if compiled else text)
    finally: pm.compile = old
    c.prove('a text is compiled', got == ([] if compiled else [text]))
    c.prove('one traversal from the selecting node', [e[:2] for e in relevant(c)] == [('traverse', o)])
    c.prove('a list of its descendants, never the node itself', isinstance(r, list) and all(any(e is w for w in (x, y, z)) for e in r))
    for w, mw in ((x, mx), (y, my), (z, mz)):
        n = sum(e is w for e in r)
        c.prove('exactly the ones whose name below the root matches, once', z3.And(z3.BoolVal(n <= 1), mw.e == z3.BoolVal(n == 1)))
    pos = [[e is w for e in r].index(True) for w in (x, y, z) if any(e is w for e in r)]
    c.prove('in order of the traversal', pos == sorted(pos))


@contract('C25 C12', ['Parameterized.__getitem__'])
def selection(c):
    import paramz.param as pp
    from paramz import Parameterized as P
    what = c.choose(2, 'what')
    if what == 0:
        i = [3, slice(1, 2), (0,), np.array([0, 2])][c.choose(4, 'index')]
        v = Opaque('values')
        o = SObj('node', P, fields=dict(param_array=SObj('memory', None, contracts=dict(__getitem__=lambda s, j: c.event('get', s, j) or v))))
        r = P.__getitem__(o, i)
        c.prove('an index reads the flat array', r is v and len(c.trace) == 1 and c.trace[0][2] is i)
        return
    a, b = SObj('a', None), SObj('b', None)
    n = c.choose(3, 'matches')
    found = [[], [a], [Irr(lambda: Opaque('another', True), dict(count=lambda e: 1), dict(count=nat('n')), 'others'), a, Irr(lambda: Opaque('another', True), dict(count=lambda e: 1), dict(count=nat('n')), 'others'), b]][n]
    name = 'pattern'; made = []
    class Fake(object):
        def __init__(self, *x, **k): made.append((self, x, k))
    o = SObj('node', P, contracts=dict(grep_param_names=lambda s, *x: c.event('grep', s, x) or found))
    old = pp.ParamConcatenation; pp.ParamConcatenation = Fake
    try: r = P.__getitem__(o, name); exc = None
    except AttributeError as e: r = None; exc = e
    finally: pp.ParamConcatenation = old
    c.prove('selects by the name', [e[2] for e in c.trace] == [(name,)])
    if n == 0: c.prove('nothing found is refused', isinstance(exc, AttributeError))
    elif n == 1: c.prove('one is itself', r is a and exc is None)
    else: c.prove('several are a concatenation of them', exc is None and len(made) == 1 and r is made[0][0] and arg(made[0][1], made[0][2], 0, 'params') is found)


# ---------------------------------------------------------------------------------------------------------------
# operations on all parameters of a concatenation

OPS = [('constrain', lambda k: (k[0],), lambda k: {}, [('constraint', 0)]),
       ('constrain_positive', lambda k: (k[1],), lambda k: {}, [('warning', 0)]), ('constrain_negative', lambda k: (k[1],), lambda k: {}, [('warning', 0)]),
       ('constrain_bounded', lambda k: (k[2], k[3], k[1]), lambda k: {}, [('lower', 0), ('upper', 1), ('warning', 2)]),
       ('constrain_fixed', lambda k: (k[4], k[1], k[5]), lambda k: {}, [('value', 0), ('warning', 1), ('trigger_parent', 2)]), ('fix', lambda k: (k[4], k[1], k[5]), lambda k: {}, [('value', 0), ('warning', 1), ('trigger_parent', 2)]),
       ('unconstrain', lambda k: (k[0], k[2]), lambda k: {}, None), ('unconstrain_negative', lambda k: (), lambda k: {}, []), ('unconstrain_positive', lambda k: (), lambda k: {}, []),
       ('unconstrain_fixed', lambda k: (), lambda k: {}, []), ('unfix', lambda k: (), lambda k: {}, []), ('unconstrain_bounded', lambda k: (k[2], k[3]), lambda k: {}, [('lower', 0), ('upper', 1)])]
ALIAS = dict(fix='constrain_fixed', unfix='unconstrain_fixed')


@contract('C25 C14', ['ParamConcatenation.constrain', 'ParamConcatenation.constrain_positive', 'ParamConcatenation.constrain_negative', 'ParamConcatenation.constrain_bounded', 'ParamConcatenation.constrain_fixed',
                      'ParamConcatenation.unconstrain', 'ParamConcatenation.unconstrain_negative', 'ParamConcatenation.unconstrain_positive', 'ParamConcatenation.unconstrain_fixed', 'ParamConcatenation.unconstrain_bounded',
                      'ParamConcatenation.update_all_params'])
def operations_act_on_every_parameter(c):
    def some(n, irr=False):
        con = {}
        for op in OPS:
            nm = ALIAS.get(op[0], op[0])
            con[nm] = (lambda nm: lambda s, *a, **k: c.event(nm, s, a, k))(nm)
        for al, nm in ALIAS.items(): con[al] = con[nm]
        return SObj(n, None, contracts=con, irr=irr)
    def par(n, irr=False): return SObj(n, None, contracts=dict(trigger_update=lambda s, *a, **k: c.event('update', s, a, k)), irr=irr)
    seg = lambda: Irr(lambda: some('another parameter', True), label='other parameters')
    pseg = lambda: Irr(lambda: par('another parent', True), label='other parents')
    a, b, P, Q = some('a'), some('b'), par('P'), par('Q')
    o = SObj('concatenation', PC(), fields=dict(params=WSeq([seg(), a, seg(), b, seg()]), parents=WSeq([pseg(), P, pseg(), Q, pseg()])))
    k = [Opaque('constraint'), False, Opaque('lower'), Opaque('upper'), Opaque('value'), True]
    name, ar, kw, sig = OPS[c.choose(len(OPS), 'operation')]
    args = ar(k)
    getattr(PC(), name)(o, *args, **kw(k))
    ev = relevant(c); base = ALIAS.get(name, name)
    main = [e for e in ev if e[0] != 'update']; up = [e for e in ev if e[0] == 'update']
    c.prove('every parameter once, in order, as asked', [e[:2] for e in main] == [(base, a), (base, b)])
    for e in main:
        if sig is None: c.prove('with the arguments given', e[2] == args and e[3] == {})
        else: c.prove('with the arguments given', all(arg(e[2], e[3], i, n, {'warning': True}.get(n)) is args[i] for n, i in sig))
    if base.startswith('constrain'):
        want = k[5] if base == 'constrain_fixed' else False
        pos = {'constrain': 2, 'constrain_positive': 1, 'constrain_negative': 1, 'constrain_bounded': 3, 'constrain_fixed': 2}[base]
        own = all(arg(e[2], e[3], pos, 'trigger_parent', True) is True for e in main)
        ups = [e[1] for e in up] == [P, Q] and (not main or ev.index(up[0]) > ev.index(main[-1])) and all(arg(e[2], e[3], 0, 'trigger_parent', True) is False for e in up)
        if base == 'constrain_fixed': c.prove('the parents are brought up to date if asked to', own or ups)
        else: c.prove('afterwards every parent is brought up to date, once and in order', ups)
    else: c.prove('nothing else', up == [] or [e[1] for e in up] == [P, Q])


# ---------------------------------------------------------------------------------------------------------------
# making a concatenation

class UList(Sym):
    'the list of parameters being collected: the ones talked about in order, others anywhere'
    _irr_ = False
    def __init__(self, it=()):
        self.l = []; rt.ctx().tracked.append(self)
        for x in it: self.append(x)
    def _snap_(self): return list(self.l)
    def __contains__(self, x):
        if rt.irrelevant(x): return bool(rt.ctx().choose(2, 'already there'))
        return any(y is x for y in self.l)
    def append(self, x):
        if not rt.irrelevant(x): self.l.append(x)
    def _iter_(self):
        mk = rt.ctx().ghost['leaf']
        out = [mk()]
        for x in self.l: out += [x, mk()]
        if not hasattr(self, 'segs'): self.segs = {}
        self.segs.setdefault(len(self.l), out)
        return list(self.segs[len(self.l)])
    def __iter__(self): raise Unsupported('iteration')
    def _len_(self): raise Unsupported('len')


class Starts(Sym):
    'cumulative sums of a list with segments'
    _irr_ = False
    def __init__(self, l, k=0):
        self.l = l; self.k = k
    def __getitem__(self, s):
        if not (isinstance(s, slice) and (s.start, s.stop, s.step) in ((1, None, None), (None, -1, None))): raise Unsupported('part of cumulative sums')
        return Starts(self.l, self.k + 1 if s.start == 1 else self.k)
    def _zip_(self, *o):
        if len(o) != 1 or not isinstance(o[0], Starts) or o[0].l is not self.l or (self.k, o[0].k) != (0, 1): raise Unsupported('zip')
        out = []; pos = self.l[0]
        for x in self.l[1:]:
            n = irr_total([x]) if isinstance(x, Irr) else x
            if isinstance(x, Irr): out.append(Irr(lambda: rt.IrrTuple((nat('start'), nat('stop'))), dict(count=lambda e: 1), label='other parameters'))
            else: out.append((pos, pos + n))
            pos = pos + n
        return out


class Levels(Sym):
    'the distances of the ancestors P and Q (the parent of P) collected so far'
    _irr_ = False
    def __init__(self, P, Q, st=None): self.P = P; self.Q = Q; self.v = dict(st or {})
    def __contains__(self, x):
        if rt.irrelevant(x): return bool(rt.ctx().choose(2, 'known ancestor'))
        return id(x) in self.v
    def __getitem__(self, x):
        if rt.irrelevant(x): return nat('level')
        return self.v[id(x)]
    def get(self, x, d=None): return self[x] if x in self else d
    def __setitem__(self, x, l):
        if not rt.irrelevant(x): self.v[id(x)] = l
    def _snap_(self): return dict(self.v)
    def _havoc_(self):
        k = 2 if id(self.P) in self.v else 2 - rt.ctx().choose(2 if id(self.Q) in self.v else 3, 'ancestors so far')
        p, q = nat('level'), nat('level')
        if k == 2: rt.ctx().assume(q.e >= p.e + 1); st = {id(self.P): p, id(self.Q): q}
        elif k == 1: st = {id(self.Q): q}
        else: st = {}
        return Levels(self.P, self.Q, st)
    # a local that is changed in place: so are the others that hold it
    def _havoc_in_(self):
        self.v = self._havoc_().v
        return self
    def _copy_(self): return Levels(self.P, self.Q, self.v)
    def _havoc_same_(self, b): return self.good() and set(b.v) <= set(self.v)
    def good(self):
        v = self.v
        if id(self.P) not in v: return True
        return id(self.Q) in v and rt.ctx().entails(num(v[id(self.Q)]) >= num(v[id(self.P)]) + 1)
    def items(self): return LevelItems(self)
    def __iter__(self): raise Unsupported('iteration')


class LevelItems(Sym):
    def __init__(self, m): self.m = m
    def _sorted_(self, key=None, reverse=False):
        c = rt.ctx(); m = self.m
        probe = (Opaque('ancestor'), Opaque('level'))
        if key is None or key(probe) is not probe[1] or reverse: raise Unsupported('sorted by something else than the distance')
        e = [(x, m.v[id(x)]) for x in (m.P, m.Q) if id(x) in m.v]
        if len(e) == 2 and not c.decide(num(e[0][1]) < num(e[1][1])):
            if c.decide(num(e[1][1]) < num(e[0][1])) or c.choose(2, 'equal distances'): e.reverse()
        mk = lambda: Irr(lambda: rt.IrrTuple((Opaque('another ancestor', True), nat('level'))), label='other ancestors')
        out = [mk()]
        for x in e: out += [x, mk()]
        return WSeq(out)
    def __iter__(self): raise Unsupported('iteration')


@contract('C25', ['ParamConcatenation.__init__'], assumes=['flattened_parameters are the leaves below a node in order; ancestors form a finite chain'])
def concatenation_of_parameters(c):
    import paramz.core.lists_and_dicts as ld
    anc = lambda: SObj('another ancestor', None, fields=dict(_parent_=None), irr=True)
    Q = SObj('Q', None); P = SObj('P', None, fields=dict(_parent_=Q))
    Q._f['_parent_'] = Chain(anc, None)
    def leaf(n, irr=False, top=None):
        top = c.choose(3, 'place') if top is None else top
        o = SObj(n, None, fields=dict(size=nat('size'), _parent_=Chain(anc, [P, Q, None][top]) if top < 2 or not irr else None), contracts=dict(has_parent=lambda s: rt_has(s), flattened_parameters=Prop(lambda s: [s])), irr=irr)
        return o
    def rt_has(s): return shim.PD.is_(s._f['_parent_'], None) is not True
    a, b = leaf('a', top=0), leaf('b', top=1)
    # a is a child of P or further down; the parent of a parameter is never missing here, a parameter without one has no ancestors
    def others(twin=None):
        return Irr(lambda: leaf('another parameter', True), dict(size=lambda e: e.size, count=lambda e: 1), dict(size=nat('sizes'), count=nat('count')), 'other parameters', twin=twin)
    c.ghost['leaf'] = lambda: others('leaf')
    def node(leaves, irr=False): return SObj('a node', None, fields=dict(flattened_parameters=WSeq(leaves)), irr=irr)
    first = lambda: Irr(lambda: node([others()], True), label='earlier nodes')
    def later():
        k = c.choose(3, 'again')
        return node([others(), a, others()] if k == 0 else [others(), b, others()] if k == 1 else [others()], True)
    again = Irr(later, label='later nodes')
    params = WSeq([first(), node([others(), a, others(), b, others()]), again])
    shim.FUNCS['cumsum'] = lambda l, *x, **k: Starts(l)
    oldA, oldd = ld.ArrayList, shim.PDClass.__dict__['b_dict']
    ld.ArrayList = UList
    shim.PDClass.b_dict = staticmethod(lambda *x, **k: Levels(P, Q) if not x and not k else shim.b_dict(*x, **k))
    o = SObj('concatenation', PC())
    try: PC().__init__(o, params)
    finally: ld.ArrayList = oldA; shim.PDClass.b_dict = oldd
    got = o._f['params']
    c.prove('every leaf of what is selected once, in order of the first occurrence', isinstance(got, UList) and len(got.l) == 2 and got.l[0] is a and got.l[1] is b)
    seq = got._iter_(); sl = list(o._f['_param_slices_']); sz = list(o._f['_param_sizes'])
    c.prove('one slice and one size for each', len(sl) == 5 and len(sz) == 5 and [isinstance(x, Irr) for x in sl] == [True, False] * 2 + [True] == [isinstance(x, Irr) for x in sz])
    n0, n1 = seq[0].totals['size'], seq[2].totals['size']
    ok = lambda s, st, n: z3.And(num(s.start) == num(st), num(s.stop) == num(st + n)) if isinstance(s, slice) and s.step is None else z3.BoolVal(False)
    c.prove('the slices follow one another, each as long as its parameter', z3.And(ok(sl[1], n0, a.size), ok(sl[3], n0 + a.size + n1, b.size)))
    c.prove('the sizes are those of the parameters', sz[1] is a.size and sz[3] is b.size)
    par = [x for x in o._f['parents'] if not isinstance(x, Irr)]
    c.prove('every ancestor of a parameter once, and before its own parent', len(par) == 2 and par[0] is P and par[1] is Q)


# ---------------------------------------------------------------------------------------------------------------
# reading and writing

class PV(Sym):
    'an array by position'
    _irr_ = False
    def __init__(self, fn, lo, n): self.fn = fn; self.lo = lo; self.n = n
    def at(self, i): return self.fn(z3.simplify(num(self.lo) + num(i)))
    def __getitem__(self, s):
        if isinstance(s, slice):
            if s.step is not None or s.start is None or s.stop is None: raise Unsupported('slice')
            return PV(self.fn, self.lo + s.start, s.stop - s.start)
        if isinstance(s, PV): return PM(self, s)
        raise Unsupported('index')
    def __setitem__(self, s, v):
        if not isinstance(s, Key): raise Unsupported('index')
        f = self.fn
        if v is True: self.fn = lambda j: z3.Or(f(j), s.sel(j))
        elif isinstance(v, Vals): self.fn = lambda j: z3.If(s.sel(j), v.at(j), f(j))
        else: raise Unsupported('assignment')


class PM(Sym):
    'the entries of an array where a mask holds'
    _irr_ = False
    def __init__(self, a, m): self.a = a; self.m = m


class Key(Sym):
    'an index into the concatenation: the positions it selects'
    _irr_ = False
    def __init__(self): self.sel = z3.Function('SEL', z3.IntSort(), z3.BoolSort())


class Vals(Sym):
    'values for the selected positions'
    _irr_ = False
    _cls_ = lambda self: list
    def __init__(self): self.at = z3.Function('VAL', z3.IntSort(), z3.RealSort())
    def _isinstance_(self, k): return False


class Aligned(WSeq):
    def _zip_(self, *o):
        if len(o) != 1 or not isinstance(o[0], Aligned) or o[0] is self: raise Unsupported('zip')
        return [Irr((lambda x=x, y=y: rt.IrrTuple((x.make(), y.make()))), dict(count=lambda e: 1), x.totals, x.label) if isinstance(x, Irr) else (x, y) for x, y in zip(list.__iter__(self), list.__iter__(o[0]))]


class Total(Sym):
    _irr_ = False
    def __init__(self, n): self.n = n
    def _sum_(self): return self.n


def world(c):
    before, n, behind = nat('before'), nat('n', 1), nat('behind')
    shim.FUNCS['zeros'] = lambda k, dtype=float, **x: PV((lambda j: z3.BoolVal(False)) if dtype is bool else (lambda j: z3.RealVal(0)), 0, k)
    def flat(o, irr):
        def put(s, m, v): c.event('write', o, m, v)
        return SObj('flat', None, contracts=dict(__setitem__=put), irr=irr)
    def par(name, irr=False):
        o = SObj(name, None, contracts=dict(_write_through=lambda s: c.event('through', s), _read_through=lambda s: c.event('read', s), __getitem__=lambda s, i: c.event('index', s, i) or parts.setdefault(id(s), Opaque('part of ' + name, irr))), irr=irr)
        o._f['flat'] = flat(o, irr); o._f['shape'] = Opaque('shape of ' + name, irr); o._f['param_array'] = SObj('array of ' + name, None, fields=dict(flat=Opaque('values of ' + name, irr)), irr=irr)
        return o
    parts = {}
    p = par('p')
    seg = lambda k: Irr(lambda: par('another parameter', True), dict(count=lambda e: 1), dict(count=nat(k)), 'other parameters')
    ssl = lambda: Irr(lambda: slice(nat('start'), nat('stop')), label='other slices')
    o = SObj('concatenation', PC(), fields=dict(params=Aligned([seg('k1'), p, seg('k2')]), _param_slices_=Aligned([ssl(), slice(before, before + n), ssl()]), _param_sizes=Total(before + n + behind)))
    return o, p, before, n, parts


@contract('C25 C12', ['ParamConcatenation.__setitem__'], assumes=['an index expression selects the same positions of two arrays of the same length (numpy)'])
def writing_a_concatenation(c):
    o, p, before, n, parts = world(c)
    old = z3.Function('OLD', z3.IntSort(), z3.RealSort()); key, v = Key(), Vals()
    o._c['values'] = lambda s: PV(old, 0, s._f['_param_sizes'].n)
    o._c['update_all_params'] = lambda s: c.event('update', s)
    cat = c.choose(2, 'value')
    PC().__setitem__(o, key, SObj('another concatenation', PC(), contracts=dict(values=lambda s: v)) if cat else v)
    ev = relevant(c)
    c.prove('each parameter is written once, through to its original, and then all parents are brought up to date', [e[0] for e in ev] == ['write', 'through', 'update'] and ev[0][1] is p and ev[1][1] is p and ev[2][1] is o)
    m, x = ev[0][2:]
    c.prove('as arrays of the length of the parameter', z3.And(num(m.n) == n.e, num(x.a.n) == n.e, num(x.m.n) == n.e) if isinstance(m, PV) and isinstance(x, PM) else z3.BoolVal(False))
    i = fresh_int('i'); c.assume(z3.And(i.e >= 0, i.e < n.e)); j = before.e + i.e
    c.prove('an entry is written if and only if its position is selected', z3.And(m.at(i) == key.sel(j), x.m.at(i) == m.at(i)))
    c.prove('with the value for its position', z3.Implies(key.sel(j), x.a.at(i) == v.at(j)))


@contract('C25', ['ParamConcatenation.__getitem__'], assumes=['an index expression selects the same positions of two arrays of the same length; unravel_index gives the places of flat positions (numpy)'])
def indexing_a_concatenation(c):
    import paramz.param as pp
    real = PC()
    o, p, before, n, parts = world(c)
    key = Key(); i0 = fresh_int('i'); c.assume(z3.And(i0.e >= 0, i0.e < n.e))
    class Where(Sym):
        _irr_ = False
        def __init__(self, m, shape=None): self.m = m; self.shape = shape
    anys = []
    def any_(m, *a):
        if not isinstance(m, PV): return NotImplemented
        b = fresh_bool('any'); c.assume(z3.Implies(m.at(i0), b.e)); anys.append((b, m)); return b
    shim.FUNCS.update(any=any_, flatnonzero=lambda m: Where(m) if isinstance(m, PV) else NotImplemented, unravel_index=lambda w, s, *a: Where(w.m, s) if isinstance(w, Where) else NotImplemented)
    made = []
    class Fake(object):
        def __init__(self, *x, **k): made.append((self, x, k))
    pp.ParamConcatenation = Fake
    lens = []; b_len = shim.PDClass.__dict__['b_len']
    shim.PDClass.b_len = staticmethod(lambda x: (lens.append(list(x)) if isinstance(x, list) else None, shim.b_len(x))[1])
    try: r = real.__getitem__(o, key)
    finally: pp.ParamConcatenation = real; shim.PDClass.b_len = b_len
    if not made and not lens: raise Unsupported('the number of parts is not asked for by len')
    part = parts.get(id(p))
    ev = relevant(c)
    c.prove('only reads', all(e[0] == 'index' for e in ev) and len(ev) <= 1)
    inside = bool(ev)
    c.prove('a parameter none of whose entries is selected is left out', z3.Implies(key.sel(before.e + i0.e), z3.BoolVal(inside)))
    if inside:
        w = ev[0][2]
        good = isinstance(w, Where) and isinstance(w.m, PV) and w.shape is p._f['shape']
        c.prove('otherwise the selected entries of it are taken, by their places', z3.And(num(w.m.n) == n.e, w.m.at(i0) == key.sel(before.e + i0.e)) if good else z3.BoolVal(False))
    if made:
        l = list(arg(made[0][1], made[0][2], 0, 'params'))
        c.prove('several parts are a concatenation again, in order', len(made) == 1 and r is made[0][0] and [isinstance(x, Irr) for x in l] == ([True, False, True] if inside else [True, True]) and (not inside or l[1] is part))
    elif inside and r is part: pass # the number of others is what is left to show
    else: c.prove('a single part is itself', not inside and rt.irrelevant(r))
    if not made:
        # the others which are selected, in front of p and behind it
        c.prove('what is returned alone is all that is selected', z3.Sum([num(x.totals['count']) for x in lens[-1] if isinstance(x, Irr)]) + (1 if inside else 0) == 1 if lens else z3.BoolVal(False))


@contract('C25 C12', ['ParamConcatenation.values'])
def values_of_a_concatenation(c):
    o, p, before, n, parts = world(c)
    got = []; v = Opaque('values')
    shim.FUNCS['hstack'] = lambda l, **k: c.event('stack', o, list(l)) or v
    r = PC().values(o)
    ev = relevant(c)
    c.prove('the current values are fetched, then put together', r is v and [e[:2] for e in ev] == [('read', p), ('stack', o)])
    l = ev[1][2]
    c.prove('all parameters in order', len(l) == 3 and l[1] is p._f['param_array']._f['flat'] and isinstance(l[0], Irr) and isinstance(l[2], Irr) and rt.irrelevant(l[0].make()))


# ---------------------------------------------------------------------------------------------------------------
# in-place operators, comparisons, gradient check

INPLACE = sorted(k for k in dir(np.ndarray) if k.startswith('__i') and k.endswith('__') and k not in ('__init__', '__init_subclass__', '__int__', '__index__', '__invert__', '__iter__', '__imatmul__')) + ['__idiv__']


def in_place(meth):
    def fn(c):
        res = Opaque('result of the plain operation'); got = []
        def nd(v, *a, **k): got.append((v, a, k)); return res
        arr = lambda n: SObj(n, np.ndarray, contracts={'ndarray.' + meth: nd, meth: nd}, base={meth: nd})
        now, other = arr('values'), arr('operand')
        def vals(s, *a, **k): return now
        o = SObj('concatenation', PC(), contracts=dict(values=lambda s, *a, **k: c.event('values', s) or vals(s), __setitem__=lambda s, i, v: c.event('write', s, i, v)))
        r = PC().__dict__[meth](o, other)
        ev = relevant(c)
        c.prove('the values are taken, changed by the plain operation with the operand, and written back to all entries', [e[0] for e in ev] == ['values', 'write'] and len(got) == 1 and got[0][0] is now and len(got[0][1]) == 1 and got[0][1][0] is other and not got[0][2]
                and (ev[1][2] == slice(None) or ev[1][2] is Ellipsis) and ev[1][3] is res)
        c.prove('nothing, or the concatenation itself, is what the name is bound to afterwards', r is None or r is o)
    fn.__name__ = 'in_place_' + meth.strip('_')
    contract('C25', ['ParamConcatenation.' + meth], trusted=['ndarray.%s computes what numpy documents' % meth])(fn)


for _k in INPLACE:
    if _k != '__idiv__': in_place(_k)


@contract('C25', ['ParamConcatenation.__lt__', 'ParamConcatenation.__le__', 'ParamConcatenation.__eq__', 'ParamConcatenation.__ne__', 'ParamConcatenation.__gt__', 'ParamConcatenation.__ge__'])
def comparisons_of_a_concatenation(c):
    names = ['__lt__', '__le__', '__eq__', '__ne__', '__gt__', '__ge__']
    n = names[c.choose(len(names), 'comparison')]
    other, res = Opaque('operand'), Opaque('result'); got = []
    def mk(k):
        def f(v, x): got.append((k, x)); return res
        return f
    v = type('Values', (Sym,), dict({k: mk(k) for k in names}, _irr_=False, __hash__=None))()
    o = SObj('concatenation', PC(), contracts=dict(values=lambda s, *a: v))
    r = PC().__dict__[n](o, other)
    c.prove('the comparison of the values', r is res and got == [(n, got[0][1])] and got[0][1] is other)


@contract('C25 C24', ['ParamConcatenation.checkgrad'])
def checking_a_concatenation(c):
    res = Opaque('verdict'); got = []
    root = SObj('root', None, contracts=dict(_checkgrad=lambda s, *a, **k: c.event('check', s, a, k) or res))
    par = lambda n, irr=False: SObj(n, None, fields=dict(_highest_parent_=root), irr=irr)
    # every selected parameter is below the same root
    a = par('a'); l = [a] + [[], [Irr(lambda: par('another', True), dict(count=lambda e: 1), dict(count=nat('k')), 'others')]][c.choose(2, 'how many')]
    v, s, t = Opaque('verbose'), Opaque('step'), Opaque('tolerance')
    o = SObj('concatenation', PC(), fields=dict(params=WSeq(l)))
    r = PC().checkgrad(o, v, s, t)
    ev = [e for e in c.trace if e[0] == 'check']
    c.prove('the root checks exactly this concatenation, with the settings given', len(ev) == 1 and ev[0][1] is root and arg(ev[0][2], ev[0][3], 0, 'target_param') is o and r is res
            and all(arg(ev[0][2], ev[0][3], i + 1, n) is x for i, (n, x) in enumerate([('verbose', v), ('step', s), ('tolerance', t)])))
