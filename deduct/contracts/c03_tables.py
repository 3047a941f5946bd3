"""C03: property tables as sets of (property, position) pairs.  A table is seen through one arbitrary witness property; its
positions are an arbitrary set of integers (a predicate), start, sizes and offsets are symbolic."""
import z3
from .. import rt, vals, shim, index, table
from ..base import contract
from ..index import SIdx
from ..rt import Irr
from ..shim import WSeq
from ..table import PDict, Table, eq_sets, items_contract, none
from ..vals import SObj, Opaque, SNum, fresh_int, num, Prop

INV = ['the positions stored for a property are sorted and distinct on entry (representation invariant: every contract here shows that it is kept)']
NPY = ['numpy union1d, setdiff1d, intersect1d, comparison, boolean selection and in-place addition act as set operations on positions (checked against numpy by deduct/selfcheck.py)']


def pio():
    from paramz.core.index_operations import ParameterIndexOperations
    index.install()
    return ParameterIndexOperations


def fresh_table(c, present=None, items=True, irr=False):
    'a table with witness property P; its positions may be none, or the property may not be there at all'
    PIO = pio()
    P = Opaque('property')
    here = bool(c.choose(2, 'present')) if present is None else present
    S = SIdx.symbol('S')
    d = PDict([[P, S if here else None]])
    t = SObj('table', PIO, fields=dict(_properties=d))
    t0 = S.m if here else (lambda k: z3.BoolVal(False))
    if items: t._c['items'] = lambda o: items_contract([(k, i) for k, i in o._properties.e])
    return t, d, P, t0


def now(d, P):
    i = d._w(P)[1]
    return none() if i is None else i


def check(c, d, P, want, what, arg=None):
    i = now(d, P)
    c.prove(what, eq_sets(i, want))
    c.prove('the positions stored are sorted and distinct', i.sorted)
    if arg is not None: c.prove('what is stored is not the array of the caller', i is not arg)


def idx_arg(c, name='I'):
    i = SIdx.symbol(name, sorted=bool(c.choose(2, 'argument sorted and distinct')))
    s = i._snap_()
    return i, i.m, (lambda: c.prove('the array handed in is left alone', s._same_(i._snap_())))


@contract('C03', ['ParameterIndexOperations.add', 'combine_indices'], assumes=INV, trusted=NPY)
def add(c):
    t, d, P, S = fresh_table(c); I, m, left = idx_arg(c)
    key = P if c.choose(2, 'witness') else Opaque('another property', irr=True)
    pio().add(t, key, I)
    check(c, d, P, (lambda k: z3.Or(S(k), m(k))) if key is P else S, 'adding gives the union for this property, nothing for another', I)
    left()


@contract('C03', ['ParameterIndexOperations.remove', 'remove_indices', 'index_empty'], assumes=INV, trusted=NPY)
def remove(c):
    t, d, P, S = fresh_table(c); I, m, left = idx_arg(c)
    key = P if c.choose(2, 'witness') else Opaque('another property', irr=True)
    r = pio().remove(t, key, I)
    check(c, d, P, (lambda k: z3.And(S(k), z3.Not(m(k)))) if key is P else S, 'removing gives the difference for this property, nothing for another')
    if key is P: r = SIdx.of(r); c.prove('exactly the positions taken away are returned', eq_sets(r, lambda k: z3.And(S(k), m(k)))); c.prove('returned sorted and distinct', r.sorted)
    left()


@contract('C03', ['ParameterIndexOperations.clear'], assumes=INV)
def clear(c):
    t, d, P, S = fresh_table(c)
    pio().clear(t)
    check(c, d, P, lambda k: z3.BoolVal(False), 'clearing empties the table')


@contract('C03', ['ParameterIndexOperations.__getitem__', 'ParameterIndexOperations.__delitem__'], assumes=INV)
def get_and_delete(c):
    t, d, P, S = fresh_table(c)
    other = Opaque('another property', irr=True)
    k = c.choose(4, 'operation')
    if k == 0:
        r = pio().__getitem__(t, P); c.prove('asking for a property gives its positions', eq_sets(SIdx.of(r), S)); check(c, d, P, S, 'asking changes nothing')
    elif k == 1:
        pio().__getitem__(t, other); check(c, d, P, S, 'asking changes nothing')
    elif k == 2:
        pio().__delitem__(t, other); check(c, d, P, S, 'deleting another property changes nothing here')
    else:
        try: pio().__delitem__(t, P)
        except KeyError: pass
        check(c, d, P, lambda k: z3.BoolVal(False), 'deleting a property removes all its positions')


@contract('C03', ['ParameterIndexOperations.items'], assumes=INV)
def items(c):
    t, d, P, S = fresh_table(c, items=False)
    c.ghost['generator'] = True
    got = []
    for k, i in pio().items(t):
        c.event('yield', k if k is P else (k if rt.irrelevant(k) else k))
        if k is P: got.append(i)
    c.ghost['generator'] = False
    some = fresh_int('some')
    c.prove('a property is listed at most once', len(got) <= 1)
    if got: c.prove('listed with its positions', eq_sets(got[0], S)); c.prove('only if there are any', got[0].size.e > 0)
    else: c.prove('not listed only if it has no positions', z3.Not(S(some.e)))
    check(c, d, P, S, 'listing changes nothing')


@contract('C03', ['ParameterIndexOperations.properties', 'ParameterIndexOperations.indices', 'ParameterIndexOperations.size'], assumes=INV + ['contract of items()'])
def listings(c):
    t, d, P, S = fresh_table(c)
    T = [fresh_int('t0'), fresh_int('t1')]
    for x in T: c.assume(x.e >= 0)
    t._c['items'] = lambda o: items_contract([(k, i) for k, i in o._properties.e], T)
    k = c.choose(3, 'which')
    some = fresh_int('some')
    if k == 0:
        ps = [p for p in pio().properties(t) if not isinstance(p, Irr)]
        c.prove('the property is listed once if it has positions and not otherwise', ps in ([P], []))
        if not ps: c.prove('not listed only without positions', z3.Not(S(some.e)))
        else: c.prove('listed only with positions', d._w(P)[1].size.e > 0)
    elif k == 1:
        xs = [p for p in pio().indices(t) if not isinstance(p, Irr)]
        c.prove('its positions are listed', len(xs) <= 1)
        if xs: c.prove('exactly', eq_sets(xs[0], S))
        else: c.prove('not listed only without positions', z3.Not(S(some.e)))
    else:
        n = num(t.size)
        i = d._w(P)[1]
        if i is not None and c.decide(i.card().e > 0): c.prove('the size counts every pair', n == T[0].e + i.card().e + T[1].e)
        else: c.prove('the size counts every pair', n == T[0].e)


@contract('C03', ['ParameterIndexOperations.shift_right', 'ParameterIndexOperations.indices'], assumes=INV + ['contract of items()'], trusted=NPY)
def shift_right(c):
    t, d, P, S = fresh_table(c)
    a, n = fresh_int('start'), fresh_int('size'); c.assume(n.e >= 0)
    pio().shift_right(t, a, n)
    check(c, d, P, lambda k: z3.If(k < a.e, S(k), z3.And(k - n.e >= a.e, S(k - n.e))), 'inserting a block moves the later positions by its size and no others')


@contract('C03', ['ParameterIndexOperations.shift_left'], assumes=INV + ['contract of items()'], trusted=NPY)
def shift_left(c):
    t, d, P, S = fresh_table(c)
    a, n = fresh_int('start'), fresh_int('size'); c.assume(n.e >= 0)
    pio().shift_left(t, a, n)
    check(c, d, P, lambda k: z3.If(k < a.e, S(k), S(k + n.e)), 'removing a block drops exactly its positions and moves the later ones by its size')


@contract('C03', ['ParameterIndexOperations.update'], assumes=INV + ['contract of items() of the other table'], trusted=NPY)
def update(c):
    t, d, P, S = fresh_table(c)
    O = SIdx.symbol('O') if c.choose(2, 'there') else None
    om = O.m if O is not None else (lambda k: z3.BoolVal(False))
    other = SObj('other table', None, contracts=dict(items=lambda o: items_contract([(P, O)])))
    k = c.choose(2, 'offset'); off = fresh_int('offset') if k else 0
    if k: pio().update(t, other, off)
    else: pio().update(t, other)
    e = num(off)
    check(c, d, P, lambda j: z3.Or(S(j), om(j - e)), 'merging adds exactly the pairs of the other table, shifted', O)
    if O is not None: c.prove('the other table is left alone', eq_sets(O, om))


@contract('C03 C19', ['ParameterIndexOperations.copy', 'ParameterIndexOperations.__deepcopy__', 'ParameterIndexOperations.__init__'], assumes=INV + ['contract of items()'], trusted=NPY)
def copy(c):
    t, d, P, S = fresh_table(c)
    PIO = pio()
    from paramz.core import index_operations as M
    made = []
    old = M.ParameterIndexOperations
    def construct(constraints=None):
        n = SObj('copy', PIO, track=False); d2 = PDict([[P, None]]); made.append((n, d2))
        IAD = M.IntArrayDict
        M.IntArrayDict = lambda *a: d2
        try: PIO.__init__(n, constraints)
        finally: M.IntArrayDict = IAD
        return n
    M.ParameterIndexOperations = construct
    try: r = PIO.copy(t) if c.choose(2, 'copy') else PIO.__deepcopy__(t, {})
    finally: M.ParameterIndexOperations = old
    if len(made) != 1 and any(r is x for x, _ in made): raise rt.Unsupported('several tables made')
    c.prove('a copy is a table of its own', len(made) == 1 and r is made[0][0])
    d2 = made[0][1]
    c.prove('with the same pairs', eq_sets(now(d2, P), S))
    c.prove('no array is shared', now(d2, P) is not now(d, P))
    check(c, d, P, S, 'copying changes nothing')


@contract('C03', ['ParameterIndexOperations.properties_for'], assumes=INV + ['contract of items()', 'vectorize(f)(index) holds f of each element, in order (numpy)'])
def properties_for(c):
    t, d, P, S = fresh_table(c)
    i = fresh_int('i'); got = []
    class VIdx(Opaque):
        pass
    ind = Opaque('requested positions')
    def vec(f, otypes=None, **k):
        def call(x):
            c.prove('asked for the positions handed in', x is ind)
            got.append(f(i)); return Opaque('result')
        return call
    shim.FUNCS['vectorize'] = vec
    from paramz.core import index_operations as M
    keep = M.vectorize; M.vectorize = vec
    try: pio().properties_for(t, ind)
    finally: M.vectorize = keep
    if len(got) != 1: raise rt.Unsupported('positions looked up without vectorize')
    ps = [p for p in got[0] if not isinstance(p, Irr)]
    c.prove('a property is reported once for a position it is attached to and not for others', z3.And(z3.BoolVal(ps in ([], [P])), z3.BoolVal(ps == [P]) == S(i.e)))
    check(c, d, P, S, 'asking changes nothing')


# ---------------------------------------------------------------------------------------------------------------
# positions grouped by property

class Group(vals.Sym):
    'a list of positions: the ones talked about, in order'
    _irr_ = False
    def __init__(self, w=()): self.w = list(w); rt.ctx().tracked.append(self)
    def _snap_(self): return list(self.w)
    def append(self, x):
        if not rt.irrelevant(x): self.w.append(x)
    def extend(self, x): raise rt.Unsupported('extend')


class Grouped(vals.Sym):
    'positions by property; nothing is known of properties other than P; P may be there because of entries nothing is claimed about'
    _irr_ = False
    def __init__(self, P): self.P = P; self.g = None; self.done = False; rt.ctx().tracked.append(self)
    def _snap_(self): return (list(self.g.w) if self.g is not None else [], self.done)
    def __contains__(self, k):
        if k is self.P and self.g is not None and self.g.w: return True
        return bool(rt.ctx().choose(2, 'there'))
    def _get(self, k):
        if k is not self.P: return Group()
        if self.g is None: self.g = Group()
        return self.g
    def __getitem__(self, k): return self._get(k)
    def get(self, k, d=None):
        if k in self: return self._get(k)
        return Group() if type(d) is list and not d else d
    def setdefault(self, k, d):
        if type(d) is not list or d: raise rt.Unsupported('setdefault')
        return self._get(k)
    def __setitem__(self, k, v):
        if type(v) is list:
            if rt.has_irr(v): raise rt.Unsupported('a list of unknown length')
            v = Group(x for x in v if not rt.irrelevant(x))
        if isinstance(v, Stacked):
            if k is self.P:
                if v.g is not self.g: raise rt.Unsupported('another list')
                self.done = True
            return
        if not isinstance(v, Group): raise rt.Unsupported('%r stored' % (v,))
        if k is self.P: self.g = v
    def items(self):
        here = [(self.P, self._get(self.P))] if self.P in self else []
        other = lambda: Irr(lambda: rt.IrrTuple((Opaque('another property', irr=True), Group())), label='other properties')
        return WSeq([other()] + here + [other()])


class Stacked(vals.Sym):
    _irr_ = False
    def __init__(self, g): self.g = g


@contract('C03 C04', ['extract_properties_to_index', 'ParameterIndexOperations.properties_dict_for', 'ParameterIndexOperationsView.properties_dict_for'], assumes=['contract of properties_for'])
def positions_by_property(c):
    from paramz.core import index_operations as M
    P = Opaque('property')
    n1, n2, n3 = [fresh_int('n%d' % i) for i in range(3)]
    for n in (n1, n2, n3): c.assume(n.e >= 0)
    pa = n1; pb = n1 + 1 + n2
    def others(): return Irr(lambda: Opaque('another property', irr=True), label='other properties')
    hasa, hasb = bool(c.choose(2, 'a has it')), bool(c.choose(2, 'b has it'))
    def entry(h): return WSeq([others()] + ([P] if h else []) + [others()])
    def seg(n): return Irr(lambda: entry(bool(c.choose(2, 'has it'))), dict(count=lambda e: 1), dict(count=n), 'other positions')
    props = WSeq([seg(n1), entry(hasa), seg(n2), entry(hasb), seg(n3)])
    a, b = Opaque('position a'), Opaque('position b')
    def at(o, i):
        if c.entails(num(i) == num(pa)): return a
        if c.entails(num(i) == num(pb)): return b
        if c.entails(z3.And(num(i) != num(pa), num(i) != num(pb))): return Opaque('another position', irr=True)
        raise rt.Unsupported('position')
    ind = SObj('requested positions', None, contracts=dict(__getitem__=at))
    made = []
    def new(): made.append(Grouped(P)); return made[-1]
    c.ghost['dict'] = new
    shim.FUNCS['array'] = lambda x, dtype=None, **k: Stacked(x) if isinstance(x, Group) and dtype is int else NotImplemented
    def asked(o, i):
        c.prove('asked for the positions handed in', i is ind); return props
    which = c.choose(2, 'table or window'); cls = [M.ParameterIndexOperations, M.ParameterIndexOperationsView][which]
    r = cls.properties_dict_for(SObj('table', cls, contracts=dict(properties_for=asked)), ind)
    if len(made) != 1 or r is not made[0]: raise rt.Unsupported('not collected in a dictionary')
    c.prove('a position is listed for a property exactly if the property is attached there, once, in the order asked for', r._snap_()[0] == [x for x, h in ((a, hasa), (b, hasb)) if h])
    c.prove('as an array of positions', r.done or not (hasa or hasb))
