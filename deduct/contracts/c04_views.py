"""C04: a window [offset, offset+size) on a table.  The table under it is seen through the contracts C03 proves of it, for one
arbitrary witness property; offset, size, the positions and the arguments are symbolic.  Also decides the copies (C19, C20)."""
import z3
from .. import rt, vals, shim, index, table
from ..base import contract
from ..index import SIdx
from ..rt import Irr
from ..table import PDict, Table, eq_sets, items_contract, none
from ..vals import SObj, Opaque, SNum, fresh_int, num
from .c03_tables import NPY

INV = ['contracts of ParameterIndexOperations as proved for C03 (applied to the table under the window)',
       'positions handed to a window lie inside it (precondition; the callers hand in positions of _raveled_index, see flat_positions_of_a_part and flat_index)']


def V():
    from paramz.core.index_operations import ParameterIndexOperationsView
    index.install()
    return ParameterIndexOperationsView


def window(c, items=True):
    P = Opaque('property')
    S = SIdx.symbol('S') if c.choose(2, 'present') else None
    s = S.m if S is not None else (lambda k: z3.BoolVal(False))
    base = Table.make('table under the window', None, [[P, S]])
    c.tracked.append(table.SetsOf(base))
    o, n = fresh_int('offset'), fresh_int('size')
    c.assume(o.e >= 0); c.assume(n.e >= 0)
    v = SObj('window', V(), fields=dict(_param_index_ops=base, _offset=o, _size=n))
    W = lambda k: z3.And(s(k + o.e), k >= 0, k < n.e)
    if items: v._c['items'] = lambda w: items_contract([(P, SIdx(W, True))])
    return v, base, P, s, o.e, n.e, W


def inside_arg(c, n, name='I'):
    i = SIdx.symbol(name, sorted=bool(c.choose(2, 'argument sorted and distinct'))); m = i.m
    c.assume(index.forall(lambda k: z3.Implies(m(k), z3.And(k >= 0, k < n))))
    s = i._snap_()
    return i, m, (lambda: c.prove('the array handed in is left alone', s._same_(i._snap_())))


def check(c, base, P, s, o, n, inw, what):
    'the table holds inw (window positions) inside the range and what it held before outside'
    now = Table.set(base, P)
    c.prove(what, eq_sets(now, lambda k: z3.If(z3.And(k >= o, k < o + n), inw(k - o), s(k))))


@contract('C04', ['ParameterIndexOperationsView.items', 'ParameterIndexOperationsView._filter_index'], assumes=INV, trusted=NPY)
def view_items(c):
    v, base, P, s, o, n, W = window(c, items=False)
    c.ghost['generator'] = True
    got = []
    for k, i in V().items(v):
        c.event('yield', k)
        if k is P: got.append(i)
    c.ghost['generator'] = False
    some = fresh_int('some')
    c.prove('a property is listed at most once', len(got) <= 1)
    if got: c.prove('listed with exactly the positions inside the range, counted from its start', eq_sets(got[0], W)); c.prove('only if there are any', got[0].size.e > 0); c.prove('sorted and distinct', got[0].sorted)
    else: c.prove('not listed only if there are none inside the range', z3.Not(W(some.e)))
    check(c, base, P, s, o, n, W, 'listing changes nothing')


@contract('C04', ['ParameterIndexOperationsView.properties', 'ParameterIndexOperationsView.indices', 'ParameterIndexOperationsView.size'], assumes=INV + ['contract of items()'])
def view_listings(c):
    v, base, P, s, o, n, W = window(c)
    T = [fresh_int('t0'), fresh_int('t1')]
    for x in T: c.assume(x.e >= 0)
    i = SIdx(W, True)
    v._c['items'] = lambda w: items_contract([(P, i)], T)
    some = fresh_int('some'); k = c.choose(3, 'which')
    if k == 0:
        ps = [p for p in V().properties(v) if not isinstance(p, Irr)]
        c.prove('the property is listed once if it has positions here and not otherwise', ps in ([P], []))
        if not ps: c.prove('not listed only without positions', z3.Not(W(some.e)))
        else: c.prove('listed only with positions', i.size.e > 0)
    elif k == 1:
        xs = [p for p in V().indices(v) if not isinstance(p, Irr)]
        c.prove('its positions are listed once', len(xs) <= 1)
        if xs: c.prove('exactly', eq_sets(xs[0], W))
        else: c.prove('not listed only without positions', z3.Not(W(some.e)))
    else:
        r = num(v.size)
        if c.decide(i.card().e > 0): c.prove('the size counts every pair', r == T[0].e + i.card().e + T[1].e)
        else: c.prove('the size counts every pair', r == T[0].e)


@contract('C04', ['ParameterIndexOperationsView.__getitem__', 'ParameterIndexOperationsView.__delitem__', 'ParameterIndexOperationsView._filter_index'], assumes=INV, trusted=NPY)
def view_get_and_delete(c):
    v, base, P, s, o, n, W = window(c)
    other = Opaque('another property', irr=True)
    k = c.choose(4, 'operation')
    if k == 0: c.prove('asking gives the positions inside the range, counted from its start', eq_sets(SIdx.of(V().__getitem__(v, P)), W)); check(c, base, P, s, o, n, W, 'asking changes nothing')
    elif k == 1: V().__getitem__(v, other); check(c, base, P, s, o, n, W, 'asking changes nothing')
    elif k == 2: V().__delitem__(v, other); check(c, base, P, s, o, n, W, 'deleting another property changes nothing here')
    else: V().__delitem__(v, P); check(c, base, P, s, o, n, lambda k: z3.BoolVal(False), 'deleting removes exactly the positions inside the range')


@contract('C04', ['ParameterIndexOperationsView.add'], assumes=INV, trusted=NPY)
def view_add(c):
    v, base, P, s, o, n, W = window(c); I, m, left = inside_arg(c, n)
    key = P if c.choose(2, 'witness') else Opaque('another property', irr=True)
    V().add(v, key, I)
    check(c, base, P, s, o, n, (lambda k: z3.Or(W(k), m(k))) if key is P else W, 'adding gives the union inside the range and nothing outside')
    left()


@contract('C04', ['ParameterIndexOperationsView.remove'], assumes=INV, trusted=NPY)
def view_remove(c):
    v, base, P, s, o, n, W = window(c); I, m, left = inside_arg(c, n)
    key = P if c.choose(2, 'witness') else Opaque('another property', irr=True)
    r = V().remove(v, key, I)
    check(c, base, P, s, o, n, (lambda k: z3.And(W(k), z3.Not(m(k)))) if key is P else W, 'removing gives the difference inside the range and nothing outside')
    if key is P: c.prove('exactly the positions taken away are returned, counted from the start of the range', eq_sets(SIdx.of(r), lambda k: z3.And(W(k), m(k))))
    left()


@contract('C04', ['ParameterIndexOperationsView.clear'], assumes=INV + ['contract of items()'], trusted=NPY)
def view_clear(c):
    v, base, P, s, o, n, W = window(c)
    V().clear(v)
    check(c, base, P, s, o, n, lambda k: z3.BoolVal(False), 'clearing empties the range and nothing outside')


@contract('C04', ['ParameterIndexOperationsView.update'], assumes=INV + ['contract of items() of the other table'], trusted=NPY)
def view_update(c):
    v, base, P, s, o, n, W = window(c)
    off = fresh_int('shift') if c.choose(2, 'shift') else 0
    e = num(off)
    O = SIdx.symbol('O') if c.choose(2, 'there') else None
    om = O.m if O is not None else (lambda k: z3.BoolVal(False))
    c.assume(index.forall(lambda k: z3.Implies(om(k), z3.And(k + e >= 0, k + e < n))))
    other = SObj('other table', None, contracts=dict(items=lambda q: items_contract([(P, O)])))
    if isinstance(off, int): V().update(v, other)
    else: V().update(v, other, off)
    check(c, base, P, s, o, n, lambda k: z3.Or(W(k), om(k - e)), 'merging adds exactly the pairs of the other table, shifted, inside the range')
    if O is not None: c.prove('the other table is left alone', eq_sets(O, om))


@contract('C04', ['ParameterIndexOperationsView.shift_right', 'ParameterIndexOperationsView.shift_left'], assumes=INV)
def view_shift(c):
    v, base, P, s, o, n, W = window(c)
    a, q = fresh_int('start'), fresh_int('block')
    left = c.choose(2, 'left')
    (V().shift_left if left else V().shift_right)(v, a, q)
    ev = [x for x in c.trace if x[0] in ('left', 'right')]
    if not ev: raise rt.Unsupported('a shift that is no shift of the table under the window')
    c.prove('one shift of the table under the window, counted from its own start', len(ev) == 1 and len(c.trace) == 1 and ev[0][0] == ('left' if left else 'right') and ev[0][1] is base)
    if len(ev) == 1: c.prove('at the place and by the size asked for', z3.And(num(ev[0][2]) == a.e + o, num(ev[0][3]) == q.e))


@contract('C04 C19', ['ParameterIndexOperationsView.copy', 'ParameterIndexOperationsView.__deepcopy__'], assumes=INV + ['contract of items()'], trusted=NPY)
def view_copy(c):
    v, base, P, s, o, n, W = window(c)
    from paramz.core import index_operations as M
    PIO = M.ParameterIndexOperations
    made = []
    def construct(constraints=None):
        t = SObj('copy', PIO, track=False); d2 = PDict([[P, None]]); made.append((t, d2))
        IAD = M.IntArrayDict
        M.IntArrayDict = lambda *a: d2
        try: PIO.__init__(t, constraints)
        finally: M.IntArrayDict = IAD
        return t
    M.ParameterIndexOperations = construct
    try: r = V().copy(v) if c.choose(2, 'copy') else V().__deepcopy__(v, {})
    finally: M.ParameterIndexOperations = PIO
    c.prove('a copy of a window is a stand-alone table', len(made) == 1 and r is made[0][0])
    i = made[0][1]._w(P)[1]
    c.prove('with the pairs of the window', eq_sets(none() if i is None else i, W))
    c.prove('no array is shared with the table', i is None or i is not Table.set(base, P))
    check(c, base, P, s, o, n, W, 'copying changes nothing')


@contract('C04', ['ParameterIndexOperationsView.properties_for'], assumes=INV + ['contract of items()', 'vectorize(f)(index) holds f of each element, in order (numpy)'])
def view_properties_for(c):
    v, base, P, s, o, n, W = window(c)
    i = fresh_int('i'); got = []
    ind = Opaque('requested positions')
    def vec(f, otypes=None, **k):
        def call(x):
            c.prove('asked for the positions handed in', x is ind)
            got.append(f(i)); return Opaque('result')
        return call
    from paramz.core import index_operations as M
    keep = M.vectorize; M.vectorize = vec
    try: V().properties_for(v, ind)
    finally: M.vectorize = keep
    if len(got) != 1: raise rt.Unsupported('positions looked up without vectorize')
    ps = [p for p in got[0] if not isinstance(p, Irr)]
    c.prove('a property is reported once for a position it is attached to and not for others', z3.And(z3.BoolVal(ps in ([], [P])), z3.BoolVal(ps == [P]) == W(i.e)))
    check(c, base, P, s, o, n, W, 'asking changes nothing')


@contract('C04', ['ParameterIndexOperationsView.__init__', 'ParameterIndexOperationsView.__getstate__', 'ParameterIndexOperationsView.__setstate__'])
def view_state(c):
    base = Opaque('table'); o, n = fresh_int('offset'), fresh_int('size')
    v = SObj('window', V(), fields={})
    V().__init__(v, base, o, n)
    w = SObj('restored', V(), fields={})
    V().__setstate__(w, V().__getstate__(v))
    for x, what in ((v, 'constructed'), (w, 'restored')):
        c.prove('a %s window is over the table and range given' % what, z3.And(z3.BoolVal(x._param_index_ops is base), num(x._offset) == o.e, num(x._size) == n.e))
