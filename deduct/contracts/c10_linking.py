"""C10, C11, C12, C07: linking and unlinking, offsets, connecting the hierarchy to one block of memory.

A node is seen through one arbitrary child (or two), any number of other children around it (plist.PList), one arbitrary
ancestor with any number of others around it (plist.Chain), one arbitrary kind of annotation among any number of others
(plist.Kinds), tables at one arbitrary position (plist.Tab), memory at one arbitrary entry of the child (plist.Mem)."""
import z3
import numpy as np
from .. import rt, vals, shim
from ..base import contract, arg, only
from ..rt import Irr
from ..vals import SObj, Opaque, Bound, Prop, SBool, SNum, fresh_bool, fresh_int, num
from ..plist import PList, segment, Chain, Tab, Window, Kinds, KindName, Mem, Arr

PRE = ['the hierarchy is consistent before: sizes are sums of the sizes of the children, every child knows its parent and position (kept by these contracts)']
KIND = KindName()


def P():
    from paramz.core.parameter_core import Parameterizable
    return Parameterizable


def ZED():
    from paramz import Parameterized
    return Parameterized


def HE():
    from paramz.core import HierarchyError
    return HierarchyError


def relevant(c, *kinds): return [e for e in c.trace if not rt.irrelevant(e[1]) and (not kinds or e[0] in kinds)]
def nat(name): v = fresh_int(name); rt.ctx().assume(v.e >= 0); return v


def some_child(**contracts):
    n = nat('size')
    return SObj('another child', None, fields=dict(size=n, _parent_index_=fresh_int('i'), _parent_=Opaque('parent', True)), contracts=contracts, irr=True)


def irr_table():
    quiet = lambda o, *a, **k: None
    return SObj('table of another kind', None, contracts=dict(shift_right=quiet, shift_left=quiet, update=quiet, copy=lambda o: irr_table(), clear=quiet), irr=True)


class Family(object):
    'a node with children, ancestors, kinds of annotation'
    def __init__(self, c, nkids=1, with_param=False):
        self.c = c
        P = ZED()
        self.q = fresh_int('position')                                  # an arbitrary position in the table
        self.C0 = z3.Function('entry_has_property', z3.IntSort(), z3.BoolSort())
        self.iop = Tab('own', lambda p: self.C0(p), self.q.e)
        seg = lambda: segment(some_child)
        self.kids = []
        parts = [seg()]
        for i in range(nkids):
            w = SObj('child %d' % i, None, fields=dict(size=nat('size')))
            self.kids.append(w); parts += [w, seg()]
        self.pl = PList(parts)
        self.self = SObj('node', P, fields=dict(parameters=self.pl, size=self.pl.size(), name='node', _param_array_='old memory', _gradient_array_='old memory', _in_init_=False), contracts={})
        o = self.self
        for w in self.kids: w._f.update(_parent_=o, _parent_index_=self.pl.position(w))
        o._f['_index_operations'] = Kinds(KIND, self.iop, irr_table)
        # ancestors
        mk = lambda: SObj('another ancestor', P, fields=dict(size=nat('size'), _param_array_='old memory', _gradient_array_='old memory'), irr=True)
        self.above = c.choose(3, 'ancestors'); self.W = None
        if self.above == 0: root = o; o._f['_parent_'] = None
        else:
            root = W = self.W = SObj('ancestor', P, fields=dict(size=nat('size'), _param_array_='old memory', _gradient_array_='old memory'))
            W._f['_parent_'] = None
            if self.above == 2:
                root = SObj('root', P, fields=dict(size=nat('size'), _param_array_='old memory', _gradient_array_='old memory', _parent_=None))
                W._f['_parent_'] = Chain(mk, root)
            o._f['_parent_'] = Chain(mk, W)
        self.root = root
        self.line = [x for x in (o, self.W, root) if x is not None]
        self.line = [x for i, x in enumerate(self.line) if not any(x is y for y in self.line[:i])]
        self.size0 = [x.size for x in self.line]; self.idx0 = [w._f['_parent_index_'] for w in self.kids]
        o._c['_highest_parent_'] = Prop(lambda s: root)
        def ev(kind):
            def f(x, *a, **k): c.event(kind, x, a, k, self.state())
            return f
        for x in self.line:
            for kind in ('_connect_parameters', '_notify_parent_change', '_connect_fixes', '_remove_parameter_name', '_add_parameter_name'):
                x._c.setdefault(kind, ev(kind))
            x._f.setdefault('_model_initialized_', bool(c.choose(2, 'root initialized')) if x is root else fresh_bool('initialized'))
    def state(self):
        'what matters to whoever lays the hierarchy out anew'
        return (self.pl._snap_(), [x._f['size'] for x in self.line], [x._f['_param_array_'] is None and x._f['_gradient_array_'] is None for x in self.line],
                self.iop.at(self.q.e), list(self.self._f['_index_operations'].d.values())[0], getattr(self, 'param', None) and (self.param._f.get('_parent_'), self.param._f.get('_parent_index_')))
    def untouched(self, name):
        c = self.c
        c.prove(name + ': the children are as before', self.pl._snap_() == self.before[0])
        c.prove(name + ': sizes are as before', z3.And([num(a._f['size']) == num(b) for a, b in zip(self.line, self.size0)]))
        c.prove(name + ': nothing else happened', relevant(c) == [] or all(e[0] in ('look',) for e in relevant(c)))
        c.prove(name + ': annotations are as before', rt.same(self.before[1], self.iop._snap_()))
        for w, i in zip(self.kids, self.idx0): c.prove(name + ': positions are as before', num(w._f['_parent_index_']) == num(i))
    def ready(self): self.before = (self.pl._snap_(), self.iop._snap_())
    def same_state(self, st):
        now = self.state()
        r = rt.conj(st[0] == now[0], st[2] == now[2])
        r = rt.conj(r, z3.And([num(a) == num(b) for a, b in zip(st[1], now[1])]))
        r = rt.conj(r, st[3] == now[3]); r = rt.conj(r, st[4] is now[4])
        if now[5]:
            r = rt.conj(r, st[5][0] is now[5][0])
            a, b = st[5][1], now[5][1]
            r = rt.conj(r, a is b if a is None or b is None else num(a) == num(b))
        return r


def offered(c, name, size=None):
    'a parameter (or node) to be linked, with annotations of its own'
    n = nat('size of the parameter')
    D = z3.Function('parameter_has_property', z3.IntSort(), z3.BoolSort())
    con = dict(add_observer=lambda s, *a, **k: c.event('observe', s, a, k), remove_observer=lambda s, *a, **k: c.event('unobserve', s, a, k), _short=lambda s: 'x')
    p = SObj(name, ZED(), fields=dict(size=n, name='parameter'), contracts=con)
    at = lambda q: z3.And(q >= 0, q < n.e, D(q))
    return p, n, at


IDX = ['append', 'insert']


@contract('C10 C11 C12', ['Parameterized.link_parameter'], assumes=PRE + ['traverse_parents visits every other node of the hierarchy (C26)', 'the window on the tables does on its range what a table does (C04)'])
def link(c):
    F = Family(c, 1); o = F.self; w = F.kids[0]
    x, n, D = offered(c, 'parameter')
    tab = Tab('tables of the parameter', D)
    ops = Kinds(KIND, tab, irr_table); x._f['_index_operations'] = ops
    F.param = x
    had = bool(c.choose(2, 'has a parent'))
    inside = False
    if had:
        inside = bool(c.choose(2, 'inside the hierarchy already'))
        old = SObj('old parent', ZED())
        def unlink(s, p, *a):
            c.event('leave', s, p)
            new = Tab('tables after unlinking', D); tab.at = lambda p: z3.BoolVal(False)
            x._f.update(_parent_=None, _parent_index_=None); ops.d[KIND] = new
        old._c['unlink_parameter'] = unlink
        x._f.update(_parent_=old, _parent_index_=0)
        def visit_all(s, visit, *a, **k):
            visit(SObj('some other node', None, irr=True), *a, **k)
            if inside: visit(o, *a, **k)
        x._c['traverse_parents'] = visit_all
    else: x._f.update(_parent_=None, _parent_index_=None)
    far = SObj('another root', ZED())
    x._c['_highest_parent_'] = Prop(lambda s: s if s._f['_parent_'] is None else F.root if inside or s._f['_parent_'] is o else far)
    init = bool(c.choose(2, 'in init')); o._f['_in_init_'] = init
    how = c.choose(2, 'position'); i = None
    F.ready()
    try:
        if how == 0: r = ZED().link_parameter(o, x) if F.above == 0 and c.choose(2, 'default') else ZED().link_parameter(o, x, None)
        else: i = fresh_int('index'); r = ZED().link_parameter(o, x, i)
        exc = None
    except HE() as e: exc = e
    if inside:
        c.prove('what is in the hierarchy already is refused', exc is not None)
        F.untouched('a refused link')
        return
    c.prove('anything else is accepted', exc is None)
    c.prove('it occurs once', len(F.pl.place(x)) == 1 and x._f['_parent_'] is o)
    if len(F.pl.place(x)) != 1: return
    if how == 0: c.prove('a parameter linked without a position comes last', F.pl.place(x)[0] == len(F.pl.parts) - 1)
    else:
        total = F.pl._len_() - 1; z = num(i); t = num(total)
        want = z3.If(z < 0, z3.If(z + t < 0, 0, z + t), z3.If(z > t, t, z))
        c.prove('it is where list.insert puts it', num(F.pl.position(x)) == want)
    c.prove('it knows its position', num(x._f['_parent_index_']) == num(F.pl.position(x)))
    c.prove('the other children keep their order', len(F.pl.place(w)) == 1 and [p for p in F.pl._snap_() if p is w or p is x] in ([w, x], [x, w]))
    c.prove('the other children know their position', num(w._f['_parent_index_']) == num(F.pl.position(w)))
    c.prove('sizes grow by its size up to the root', z3.And([num(a._f['size']) == num(b) + n.e for a, b in zip(F.line, F.size0)]))
    c.prove('sizes are sums', num(o._f['size']) == num(F.pl.size()))
    # annotations
    s = num(F.pl.offset(x)); q = F.q.e
    now = F.self._f['_index_operations'].d[KIND]
    c.assume(z3.Implies(F.C0(q), z3.And(q >= 0, q < num(F.size0[0]) + 0)) if False else z3.BoolVal(True))
    want = z3.If(q < s, F.C0(q), z3.If(q < s + n.e, D(q - s), F.C0(q - n.e)))
    c.prove('every entry keeps its annotations', now.at(q) == want)
    obs = relevant(c, 'observe')
    c.prove('the node observes it once, after everyone else', len(obs) == 1 and obs[0][1] is x and arg(obs[0][2], obs[0][3], 0, 'observer') is o
            and arg(obs[0][2], obs[0][3], 1, 'callble') == Bound(P()._pass_through_notify_observers, o) and arg(obs[0][2], obs[0][3], 2, 'priority', 0) == -np.inf)
    c.prove('it leaves its old parent first', (len(relevant(c, 'leave')) == 1) == had and (not had or relevant(c)[0][0] == 'leave'))
    c.prove('it is returned', r is x)
    ev = [e for e in relevant(c) if e[1] is F.root]
    wins = [e for e in ev if e[0] == '_notify_parent_change']
    ok = False
    for e in wins: ok = ok or c.entails(F.same_state(e[4]) if F.same_state(e[4]) is not False else z3.BoolVal(False))
    c.prove('the windows of the whole hierarchy are renewed when the structure is complete', bool(ok))
    if not init and F.root._f['_model_initialized_'] is True:
        for kind in ('_connect_parameters', '_connect_fixes'):
            es = [e for e in ev if e[0] == kind]
            good = False
            for e in es: good = good or (F.same_state(e[4]) is not False and c.entails(F.same_state(e[4])))
            c.prove('an initialized hierarchy is connected anew when the structure is complete: ' + kind, bool(good))
        lf = max([k for k, e in enumerate(ev) if e[0] == '_connect_fixes'] + [-1]); lw = min([k for k, e in enumerate(ev) if e[0] == '_notify_parent_change'] + [99])
        c.prove('fixes are looked up through renewed windows', lf > lw)
        # connecting lays out the memory anew (arrays of a size that happens to be right again are not kept)
    conn = [e for e in ev if e[0] == '_connect_parameters']
    fin = conn[0][4][2] if conn else F.state()[2]
    c.prove('memory laid out for the former structure is let go of, up to the root', all(fin))


@contract('C10', ['Parameterized.link_parameter'], assumes=PRE)
def link_refused(c):
    F = Family(c, 1); o = F.self; w = F.kids[0]
    kind = c.choose(3, 'what')
    F.ready()
    i = None
    if kind == 0: x = w                                                    # already a child
    elif kind == 1: x = o                                                  # below itself
    else:
        if F.W is None: raise rt.Infeasible()
        x = F.W                                                            # below its own descendant
    if kind and c.choose(2, 'position'): i = fresh_int('index')
    for y in (o, F.W):
        if y is not None: y._c.setdefault('traverse_parents', lambda s, visit, *a, **k: None)
    try: ZED().link_parameter(o, x) if i is None else ZED().link_parameter(o, x, i); exc = None
    except HE() as e: exc = e
    c.prove('linking something twice, or below itself, is refused', exc is not None)
    F.untouched('a refused link')


@contract('C10', ['Parameterized.link_parameter'], assumes=PRE + ['unlink_parameter (contract below)'])
def link_moves_a_child(c):
    F = Family(c, 2); o = F.self; x, w = F.kids
    x._c.update(add_observer=lambda s, *a, **k: c.event('observe', s, a, k))
    D = lambda p: z3.BoolVal(False)
    x._f['_index_operations'] = Kinds(KIND, Tab('x', D), irr_table)
    x._cls_ = None
    def unlink(s, p, *a):
        c.event('leave', s, p)
        for y in F.line: y._f['size'] = y._f['size'] - p.size
        for y in F.kids:
            if F.pl.place(y)[0] > F.pl.place(p)[0]: y._f['_parent_index_'] = y._f['_parent_index_'] - 1
        F.pl.remove(p); p._f.update(_parent_=None, _parent_index_=None)
        c.ghost['count'] = F.pl._len_()
    x._c['has_parent'] = lambda s: s._f['_parent_'] is not None
    o._c['unlink_parameter'] = unlink
    i = fresh_int('index')
    r = ZED().link_parameter(o, x, i)
    z = num(i); t = num(c.ghost['count'])
    c.prove('it occurs once under the node', len(F.pl.place(x)) == 1 and x._f['_parent_'] is o)
    c.prove('it is moved to where list.insert puts it among the others', num(F.pl.position(x)) == z3.If(z < 0, z3.If(z + t < 0, 0, z + t), z3.If(z > t, t, z)))
    c.prove('children know their positions', z3.And(num(x._f['_parent_index_']) == num(F.pl.position(x)), num(w._f['_parent_index_']) == num(F.pl.position(w))))
    c.prove('sizes are as before', z3.And([num(a._f['size']) == num(b) for a, b in zip(F.line, F.size0)]))
    c.prove('unlinked once, from the node', len(relevant(c, 'leave')) == 1)


@contract('C10 C11 C12', ['Parameterized.unlink_parameter'], assumes=PRE + ['_disconnect_parent (contract below)', 'the window on the tables does on its range what a table does (C04)'])
def unlink(c):
    F = Family(c, 2); o = F.self; k = c.choose(2, 'which'); x, w = F.kids[k], F.kids[1 - k]
    n = x.size; q = F.q.e
    off = num(F.pl.offset(x)); pos = num(F.pl.position(w)) - (1 if k == 0 else 0)
    def disconnect(s, *a, **kw):
        f = F.iop.at
        c.event('disconnect', s, len(F.pl.place(x)))
        x._f['kept'] = lambda p: z3.And(p >= 0, p < num(n), f(p + off))
        F.iop.at = lambda p: z3.And(f(p), z3.Not(z3.And(p >= off, p < off + num(n))))
        x._f.update(_parent_=None, _parent_index_=None)
    x._c.update(_disconnect_parent=disconnect, remove_observer=lambda s, *a, **kk: c.event('unobserve', s, a, kk))
    F.param = x
    r = ZED().unlink_parameter(o, x)
    c.prove('it is no child any more', F.pl.place(x) == [] and x._f['_parent_'] is None)
    c.prove('the other children keep their order', len(F.pl.place(w)) == 1 and num(F.pl.position(w)) is not None)
    c.prove('the place of the others', num(F.pl.position(w)) == pos)
    c.prove('sizes shrink by its size up to the root', z3.And([num(a._f['size']) == num(b) - num(n) for a, b in zip(F.line, F.size0)]))
    c.prove('it is disconnected once', len(relevant(c, 'disconnect')) == 1)
    if relevant(c, 'disconnect'):
        p = fresh_int('p').e
        c.prove('it takes its annotations along', x._f['kept'](p) == z3.And(p >= 0, p < num(n), F.C0(p + off)))
    c.prove('every other entry keeps its annotations', z3.Implies(q >= 0, o._f['_index_operations'].d[KIND].at(q) == z3.If(q < off, F.C0(q), F.C0(q + num(n)))))
    un = relevant(c, 'unobserve')
    c.prove('the node stops observing it', len(un) == 1 and un[0][1] is x and arg(un[0][2], un[0][3], 0, 'observer') is o and arg(un[0][2], un[0][3], 1, 'callble', Bound(P()._pass_through_notify_observers, o)) == Bound(P()._pass_through_notify_observers, o))
    nm = relevant(c, '_remove_parameter_name')
    c.prove('its name is taken off the node', len(nm) == 1 and nm[0][1] is o and arg(nm[0][2], nm[0][3], 0, 'param') is x)
    ev = [e for e in relevant(c) if e[1] is F.root]
    for kind in ('_connect_parameters', '_connect_fixes', '_notify_parent_change'):
        good = False
        for e in ev:
            if e[0] == kind: good = good or (F.same_state(e[4]) is not False and c.entails(F.same_state(e[4])))
        c.prove('the hierarchy is connected anew when the structure is complete: ' + kind, bool(good))
    conn = [e for e in ev if e[0] == '_connect_parameters']
    c.prove('memory laid out for the former structure is let go of, up to the root', bool(conn) and all(all(e[4][2]) for e in conn if F.same_state(e[4]) is not False and c.entails(F.same_state(e[4]))))


@contract('C10', ['Parameterized.unlink_parameter'], assumes=PRE)
def unlink_refused(c):
    F = Family(c, 1); o = F.self; F.ready()
    if c.choose(2, 'what'): x = SObj('stranger', ZED(), fields=dict(size=nat('n'), _parent_=None, _parent_index_=None), contracts=dict(_short=lambda s: 'x'))
    else: x = SObj('no parameter', object, absent=['_short'])
    try: ZED().unlink_parameter(o, x); exc = None
    except HE() as e: exc = e
    c.prove('what is no child is refused', exc is not None)
    F.untouched('a refused unlink')


@contract('C11 C10', ['Indexable._disconnect_parent', 'Indexable.add_index_operation', 'Indexable.remove_index_operation'], assumes=['copy and clear of a window (C04)', '_add_io registers the table under the name (contract below)'])
def disconnect(c):
    C0 = z3.Function('entry_has_property', z3.IntSort(), z3.BoolSort())
    root = Tab('root', lambda p: C0(p)); off, n = nat('off'), nat('n')
    win = Window('window', root, off, n)
    seen = []
    ops = Kinds(KIND, win, irr_table)
    o = SObj('node', P(), fields=dict(_parent_=SObj('parent', None), _parent_index_=3, _index_operations=ops),
             contracts=dict(_connect_fixes=lambda s: c.event('fixes', s, s._f['_parent_'], ops.d.get(KIND)), _notify_parent_change=lambda s: c.event('windows', s, s._f['_parent_'], ops.d.get(KIND)),
                            _add_io=lambda s, k, t: ops.__setitem__(k, t)))
    extra = (Opaque('argument'),) if c.choose(2, 'args') else ()
    P()._disconnect_parent(o, *extra)
    t = ops.d.get(KIND); p = fresh_int('p').e
    c.prove('it is a root afterwards', o._f['_parent_'] is None and o._f['_parent_index_'] is None)
    c.prove('it keeps its annotations in a table of its own', isinstance(t, Tab) and not isinstance(t, Window))
    if isinstance(t, Tab): c.prove('exactly those it had', t.at(p) == z3.And(p >= 0, p < n.e, C0(p + off.e)))
    c.prove('they are gone from where it was', root.at(p) == z3.And(C0(p), z3.Not(z3.And(p >= off.e, p < off.e + n.e))))
    ev = relevant(c)
    c.prove('fixes and windows below are renewed afterwards', sorted(e[0] for e in ev) == ['fixes', 'windows'] and all(e[2] is None and e[3] is t for e in ev))


@contract('C11', ['Indexable._add_io', 'Indexable.add_index_operation', 'Indexable.remove_index_operation'])
def registering_kinds(c):
    name = ['constraints', 'marks'][c.choose(2, 'name')]
    o = SObj('node', P(), fields=dict(_index_operations=dict(other=Opaque('other'))), contracts=dict(_connect_fixes=lambda s: c.event('fixes', s), _notify_parent_change=lambda s: c.event('windows', s)))
    t, t2 = Opaque('table'), Opaque('table 2')
    P().add_index_operation(o, name, t)
    c.prove('registered under its name', o._f['_index_operations'].get(name) is t and set(o._f['_index_operations']) == {'other', name})
    c.prove('reached as an attribute', getattr(o, name) is t)
    try: P().add_index_operation(o, name, t2); c.fail('a name is not taken twice', 'no exception')
    except AttributeError: c.prove('a name is not taken twice', o._f['_index_operations'][name] is t)
    P().remove_index_operation(o, name)
    c.prove('removing it removes just that one', set(o._f['_index_operations']) == {'other'})
    try: P().remove_index_operation(o, name); c.fail('removing what is not there is an error', 'no exception')
    except AttributeError: c.prove('removing what is not there is an error', set(o._f['_index_operations']) == {'other'})


@contract('C11 C04 C07', ['Indexable._parent_changed', 'Indexable.add_index_operation', 'Indexable.remove_index_operation'], assumes=['_offset_for (contract below)', 'a child is told in the same way (induction over the finite tree)', '_add_io (contract above)'])
def new_windows(c):
    n, off = nat('n'), nat('offset')
    ptab = Opaque('table of the parent')
    ops = Kinds(KIND, Opaque('old'), irr_table)
    got = {}
    def offset_for(s, x): c.prove('asks for its own place', x is o); return off
    par = SObj('parent', None, fields=dict(_index_operations=Kinds(KIND, ptab, irr_table)), contracts=dict(_offset_for=offset_for))
    child = SObj('child', None, contracts=dict(_parent_changed=lambda s, p: c.event('tell', s, p)))
    irr = lambda: SObj('another child', None, contracts=dict(_parent_changed=lambda s, p: None), irr=True)
    from ..shim import WSeq
    o = SObj('node', P(), fields=dict(size=n, _index_operations=ops, _fixes_='old', parameters=WSeq([Irr(irr), child, Irr(irr)])), contracts=dict(_add_io=lambda s, k, t: ops.__setitem__(k, t)))
    P()._parent_changed(o, par)
    t = ops.d.get(KIND)
    from paramz.core.index_operations import ParameterIndexOperationsView as V
    c.prove('the table becomes a window on the one of the parent', isinstance(t, V) and t._param_index_ops is ptab)
    if isinstance(t, V): c.prove('at its own range', z3.And(num(t._offset) == off.e, num(t._size) == n.e))
    ev = relevant(c)
    c.prove('every child is told about the same parent, once', [e[:3] for e in ev] == [('tell', child, par)])
    c.prove('the mask of fixed entries is only kept at the root', o._f['_fixes_'] is None)


@contract('C11 C10', ['Parameterizable._notify_parent_change', 'Parentable.has_parent', 'Parentable._highest_parent_'], assumes=['the contract of the parent for _highest_parent_ (induction over the ancestors)'])
def small_ones(c):
    from ..shim import WSeq
    child = SObj('child', None, contracts=dict(_parent_changed=lambda s, p: c.event('tell', s, p)))
    irr = lambda: SObj('another child', None, contracts=dict(_parent_changed=lambda s, p: None), irr=True)
    root = SObj('root', None)
    has = bool(c.choose(2, 'parent'))
    par = SObj('parent', None, contracts=dict(_highest_parent_=Prop(lambda s: root)))
    o = SObj('node', P(), fields=dict(parameters=WSeq([Irr(irr), child, Irr(irr)]), _parent_=par if has else None))
    c.prove('a node has a parent or not', P().has_parent(o) is has)
    c.prove('the root is the root of the parent, or the node itself', o._highest_parent_ is (root if has else o))
    P()._notify_parent_change(o)
    c.prove('every child is told once', [e[:3] for e in relevant(c)] == [('tell', child, o)])


@contract('C07 C11', ['Indexable._offset_for'], assumes=PRE + ['_get_original gives the child itself (or the child an indexed part belongs to)', 'its own contract for the parent (induction over the ancestors)'])
def offsets(c):
    F = Family(c, 1); o = F.self; w = F.kids[0]
    kind = c.choose(3, 'where')
    if kind == 0:
        view = bool(c.choose(2, 'part'))
        x = SObj('part of the child', P(), fields=dict(_parent_=o, size=nat('n'))) if view else w
        x._c['has_parent'] = lambda s: True
        o._c['_get_original'] = lambda s, p: w
        r = P()._offset_for(o, x)
        c.prove('the place of a child is the sum of the sizes before it', num(r) == num(F.pl.offset(w)))
    elif kind == 1:
        a, b = nat('a'), nat('b')
        par = SObj('parent of the descendant', None)
        x = SObj('descendant', P(), fields=dict(_parent_=par, size=nat('n')))
        par._c['_get_original'] = lambda s, p: x
        par._c['_offset_for'] = lambda s, p: a if p is x else c.fail('asks for something else', repr(p))
        o._base['_offset_for'] = None
        real = P()._offset_for
        o._c['_offset_for'] = lambda s, p: b if p is par else c.fail('asks for something else', repr(p))
        r = real(o, x)
        c.prove('the place of a descendant is that of its parent plus its place there', num(r) == a.e + b.e)
    else:
        x = SObj('root', P(), fields=dict(_parent_=None, size=nat('n')))
        c.prove('the place of a root is 0', rt.same(0, P()._offset_for(o, x)))


# ------------------------------------------------------------------------------------------------------------ memory

MEMO = ['arrays of parameters are C-contiguous (the other case raises)', 'an array of a node that exists with the right size is laid out like its children\'s (its memory is dropped when the structure changes: link, unlink)',
        'ndarray.data makes an array a view of other memory (numpy)', 'a child\'s _propagate_param_grad (this contract, induction over the finite tree) fills its array with the values of its entries in order and puts its descendants on the memory handed in']


class Layout(object):
    def __init__(self, c, target):
        self.c = c
        self.before = nat('sizes before'); self.n = nat('size'); self.after = nat('sizes behind')
        self.k = nat('entry'); c.assume(self.k.e < self.n.e)
        nb, na = nat('before'), nat('behind')
        self.pos = nb
        self.V = {g: vals.fresh_real('value') for g in 'pg'}
        total = self.before + self.n + self.after
        self.total = total
        p = num(self.before) + num(self.k)
        # the memory handed in (or of the node itself) and the memory of the child
        mode = c.choose(3, 'layout')                     # node array: new / on other memory with the child on it / child on memory of its own
        self.mode = mode
        self.own = {}; self.child = {}; self.handed = {}
        for g in 'pg':
            if target == 'propagate':
                hm = Mem('memory handed in ' + g); ho = nat('offset handed in'); hm.follow(ho.e + p)
                self.handed[g] = Arr(hm, ho, total)
            if mode == 0:
                m = Mem('new memory ' + g); m.follow(p); self.own[g] = Arr(m, 0, total)
                cm = Mem('memory of the child ' + g); co = nat('offset'); cm.follow(co.e + num(self.k))
                self.child[g] = Arr(cm, co, self.n)
            else:
                if mode == 2 and target == 'propagate': m, off = self.handed[g].mem, num(self.handed[g].off)
                else:
                    m = Mem('memory of the node ' + g); off = nat('offset of the node').e; m.follow(off + p)
                self.own[g] = Arr(m, off, total)
                self.child[g] = Arr(m, off + num(self.before), self.n)
        def propagate(s, pa, ga):
            c.event('propagate', s, pa, ga)
            # afterwards the array of the child holds the values of its entries
            for g in 'pg':
                a = self.child[g]; q = z3.simplify(a.off + num(self.k))
                for i, (pp, v) in enumerate(a.mem.cells):
                    if c.entails(pp == q): a.mem.cells[i] = (pp, self.V[g])
        def other():
            n = nat('size'); arr = Arr(Mem('memory of another child'), 0, n, True)
            gr = Arr(Mem('memory of another child'), 0, n, True)
            return SObj('another child', None, fields=dict(size=n, param_array=arr, gradient_full=gr, _parent_=0, _parent_index_=0), contracts=dict(_propagate_param_grad=lambda s, a, b: None), irr=True)
        w = self.w = SObj('child', None, fields=dict(size=self.n, _parent_='old', _parent_index_='old'),
                          contracts=dict(_propagate_param_grad=propagate, param_array=Prop(lambda s: self.child['p']), gradient_full=Prop(lambda s: self.child['g'])))
        lst = PList([segment(other, nb, self.before), w, segment(other, na, self.after)])
        self.slices = []
        lay = self
        class Slices(list):
            def append(s, sl):
                if isinstance(sl, slice) and c.entails(z3.And(num(sl.start) == num(lay.before), num(sl.stop) == num(lay.before) + num(lay.n))): lay.slices.append(len(lay.slices))
        def set_slices(s, v): s._f['_param_slices_'] = Slices(); lay.slices[:] = []
        self.o = SObj('node', ZED(), fields=dict(parameters=lst, size=total, _param_array_=self.own['p'], _gradient_array_=self.own['g'], _param_slices_=[]),
                      setters=dict(_param_slices_=set_slices), contracts=dict(_add_parameter_name=lambda s, x: c.event('name', x, s)))


def layout_checks(c, L, top):
    o, w = L.o, L.w
    own = {'p': o._f['_param_array_'], 'g': o._f['_gradient_array_']}
    ev = relevant(c)
    pr = [e for e in ev if e[0] == 'propagate']
    c.prove('a child is connected once', len(pr) == 1 and pr[0][1] is w)
    c.prove('its name is announced', [e[1] for e in ev if e[0] == 'name'] == [w])
    for g, what, i in (('p', 'values', 2), ('g', 'gradients', 3)):
        a = own[g]; t = a if top else L.handed[g]
        ok = isinstance(a, Arr)
        c.prove('%s: the node has an array of its size' % what, num(a.n) == num(L.total) if ok else False)
        if not ok: return
        if top: c.prove('%s: an array of the right size stays where it is' % what, a is L.own[g])
        if pr:
            h = pr[0][i]
            c.prove('%s: the child hands its own part of the memory on' % what, z3.And(z3.BoolVal(h.mem is t.mem), h.off == z3.simplify(t.off + num(L.before)), num(h.n) == num(L.n)) if isinstance(h, Arr) else False)
        x = L.child[g]
        c.prove('%s: the child is a view of its own part of the memory' % what, z3.And(z3.BoolVal(x.mem is t.mem), x.off == t.off + num(L.before)))
        c.prove('%s: the array of the node holds the ones of the child in its place' % what, num(a.at(L.before + L.k)) == num(L.V[g]))
    c.prove('the node is initialized', o._f.get('_model_initialized_') is True)


@contract('C12', ['Parameterizable.param_array', 'Parameterizable.gradient', 'OptimizationHandlable.gradient_full'])
def arrays_of_a_node(c):
    n, old = nat('size'), nat('old size')
    def empty(size, *a, **k): c.event('new', None); return Arr(Mem('new memory'), 0, size)
    shim.FUNCS['empty'] = empty
    which = ['param_array', 'gradient', 'gradient_full'][c.choose(3, 'which')]; f = '_param_array_' if which == 'param_array' else '_gradient_array_'
    o = SObj('node', P(), fields=dict(size=n))
    a = Arr(Mem('memory'), 0, old)
    state = c.choose(3, 'state')
    if state: o._f[f] = None if state == 1 else a
    else: o._absent.add(f) if f == '_gradient_array_' else o._f.update({f: None})
    r = getattr(o, which); r2 = getattr(o, which)
    c.prove('an array of the size of the node', num(r.n) == n.e)
    c.prove('the same one from then on', r2 is r and o._f[f] is r)
    if state == 2: c.prove('the one there is, if the size is right', z3.BoolVal(r is a) == (old.e == n.e))
    c.prove('new memory otherwise', (r is a) or len([e for e in c.trace if e[0] == 'new']) == 1)


@contract('C12 C10', ['Parameterized._connect_parameters', 'Parameterizable.param_array', 'Parameterizable.gradient', 'OptimizationHandlable.gradient_full'], assumes=MEMO)
def connect(c):
    L = Layout(c, 'connect')
    if c.choose(2, 'call'): ZED()._connect_parameters(L.o)
    else: ZED()._connect_parameters(L.o, ignore_added_names=bool(c.choose(2, 'flag')))
    layout_checks(c, L, True)
    c.prove('its part of the flat array is noted', len(L.slices) == 1)
    c.prove('the child knows its parent and position', z3.And(z3.BoolVal(L.w._f['_parent_'] is L.o), num(L.w._f['_parent_index_']) == num(L.pos)) if num(L.w._f['_parent_index_']) is not None else False)


@contract('C12', ['OptimizationHandlable._propagate_param_grad', 'Parameterizable.param_array', 'Parameterizable.gradient', 'OptimizationHandlable.gradient_full'], assumes=MEMO)
def propagate(c):
    L = Layout(c, 'propagate')
    ZED()._propagate_param_grad(L.o, L.handed['p'], L.handed['g'])
    layout_checks(c, L, False)


@contract('C12', ['Parameterized._connect_parameters'])
def connect_empty(c):
    o = SObj('node', ZED(), fields=dict(parameters=[], size=0, _param_array_='old memory', _gradient_array_='old memory', _param_slices_=[slice(0, 3)]))
    ZED()._connect_parameters(o)
    c.prove('a node without parameters is initialized', o._f['_model_initialized_'] is True)
    c.prove('it keeps no memory of former parameters', all(isinstance(o._f[k], np.ndarray) and o._f[k].size == 0 or o._f[k] is None for k in ('_param_array_', '_gradient_array_')))


@contract('C12 C10', ['Parameterized._connect_parameters'])
def connect_refuses_strided(c):
    class F(object):
        def __getitem__(s, k): return False
    class A(object): flags = F()
    w = SObj('child', None, fields=dict(param_array=A(), size=nat('n')))
    o = SObj('node', ZED(), fields=dict(parameters=[w], size=w.size))
    try: ZED()._connect_parameters(o); c.fail('an array that cannot share memory is refused', 'no exception')
    except ValueError: c.prove('an array that cannot share memory is refused', True)


@contract('C10', ['ArrayList.__contains__', 'ArrayList.index'])
def list_of_children(c):
    from paramz.core.lists_and_dicts import ArrayList
    irr = lambda: SObj('another child', None, irr=True, contracts=dict(__eq__=lambda s, o: c.fail('children are told apart by identity, not by value', '')))
    w, x = SObj('child', None), SObj('stranger', None)
    from ..shim import WSeq
    seq = WSeq([Irr(irr), w, Irr(irr)])
    c.prove('a child is found', ArrayList.__contains__(seq, w) is True)
    c.prove('others are not found', ArrayList.__contains__(seq, x) is False)


@contract('C10 C12 C11', ['Parameterizable.initialize_parameter'])
def initialize(c):
    root = SObj('root', None, contracts={k: (lambda k: lambda s, *a: c.event(k, s))(k) for k in ('_notify_parent_change', '_connect_parameters', '_connect_fixes')})
    o = SObj('node', P(), fields=dict(_highest_parent_=root), contracts=dict(trigger_update=lambda s, *a, **k: c.event('trigger', s)))
    P().initialize_parameter(o)
    ev = [(e[0], e[1]) for e in relevant(c)]
    c.prove('the whole hierarchy is laid out, then updated', sorted(e[0] for e in ev[:-1]) == ['_connect_fixes', '_connect_parameters', '_notify_parent_change'] and all(e[1] is root for e in ev[:-1]) and ev[-1] == ('trigger', o)
            and [e[0] for e in ev].index('_notify_parent_change') < [e[0] for e in ev].index('_connect_fixes'))
