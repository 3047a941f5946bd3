"""C26: traversal, by induction over the tree (a child's traversal is used through its contract)"""
from .. import rt, vals, shim
from ..base import contract
from ..rt import Irr
from ..shim import WSeq
from ..vals import SObj, Opaque

FLAG = '_Parameterizable__visited'


class Stop(Exception): pass


def maybe_raise(c, what):
    if c.choose(2, what):
        e = Stop(what); c.ghost['raised'] = e
        raise e


def child(c, name, irr=False, extra=None):
    def traverse(o, visit, *a, **k):
        c.event('subtree', o, visit, a, k); maybe_raise(c, 'traversal of %s' % name)
    con = dict(traverse=traverse); con.update(extra or {})
    return SObj(name, None, contracts=con, irr=irr)


def kids(c, n, irr_child=None):
    mk = irr_child or (lambda: child(c, 'some other child', True))
    seg = lambda: Irr(mk, label='the other children')
    ws = [child(c, 'child %d' % i) for i in range(n)]
    out = [seg()]
    for w in ws: out += [w, seg()]
    return ws, WSeq(out)


def visitor(c):
    def visit(n, *a, **k):
        c.event('visit', n, None, a, k); maybe_raise(c, 'visit')
    return visit


def relevant(c, upto=None): return [e for e in c.trace if not rt.irrelevant(e[1])]


def same_events(got, want):
    return len(got) == len(want) and all(g[0] == w[0] and g[1] is w[1] and (w[2] is None or g[2] is w[2]) and g[3] == w[3] and g[4] == w[4] for g, w in zip(got, want))


def run(c, n, leaf=False):
    from paramz.core.parameter_core import Parameterizable
    from paramz import Param
    ws, seq = ([], []) if leaf else kids(c, n)
    cls = Param if leaf else Parameterizable
    flag = bool(c.choose(2, 'flag'))
    o = SObj('node', cls, fields={FLAG: flag, 'parameters': seq})
    v = visitor(c); x = Opaque('argument'); kw = Opaque('keyword argument')
    try: cls.traverse(o, v, x, key=kw); exc = None
    except Stop as e: exc = e
    a, k = (x,), dict(key=kw)
    want = [('visit', o, None, a, k)] + [('subtree', w, v, a, k) for w in ws]
    got = relevant(c)
    if flag: c.prove('a node under visit is not entered again', exc is None and got == [])
    else:
        c.prove('an error of the visitor propagates', exc is c.ghost.get('raised'))
        if exc is None: c.prove('the node first, then the subtree of each child once and in order', same_events(got, want))
        else: c.prove('up to the error the node first, then the subtrees in order', same_events(got, want[:len(got)]))
    c.prove('the mark of the node is back to what it was', o._f[FLAG] is flag)


IND = ['the contract of a child (its traversal visits its subtree once, parents first) is the induction hypothesis over the finite tree']


@contract('C26', ['Parameterizable.traverse', 'Parameterizable._traverse'], assumes=IND)
def traverse_two_children(c): run(c, 2)


@contract('C26', ['Parameterizable.traverse', 'Parameterizable._traverse'], assumes=IND)
def traverse_any_children(c): run(c, 0)


@contract('C26', ['Parameterizable.traverse', 'Param'], assumes=IND)
def traverse_leaf(c): run(c, 0, leaf=True)


@contract('C26', ['Parameterizable.traverse_parents'], assumes=IND + ['the contract of the parent: its traverse_parents visits everything outside its own subtree once, its traverse its subtree without nodes that are marked'])
def traverse_parents(c):
    from paramz.core.parameter_core import Parameterizable
    has = bool(c.choose(2, 'parent'))
    o = SObj('node', Parameterizable, fields={FLAG: False, 'parameters': WSeq([])})
    v = visitor(c); x = Opaque('argument'); kw = Opaque('keyword argument')
    def f(kind):
        def g(p, visit, *a, **k):
            c.event(kind, p, visit, a, k)
            c.prove('while the parents are visited the starting node is marked', o._f[FLAG] is True)
            maybe_raise(c, kind)
        return g
    par = SObj('parent', None, contracts=dict(traverse=f('subtree'), traverse_parents=f('outside')))
    o._f['_parent_'] = par if has else None
    try: Parameterizable.traverse_parents(o, v, x, key=kw); exc = None
    except Stop as e: exc = e
    a, k = (x,), dict(key=kw); want = [('outside', par, v, a, k), ('subtree', par, v, a, k)] if has else []
    got = relevant(c)
    c.prove('an error of the visitor propagates', exc is c.ghost.get('raised'))
    if exc is None: c.prove('first everything outside the subtree of the parent, then that subtree without the starting node', same_events(got, want))
    else: c.prove('up to the error in order', same_events(got, want[:len(got)]))
    c.prove('the starting node is not marked afterwards', o._f[FLAG] is False)


@contract('C26', ['Parameterizable.__init__'])
def unmarked_initially(c):
    import paramz
    p = paramz.Parameterized('p'); c.prove('a new node is not marked', p.__dict__.get(FLAG) is False)
    q = paramz.Param('q', [1., 2.]); c.prove('a new parameter is not marked', q.__dict__.get(FLAG) is False)
