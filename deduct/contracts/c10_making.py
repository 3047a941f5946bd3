"""C10, C11, C12, C14, C19: objects start out complete and alone.  The chain of __init__ of a node, a model and a parameter runs for
real; state that has to be an object's own is compared between two objects made one after the other."""
import z3
from .. import rt, vals, shim, index
from ..base import contract, arg
from ..rt import Unsupported
from ..vals import SObj, Opaque, SNum, Prop, fresh_int, num
from ..vals import Bound

OWN = {'parameters': 'the list of children', 'observers': 'the list of observers', '_index_operations': 'the annotations', '_added_names_': 'the names in use', 'cache': 'the cache'}


def P():
    from paramz.parameterized import Parameterized
    index.install()
    return Parameterized


def plain(c, o, what):
    f = o.__dict__['_f']
    get = lambda k, d=None: f[k] if k in f else getattr(o.__dict__['_cls'], k, d)
    c.prove('%s has no parent' % what, get('_parent_') is None)
    c.prove('updates are on', get('_update_on') is True)
    ops = get('_index_operations')
    from paramz.core.index_operations import ParameterIndexOperations
    c.prove('constraints are kept on a table of its own, empty', list(ops) == ['constraints'] and type(ops['constraints']) is ParameterIndexOperations and not list(ops['constraints'].items()))
    c.prove('nothing is left of an earlier read of the optimizer vector', get('_optimizer_copy_') is None)


def own(c, a, b):
    for k, text in OWN.items():
        x, y = a.__dict__['_f'].get(k), b.__dict__['_f'].get(k)
        if x is None: raise Unsupported('no %s on the instance' % k)
        c.prove('%s is its own' % text, x is not y)
    x, y = (o.__dict__['_f']['_index_operations'].get('constraints') for o in (a, b))
    c.prove('the table of constraints is its own', x is not None and x is not y)


def hook(c, o):
    'the node watches itself so that its hook runs; whatever watches from above has -inf'
    ev = [e for e in c.trace if e[0] == 'observer' and e[1] is o]
    mine = []
    for e in ev:
        f = arg(e[2], e[3], 1, 'callble')
        if arg(e[2], e[3], 0, 'observer') is o and isinstance(f, Bound) and f.__self__ is o and f.__func__ is type_hook(o): mine.append(e)
    c.prove('the hook of a new object is registered once', len(mine) == 1)
    for e in mine:
        p = arg(e[2], e[3], 2, 'priority', 0)
        if not isinstance(p, (int, float)): raise Unsupported('priority %r' % (p,))
        c.prove('above the parent, which comes last', p > float('-inf'))
    return ev


def type_hook(o): return o.__dict__['_cls']._parameters_changed_notification


@contract('C10 C14 C19', ['Parameterized.__init__', 'Parameterizable.__init__', 'OptimizationHandlable.__init__', 'Constrainable.__init__', 'Indexable.__init__', 'Nameable.__init__', 'Gradcheckable.__init__', 'Parentable.__init__', 'Observable.__init__', 'Updateable.__init__', 'Model.__init__', 'Parameterized.link_parameters'],
          assumes=['contract of link_parameter'])
def making_a_node(c):
    from paramz.model import Model
    kind = c.choose(2, 'class'); K = Model if kind else P()
    name = SObj('name', None, track=False)
    def build(kids):
        linked = []
        o = SObj('node', K, track=False, contracts=dict(link_parameter=lambda s, p, *a, **k: linked.append((p, a, k)), add_observer=lambda s, *a, **k: c.event('observer', s, a, k)))
        if kind: K.__init__(o, name)
        elif kids is None: K.__init__(o, name)
        else: K.__init__(o, name, parameters=kids) if c.choose(2, 'by name') else K.__init__(o, name, kids)
        return o, linked
    kids = [None, [], [Opaque('child 1')], [Opaque('child 1'), Opaque('child 2'), Opaque('child 3')]][c.choose(4, 'children') if not kind else 0]
    o, linked = build(kids)
    plain(c, o, 'a new node')
    f = o.__dict__['_f']
    c.prove('it has the name given', f['_name'] is name)
    c.prove('its size is that of no children', num(f['size']).eq(z3.IntVal(0)) if not isinstance(f['size'], int) else f['size'] == 0)
    c.prove('it has no children of its own accord', len(f['parameters']) == 0)
    c.prove('the children given are linked once each, in order', [p for p, _, _ in linked] == list(kids or []) and not any(a or k for _, a, k in linked))
    hook(c, o)
    o2, _ = build(None)
    own(c, o, o2)
    if kind: c.prove('no runs are recorded, on a list of its own', f['optimization_runs'] == [] and f['optimization_runs'] is not o2.__dict__['_f']['optimization_runs'])


@contract('C10 C14 C19 C09', ['Param.__init__', 'Parameterizable.__init__', 'OptimizationHandlable.__init__', 'Constrainable.__init__', 'Indexable.__init__', 'Nameable.__init__', 'Observable.__init__'],
          assumes=['contract of constrain (C09); _setup_observers is called by the notification set-up (contract of observers of a parameter)'])
def making_a_parameter(c):
    P(); from paramz.param import Param
    name = SObj('name', None, track=False)
    T = Opaque('default constraint')
    dc = [None, T][c.choose(2, 'default constraint')]
    def build(d):
        o = SObj('parameter', Param, track=False, contracts=dict(add_observer=lambda s, *a, **k: c.event('observer', s, a, k),
                 constrain=lambda s, *a, **k: c.event('constrain', s, a, k, 'constraints' in s.__dict__['_f'].get('_index_operations', {}))))
        if d is None: Param.__init__(o, name, Opaque('array'))
        elif c.choose(2, 'by name'): Param.__init__(o, name, Opaque('array'), default_constraint=d)
        else: Param.__init__(o, name, Opaque('array'), d)
        return o
    o = build(dc)
    plain(c, o, 'a new parameter')
    f = o.__dict__['_f']
    c.prove('it has the name given', f['_name'] is name)
    ev = [e for e in c.trace if e[0] == 'constrain']
    if dc is None: c.prove('no constraint but the one asked for', not ev)
    else:
        c.prove('it gets its default constraint once', len(ev) == 1 and arg(ev[0][2], ev[0][3], 0, 'transform') is T)
        c.prove('when there is a table to note it on', bool(ev) and ev[0][4])
    own(c, o, build(None))


@contract('C14', ['Parameterizable._setup_observers', 'Param._setup_observers'], assumes=['contract of notify_observers: descending priority (C13)'])
def observers_of_an_object(c):
    from paramz.param import Param
    from paramz.core.parameter_core import Parameterizable
    P()
    kind = c.choose(2, 'class'); K = Param if kind else P()
    has = bool(c.choose(2, 'has a parent'))
    par = SObj('parent', P(), track=False, contracts=dict(_pass_through_notify_observers=lambda s, *a, **k: None)) if has else None
    o = SObj('object', K, track=False, fields=dict(_parent_=par), contracts=dict(add_observer=lambda s, *a, **k: c.event('observer', s, a, k)))
    K._setup_observers(o)
    ev = [e for e in c.trace if e[0] == 'observer']
    if kind == 0: ev = hook(c, o)
    up = [e for e in ev if arg(e[2], e[3], 0, 'observer') is par and par is not None]
    c.prove('the parent is told if there is one', len(up) == int(has))
    for e in up:
        f = arg(e[2], e[3], 1, 'callble'); p = arg(e[2], e[3], 2, 'priority', 0)
        c.prove('through its own pass-through', isinstance(f, Bound) and f.__self__ is par and f.__func__ is par.__dict__['_c']['_pass_through_notify_observers'])
        c.prove('after everything else', p == float('-inf'))
    c.prove('nobody else', len(ev) == len(up) + (0 if kind else 1))


@contract('C10 C12 C14', ['ParametersChangedMeta.__call__'])
def metaclass(c):
    from paramz.parameterized import ParametersChangedMeta as M
    P()
    import warnings
    flag = [None, True, False][c.choose(3, 'initialize')]
    cls = SObj('class', M, track=False, base={'__call__': lambda s, *a, **k: (c.event('made', s, a, k), made)[1]})
    made = SObj('instance', P(), track=False, fields=dict(_in_init_='untouched'), contracts=dict(initialize_parameter=lambda s: c.event('initialize', s, s.__dict__['_f']['_in_init_'])))
    made.__dict__['_f']['__doc__'] = None
    x, y = Opaque('argument'), Opaque('keyword')
    from paramz import util
    keep = util._inherit_doc; util._inherit_doc = lambda k: ''
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = M.__call__(cls, x, key=y, **({} if flag is None else dict(initialize=flag)))
    finally: util._inherit_doc = keep
    ev = [e for e in c.trace if e[0] in ('made', 'initialize')]
    c.prove('the object is made with the arguments given', bool(ev) and ev[0][0] == 'made' and ev[0][2] == (x,) and ev[0][3] == dict(key=y))
    c.prove('and handed out', r is made)
    c.prove('it is initialised once, after it is made, unless asked not to', [e[0] for e in ev[1:]] == (['initialize'] if flag is not False else []))
    for e in ev[1:]: c.prove('it is no longer in the making then', e[1] is made and e[2] is False)
    c.prove('nor afterwards', made.__dict__['_f']['_in_init_'] is False)
