"""C18: names.

pr(n) is the printable name of n (adjust_name_for_printing).  A node keeps: the names of its children, the attribute dictionary,
and the set of attribute names it added itself.  What its three functions keep up, shown for an arbitrary pair of children and an
arbitrary attribute name:
  Q(q)   all children but q have pairwise different names;  P: all have (Q(q) and q different from all)
  D(n)   an attribute n is one of the node's own or one it added, not both; if it added it, the attribute is a child whose printable name is n
  A(x)   the attribute pr(x) is the child x and the node added it, unless that name is one of the node's own attributes or shared with a sibling
_add_parameter_name(p):   needs Q(q) for some q, D;  then Q(q), p's name differs from all others, D, A(p), and A(x) for whom it held before
_remove_parameter_name(old): needs Q(q), D except at pr(old);  then D, nothing the node added under pr(old) is left, and A for all
_connect_parameters: calls _add_parameter_name for every child (C10: connect, its name is announced), so afterwards P, D, A(x) for every child
_name_changed(p, old): the two in this order.
The recursion in _add_parameter_name is cut by the contract itself; that renaming ends rests on renaming_ends: the number of a clashing name
grows with every renaming."""
import string
import z3
from .. import rt, vals, shim, text
from ..base import contract, arg, only
from ..rt import Irr
from ..shim import WSeq
from ..text import SStr
from ..vals import SObj, Opaque, Bound, Prop, SBool, fresh_bool, num

CA = ['clash renaming ends (the recursion is cut by its own contract; renaming_ends)', 'names of children are texts whose printable form is a valid identifier (else refused before anything changes)']


def relevant(c, *kinds): return [e for e in c.trace if not rt.irrelevant(e[1]) and (not kinds or e[0] in kinds)]


IDENT = None
def ident(e):
    'a valid (ASCII) identifier'
    a = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_'))
    return z3.InRe(e, z3.Concat(a, z3.Star(z3.Union(a, z3.Range('0', '9')))))


@contract('C18', ['adjust_name_for_printing'], assumes=['the pattern in the code means what the re module parses it to (text.py)'])
def printable_names(c):
    from paramz.core.nameable import adjust_name_for_printing
    n = text.fresh('name'); good = bool(c.choose(2, 'identifier'))
    if good: c.assume(ident(n.e)); n.alpha = set(string.ascii_letters + string.digits + '_')
    try: r = adjust_name_for_printing(n); exc = None
    except NameError as e: r = None; exc = e
    if good: c.prove('a name that is an identifier already stays as it is', exc is None and text.ex(r) is not None and r.e == n.e if isinstance(r, SStr) else False)
    elif exc is None: c.prove('what comes back is a valid identifier', ident(text.ex(r)) if text.ex(r) is not None else False)


@contract('C18', ['adjust_name_for_printing'])
def no_name(c):
    from paramz.core.nameable import adjust_name_for_printing
    c.prove('nothing for no name', adjust_name_for_printing(None) == '')


@contract('C18', ['Nameable.name', 'Nameable.__init__'])
def renaming(c):
    from paramz.core.nameable import Nameable
    mode = c.choose(3, 'mode')
    linked = mode == 1
    old = text.fresh('old'); new = text.fresh('new')
    par = SObj('parent', None, contracts=dict(_name_changed=lambda s, *a, **k: c.event('told', s, a, k, o._f['_name'])))
    o = SObj('node', Nameable, fields=dict(_name=old, _parent_=par if linked else None), contracts=dict(has_parent=lambda s: linked))
    c.prove('the name is the one given', o.name is old)
    if mode == 2:
        bad = [None, 3, Opaque, b'x'][c.choose(4, 'bad')]
        try: o.name = bad; c.fail('a name that is no text is refused', 'no exception')
        except (AssertionError, TypeError, ValueError): c.prove('a name that is no text is refused', o._f['_name'] is old and c.trace == [])
        return
    o.name = new
    c.prove('the new name is there', o._f['_name'] is new and o.name is new)
    c.prove('a parent is told once, after the change, who and what the name was', len(c.trace) == (1 if linked else 0) and all(e[1] is par and arg(e[2], e[3], 0, 'param') is o and arg(e[2], e[3], 1, 'old_name') is old and e[4] is new for e in c.trace))


@contract('C18 C07 C25', ['Nameable.hierarchy_name'], assumes=['the name of the parent is built by the same function (induction over the ancestors)'])
def dotted_name(c):
    import paramz.core.nameable as M
    pr = z3.Function('printable', text.S, text.S)
    keep = M.adjust_name_for_printing
    try:
        M.adjust_name_for_printing = lambda n: SStr(pr(n.e))
        linked = bool(c.choose(2, 'linked')); n, pn = text.fresh('name'), text.fresh('dotted name of the parent')
        par = SObj('parent', None, contracts=dict(hierarchy_name=lambda s, *a, **k: c.event('parent', s, a, k) or pn))
        o = SObj('node', M.Nameable, fields=dict(_name=n, _parent_=par if linked else None), contracts=dict(has_parent=lambda s: linked))
        how = c.choose(3, 'printable')
        if how == 0: r = M.Nameable.hierarchy_name(o)
        elif how == 1: r = M.Nameable.hierarchy_name(o, True)
        else: r = M.Nameable.hierarchy_name(o, adjust_for_printing=False)
        own = n.e if how == 2 else pr(n.e)
        c.prove('the name of the parent, a dot and the own name; at the root the own name', (r.e == (z3.Concat(pn.e, z3.StringVal('.'), own) if linked else own)) if isinstance(r, SStr) else False)
        c.prove('the parent is asked for its printable names', how == 2 or all(arg(e[2], e[3], 0, 'adjust_for_printing', True) is True for e in c.trace))
    finally: M.adjust_name_for_printing = keep


# ---------------------------------------------------------------------------------------------------------------
# a node and its children

class World(object):
    """children p, a, b and any number of others z; N: the name a child has (by its number), as state; owner: attribute name -> number of the
    object there (0: none); added: attribute names the node added; own: its other attributes; taken: names of the class"""
    def __init__(self, c, witnesses=2):
        self.c = c; self.k = 0
        self.pr = z3.Function('printable', text.S, text.S)
        self.Ch = z3.Function('is_child', z3.IntSort(), z3.BoolSort())
        self.own = z3.Const(c.name('own attributes'), z3.ArraySort(text.S, z3.BoolSort()))
        self.taken = z3.Const(c.name('taken'), z3.ArraySort(text.S, z3.BoolSort()))
        self.fresh_state('before')
        self.objs = []
        self.q = z3.Int(c.name('q'))
        self.p = self.child('the child')
        self.ws = [self.child('child %d' % i) for i in range(witnesses)]
        self.nstar = z3.String(c.name('attribute'))

    def fresh_state(self, what):
        c = self.c
        self.N = z3.Const(c.name('names ' + what), z3.ArraySort(z3.IntSort(), text.S))
        self.owner = z3.Const(c.name('attributes ' + what), z3.ArraySort(text.S, z3.IntSort()))
        self.added = z3.Const(c.name('added ' + what), z3.ArraySort(text.S, z3.BoolSort()))

    def child(self, name, irr=False):
        c = self.c; w = self
        i = z3.Int(c.name('number')); c.assume(i > 0)
        for o in self.objs: c.assume(i != o._shadow()['_id'])
        c.assume(self.Ch(i))
        def get(s, k=None): return SStr(w.N[i])
        from paramz.core.nameable import Nameable
        o = SObj(name, Nameable, fields=dict(_parent_=None), contracts=dict(has_parent=lambda s: True, _name=Prop(get)),
                 setters=dict(_name=lambda s, v: w.rename(i, v)), irr=irr, track=False)
        o._shadow()['_id'] = i; o._shadow()['_f']['_parent_'] = getattr(self, 'node', None)
        self.objs.append(o)
        return o
    def id(self, o): return o._shadow()['_id']
    def rename(self, i, v):
        e = text.ex(v)
        if e is None: raise rt.Unsupported('name that is no text')
        self.N = z3.Store(self.N, i, e)
    # the statements of the docstring
    def name(self, o): return self.N[self.id(o)]
    def Q_at(self, q, x, y): return z3.Implies(z3.And(self.id(x) != q, self.id(y) != q), self.name(x) != self.name(y))
    def P_at(self, x, y): return self.name(x) != self.name(y)
    def E(self, n): return z3.And((self.owner[n] != 0) == z3.Or(self.own[n], self.added[n]), z3.Not(z3.And(self.own[n], self.added[n])))
    def D(self, n): return z3.And(self.E(n), z3.Implies(self.added[n], z3.And(self.Ch(self.owner[n]), self.owner[n] > 0, self.pr(self.N[self.owner[n]]) == n)))
    def A(self, x):
        n = self.pr(self.name(x)); i = self.owner[n]
        return z3.Or(self.taken[n], self.own[n], z3.And(self.added[n], i == self.id(x)), z3.And(self.Ch(i), i > 0, i != self.id(x), self.pr(self.N[i]) == n))
    def pairs(self, os):
        return [(x, y) for k, x in enumerate(os) for y in os[k + 1:]]

    # the pieces the functions see
    def make_node(self, **contracts):
        w = self; c = self.c
        class Dict(object):
            def __contains__(s, n): return c.decide(w.owner[text.ex(n)] != 0)
            def __getitem__(s, n):
                if not c.decide(w.owner[text.ex(n)] != 0): raise KeyError('attribute')
                return Opaque('attribute')
            def get(s, n, d=None): return s[n] if n in s else d
            def __setitem__(s, n, v):
                if not isinstance(v, SObj) or '_id' not in v._shadow(): raise rt.Unsupported('attribute value')
                w.owner = z3.Store(w.owner, text.ex(n), w.id(v))
            def __delitem__(s, n):
                if not c.decide(w.owner[text.ex(n)] != 0): raise KeyError('attribute')
                w.owner = z3.Store(w.owner, text.ex(n), z3.IntVal(0))
            def pop(s, n, *d):
                if n in s: v = s[n]; del s[n]; return v
                if d: return d[0]
                raise KeyError('attribute')
            def __getattr__(s, k): raise rt.Unsupported('__dict__.%s' % k)
        class Added(object):
            def __contains__(s, n): return c.decide(w.added[text.ex(n)])
            def add(s, n): w.added = z3.Store(w.added, text.ex(n), True)
            def discard(s, n): w.added = z3.Store(w.added, text.ex(n), False)
            def remove(s, n):
                if not c.decide(w.added[text.ex(n)]): raise KeyError('added name')
                s.discard(n)
            def __getattr__(s, k): raise rt.Unsupported('_added_names_.%s' % k)
        class Dir(object):
            def __contains__(s, n): return c.decide(z3.Or(w.taken[text.ex(n)], w.owner[text.ex(n)] != 0))
            def __getattr__(s, k): raise rt.Unsupported('dir().%s' % k)
        from paramz.core.parameter_core import Parameterizable
        con = {'__dict__': Dict(), '__dir__': lambda s: Dir()}; con.update(contracts)
        self.node = SObj('node', Parameterizable, fields=dict(_added_names_=Added(), parameters=self.children()), contracts=con)
        for o in self.objs: o._shadow()['_f']['_parent_'] = self.node
        return self.node

    def children(self):
        def other():
            o = self.child('some other child', True)
            for x in self.objs:
                if x is not o: self.c.assume(self.Q_at(self.q, o, x))
            return o
        seg = lambda: Irr(other, label='the other children')
        out = [seg()]
        order = [[self.p] + self.ws, self.ws[:1] + [self.p] + self.ws[1:], self.ws + [self.p]][self.c.choose(3, 'place')] if self.ws else [self.p]
        for o in order: out += [o, seg()]
        return WSeq(out)

    def havoc(self, what): self.fresh_state(what)
    def patched(self):
        import paramz.core.parameter_core as M
        w = self; keep = M.adjust_name_for_printing
        class Patch(object):
            def __enter__(s):
                def adj(n):
                    if n is None: return ''
                    r = w.pr(text.ex(n)); w.c.assume(r != z3.StringVal('')); return SStr(r)
                M.adjust_name_for_printing = adj
            def __exit__(s, *e): M.adjust_name_for_printing = keep
        return Patch()


def PZ():
    from paramz.core.parameter_core import Parameterizable
    return Parameterizable


def all_fine(w):
    'P, D and A for all there is'
    c = w.c
    for a, b in w.pairs(w.objs): c.assume(w.P_at(a, b))
    c.assume(w.D(w.nstar))
    for o in w.objs: c.assume(w.A(o)); c.assume(w.D(w.pr(w.name(o))))


@contract('C18', ['Parameterizable._add_parameter_name', 'Nameable.name'], assumes=CA)
def adding_a_name(c):
    c.ghost['any match'] = True
    w = World(c); p = w.p; a, b = w.ws
    done = []
    def kid(o): return isinstance(o, SObj) and '_id' in o._shadow()
    def name_changed(s, o, old, *x):
        c.event('renamed', p, o)
        if not kid(o): raise rt.Unsupported('renamed what')
        for x, y in ((a, b), (p, a), (p, b)):
            c.prove('when a child gets a new name, all others have different names', w.Q_at(w.id(o), x, y))
        w.havoc('after renaming'); all_fine(w); w.q = w.id(o); done.append(o)
    def again(s, o, *x):
        if not kid(o): raise rt.Unsupported('name of what')
        for x, y in ((a, b), (p, a), (p, b)):
            c.prove('names are announced when at most one child clashes with others', w.Q_at(w.q, x, y))
        was = [(x, w.A(x)) for x in (p, a, b)]; dn = w.D(w.nstar); pq = [(x, y, w.Q_at(w.q, x, y), w.P_at(x, y)) for x, y in w.pairs(w.objs)]
        w.havoc('after announcing')
        for x, y, q, pp in pq: c.assume(w.Q_at(w.q, x, y))
        for x in w.objs:
            if x is not o: c.assume(w.P_at(x, o))
        for x, A in was: c.assume(z3.Implies(A, w.A(x)))
        c.assume(w.A(o)); c.assume(w.D(w.nstar))
    node = w.make_node(_name_changed=name_changed, _add_parameter_name=again)
    for x, y in w.pairs([p, a, b]): c.assume(w.Q_at(w.q, x, y))
    c.assume(w.D(w.nstar)); c.assume(w.D(w.pr(w.name(p))))
    A0 = w.A(a); sharer = z3.Int(c.name('sharer')); shared0 = z3.And(w.Ch(sharer), sharer > 0, sharer != w.id(a), w.pr(w.N[sharer]) == w.pr(w.name(a)))
    with w.patched(): PZ()._add_parameter_name(node, p)
    c.prove('all names but one are different as before', w.Q_at(w.q, a, b))
    c.prove('the name of the child is different from that of any sibling', w.P_at(p, a))
    c.prove('the child can be reached by its printable name unless that is taken or shared', w.A(p))
    c.prove('a sibling that could be reached still can', z3.Implies(A0, w.A(a)))
    if not done: c.prove('a sibling whose printable name was shared still shares it', z3.Implies(shared0, z3.And(w.Ch(sharer), w.pr(w.N[sharer]) == w.pr(w.name(a)))))
    c.prove('attributes the node added are children under their present names', w.D(w.nstar))


@contract('C18', ['Parameterizable._add_parameter_name', 'Nameable.name'],
          assumes=['int() of the digits and str() of a number belong together', 'a name is changed for a clash by this function only',
                   'from the obligation to termination (argument, not machine checked): a child only moves away from a name another child has and that keeps it, so names in use stay in use; a move goes to the same stem with a greater number, '
                   'so to a name not in use so far (at most as often as there are children) or to one of the finitely many in use'])
def renaming_ends(c):
    c.ghost['any match'] = True; c.ghost['matches'] = []
    w = World(c); p = w.p; a, b = w.ws
    moves = []; rename = w.rename
    def log(i, v): moves.append((i, w.N[i], v)); rename(i, v)
    w.rename = log
    node = w.make_node(_name_changed=lambda s, *x, **k: None, _add_parameter_name=lambda s, *x, **k: None)
    for x, y in w.pairs([p, a, b]): c.assume(w.Q_at(w.q, x, y))
    c.assume(w.D(w.nstar)); c.assume(w.D(w.pr(w.name(p))))
    with w.patched(): PZ()._add_parameter_name(node, p)
    for i, old, v in moves:
        tried = [m for m in c.ghost['matches'] if z3.simplify(m[2]).eq(z3.simplify(old)) or c.entails(m[2] == old)]
        if len(tried) != 1 or not text.stem_and_number(*tried[0][:2]): raise rt.Unsupported('how the number of a name is found')
        m = tried[0][3]; ps = text.pieces(text.ex(v))
        def same(x, y): return x.eq(y) or c.entails(x == y)
        if m is None:
            if len(ps) == 2 and same(ps[0], old) and z3.is_string_value(ps[1]) and ps[1].as_string()[:1] == '_' and ps[1].as_string()[1:].isdigit(): c.prove('a name without a number gets one', True)
            else: raise rt.Unsupported('new name of a name without a number')
            continue
        if len(ps) == 2 and z3.is_string_value(ps[1]) and ps[1].as_string()[:1] == '_': n = ps[1].as_string()[1:]; n = z3.IntVal(int(n)) if n.isdigit() else None
        elif len(ps) == 3 and z3.is_string_value(ps[1]) and ps[1].as_string() == '_' and z3.is_app(ps[2]) and ps[2].decl().eq(text.STR): n = ps[2].arg(0)
        elif len(ps) == 3 and z3.is_string_value(ps[1]) and ps[1].as_string() == '_' and ps[2].eq(m.group(2).e): n = text.INT(ps[2])
        else: n = None
        if n is None or not same(ps[0], m.group(1).e): raise rt.Unsupported('new name of a name with a number')
        c.prove('the number of a clashing name grows', n > text.INT(m.group(2).e))


@contract('C18', ['Parameterizable._remove_parameter_name'], assumes=CA)
def removing_a_name(c):
    w = World(c); p = w.p; a, b = w.ws
    gone = [None]
    def connect(s, *x, **k):
        c.event('connect', s)
        if gone[0] is not None:
            c.prove('the name is taken away before the others are announced', z3.Not(w.added[gone[0]]))
            c.prove('and the attribute with it', z3.Implies(was, w.owner[gone[0]] == 0))
        c.prove('attributes the node added are children under their present names', w.D(w.nstar))
        for x, y in w.pairs([p, a, b]): c.prove('at most one child clashes with others', w.Q_at(w.q, x, y))
        w.havoc('after connecting'); all_fine(w)
    node = w.make_node(_connect_parameters=connect)
    for x, y in w.pairs([p, a, b]): c.assume(w.Q_at(w.q, x, y))
    mode = c.choose(4, 'call'); old = text.fresh('old name')
    key = w.pr(old.e) if mode < 2 else w.pr(w.name(p))
    gone[0] = key; was = w.added[key]
    c.assume(z3.Implies(w.nstar != key, w.D(w.nstar)))
    c.assume(w.E(key))
    with w.patched():
        if mode == 0: PZ()._remove_parameter_name(node, None, old)
        elif mode == 1: PZ()._remove_parameter_name(node, pname=old)
        elif mode == 2: PZ()._remove_parameter_name(node, p)
        else: PZ()._remove_parameter_name(node, param=p)
    c.prove('the children left are connected again once', len(relevant(c, 'connect')) == 1)
    c.prove('all children can be reached by their printable names unless taken or shared', z3.And(w.A(a), w.A(b)))


@contract('C18', ['Parameterizable._remove_parameter_name'])
def removing_what(c):
    w = World(c, 0)
    node = w.make_node(_connect_parameters=lambda s: c.event('connect', s))
    with w.patched():
        try: PZ()._remove_parameter_name(node, w.p, text.fresh('name')); c.fail('a parameter and a name at once are refused', 'no exception')
        except AssertionError: c.prove('a parameter and a name at once are refused', c.trace == [])


@contract('C18', ['Parameterizable._name_changed'])
def a_new_name(c):
    p, old = Opaque('child'), Opaque('old name')
    o = SObj('node', PZ(), contracts=dict(_remove_parameter_name=lambda s, *a, **k: c.event('remove', s, a, k), _add_parameter_name=lambda s, *a, **k: c.event('add', s, a, k)))
    PZ()._name_changed(o, p, old)
    ev = c.trace
    c.prove('the old name is taken away, then the child is announced under its new one', [e[0] for e in ev] == ['remove', 'add'] and arg(ev[0][2], ev[0][3], 0, 'param') is None and arg(ev[0][2], ev[0][3], 1, 'pname') is old and arg(ev[1][2], ev[1][3], 0, 'param') is p)


@contract('C18 C14 C25', ['Parameterized.__setattr__'], assumes=['item assignment on a child stores the values (C12, C14, C15)', 'object.__setattr__ stores an attribute'])
def assigning_to_a_name(c):
    from paramz import Parameterized
    kind = c.choose(3, 'kind'); val = Opaque('value'); name = 'attribute_name'
    k = vals.fresh_int('position')
    child = SObj('child', None, contracts=dict(__setitem__=lambda s, i, v: c.event('write', s, i, v)))
    class Names(vals.Sym):
        def __contains__(s, n):
            if n is not name: raise rt.Unsupported('another name')
            return kind == 2
        def index(s, n):
            if n is not name or kind != 2: raise ValueError
            return k
    class Kids(vals.Sym):
        def __getitem__(s, i):
            if not c.entails(num(i) == k.e): raise rt.Unsupported('another child')
            return child
    names = Names()
    def pn(s, *a, **kw):
        c.event('names', s, arg(a, kw, 0, 'add_self', False), arg(a, kw, 1, 'adjust_for_printing', False), arg(a, kw, 2, 'recursive', True), arg(a, kw, 3, 'intermediate', False)); return names
    o = SObj('node', Parameterized, fields=dict(parameters=Kids()) if kind else {}, contracts=dict(parameter_names=pn), absent=() if kind else ('parameters',))
    Parameterized.__setattr__(o, name, val)
    stored = o._shadow().get(name, o._f.get(name))
    asks = relevant(c, 'names'); wr = relevant(c, 'write')
    c.prove('the printable names of the children themselves are looked at', all(e[2:] == (False, True, False, False) for e in asks) and (len(asks) > 0) == (kind > 0))
    if kind == 2:
        c.prove('the values of the child are written once, all of them', len(wr) == 1 and wr[0][1] is child and wr[0][2] == slice(None) and wr[0][3] is val)
        c.prove('the child is not replaced', stored is None)
    else: c.prove('any other attribute is stored', stored is val and wr == [])


@contract('C18 C07', ['Parameterizable.parameter_names', 'OptimizationHandlable.parameter_names'], assumes=['the names of a child are given by the same function (induction over the tree)'])
def names_below(c):
    import paramz.core.parameter_core as M
    pr = z3.Function('printable', text.S, text.S)
    keep = M.adjust_name_for_printing
    adj, rec, inter, add = (bool(c.choose(2, w)) for w in ('adjust', 'recursive', 'intermediate', 'add_self'))
    def sub(s, *a, **k):
        c.event('child', s, arg(a, k, 0, 'add_self', False), arg(a, k, 1, 'adjust_for_printing', False), arg(a, k, 2, 'recursive', True), arg(a, k, 3, 'intermediate', False))
        return [s._f['below']]
    def child(n, irr=False): return SObj(n, None, fields=dict(name=text.fresh('name'), below=text.fresh('names of the child')), contracts=dict(parameter_names=sub), irr=irr)
    a, b = child('child 1'), child('child 2')
    seg = lambda: Irr(lambda: child('some other child', True), label='the other children')
    own = text.fresh('own name')
    o = SObj('node', M.Parameterizable, fields=dict(parameters=WSeq([seg(), a, seg(), b, seg()]), name=own))
    try:
        M.adjust_name_for_printing = lambda n: SStr(pr(n.e))
        kw = {}
        if c.choose(2, 'positional'): r = M.Parameterizable.parameter_names(o, add, adj, rec, inter)
        else:
            if add: kw['add_self'] = True
            if adj: kw['adjust_for_printing'] = True
            if not rec: kw['recursive'] = False
            if inter: kw['intermediate'] = True
            r = M.Parameterizable.parameter_names(o, **kw)
    finally: M.adjust_name_for_printing = keep
    f = (lambda e: pr(e)) if adj else (lambda e: e)
    want = []
    if inter or not rec: want += [f(x._f['name'].e) for x in (a, b)]
    if inter or rec: want += [x._f['below'].e for x in (a, b)]
    if add: want = [z3.Concat(f(own.e), z3.StringVal('.'), w) for w in want]
    got = [x for x in r if not isinstance(x, Irr)] if isinstance(r, list) else None
    if got is None: raise rt.Unsupported('names that are no list')
    c.prove('the names of the children and below, in order, as asked for', z3.And([text.ex(x) == w for x, w in zip(got, want)] + [z3.BoolVal(len(got) == len(want))]))
    ev = relevant(c, 'child')
    c.prove('a child gives its names with its own in front', all(e[2] is True and e[3] is adj and e[4] is True and e[5] is False for e in ev))


@contract('C07', ['Parameterizable.parameter_names_flat', 'OptimizationHandlable.parameter_names_flat'],
          assumes=['_ensure_fixes and _has_fixes as in C05/C08: afterwards the mask is true exactly on the entries that are not fixed', 'contract of Param._indices: one index per entry in flat order (flat_positions_of_a_part)', 'np.array of a list of texts keeps order and length, a mask takes the true positions in order'])
def flat_names(c):
    fixed = fresh_bool('some entry fixed'); mask = Opaque('mask')
    class Arr(vals.Sym):
        def __init__(s, l): s.l = l; s.mask = None
        def __getitem__(s, m):
            if m is not mask or s.mask is not None: raise rt.Unsupported('names[...]')
            r = Arr(s.l); r.mask = m; return r
        def copy(s): return s
    shim.FUNCS['array'] = shim.FUNCS['asarray'] = lambda l, **k: Arr(list(l)) if set(k) <= {'dtype'} else NotImplemented
    def leaf(name, irr=False):
        n = vals.fresh_int('size'); c.assume(n.e >= 1)
        idx = (3,) if c.choose(2, 'dimensions') else (1, 2)
        r = text.fresh('dotted name')
        def indices(s): return WSeq([Irr(lambda: (7,) * len(idx), label='earlier entries'), idx, Irr(lambda: (7,) * len(idx), label='later entries')])
        return SObj(name, None, fields=dict(size=n, dotted=r, idx=idx), contracts=dict(hierarchy_name=lambda s, *a, **k: r, _indices=indices), irr=irr)
    w = leaf('parameter')
    inc = [False, True, None][c.choose(3, 'include fixed')]
    seg = lambda: Irr(lambda: leaf('some other parameter', True), label='other parameters', collect=(lambda: text.fresh('name'), lambda x: isinstance(x, SStr)))
    o = SObj('node', PZ(), fields=dict(flattened_parameters=WSeq([seg(), w, seg()])), contracts=dict(_has_fixes=lambda s: fixed, _ensure_fixes=lambda s: s._f.__setitem__('_fixes_', mask)))
    r = PZ().parameter_names_flat(o) if inc is None else PZ().parameter_names_flat(o, inc)
    if not isinstance(r, Arr): raise rt.Unsupported('names that are no array')
    c.prove('the names of fixed entries are left out exactly if there are any and they are not asked for', z3.BoolVal(r.mask is mask) == (z3.BoolVal(False) if inc else fixed.e))
    own = [x for x in r.l if not isinstance(x, Irr)]
    many = c.entails(w._f['size'].e > 1)
    one = c.entails(w._f['size'].e == 1)
    if many: c.prove('a parameter of several entries has one name for each, in order', names_entry(own[0], w) if len(own) == 1 else False)
    elif one: c.prove('a parameter of one entry has its dotted name', len(own) == 1 and own[0] is w._f['dotted'])
    else: c.fail('a parameter of one entry is told from one of several', 'not decided')


def names_entry(t, w):
    if not isinstance(t, SStr): return False
    d, i = w._f['dotted'], w._f['idx']
    if t.of is not None: return len(t.of[1]) == 2 and t.of[1][0] is d and t.of[1][1] == i
    return t.e == z3.Concat(d.e, z3.StringVal('[%s]' % (i,)))


@contract('C07 C25', ['Parameterized.flattened_parameters'], assumes=['flattened_parameters of a child: the same, by induction; of a parameter: itself'])
def leaves_in_order(c):
    from paramz import Parameterized, Param
    def child(n, irr=False):
        lv = SObj('leaves of ' + n, None, irr=irr)
        return SObj(n, None, fields=dict(lv=lv), contracts=dict(flattened_parameters=Prop(lambda s: c.event('leaves', s) or [s._f['lv']])), irr=irr)
    a, b = child('child 1'), child('child 2')
    seg = lambda: Irr(lambda: child('other', True), label='the other children')
    if c.choose(2, 'leaf'):
        o = SObj('parameter', Param)
        r = Param.flattened_parameters.fget(o)
        c.prove('a parameter is its only leaf', len(r) == 1 and r[0] is o); return
    o = SObj('node', Parameterized, fields=dict(parameters=WSeq([seg(), a, seg(), b, seg()])))
    r = Parameterized.flattened_parameters.fget(o)
    if not isinstance(r, list): raise rt.Unsupported('leaves that are no list')
    own = [x for x in r if not isinstance(x, Irr)]
    c.prove('the leaves of the children in order', len(own) == 2 and own[0] is a._f['lv'] and own[1] is b._f['lv'])
