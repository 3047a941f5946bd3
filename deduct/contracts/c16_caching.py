"""C16, C17: the cache.

Ghost state of a Cacher: the stored calls.  Invariant I, kept by the functions below (each contract assumes I for one arbitrary
kept call and one arbitrary input of it, and shows it again for them):
  - inputs_changed, cached_outputs and cached_inputs have exactly the kept cache ids as keys, order lists each once, oldest first,
    at most limit of them;
  - for an observable input a: cached_input_ids[id(a)] = [weak reference to a, the kept cache ids with a among their inputs, as often
    as it occurs there]; there is no entry for anything else, and the cache is registered as an observer of a iff there is one
    (once for all views that share their observers).
  - inputs_changed[k] is False only if no input of k announced a change since cached_outputs[k] was computed.
C16 then follows from __call__: the id determines the call (combine_inputs, prepare_cache_id), a stored result is returned only
if its call is kept and unchanged."""
import numpy as np
import z3
from .. import rt, vals, shim
from ..base import contract, arg, only
from ..rt import Irr, At, Unsupported
from ..shim import WSeq, STuple, SText, SRef
from ..vals import Sym, SObj, Opaque, Bound, SBool, SNum, fresh_bool, fresh_int, num

def C():
    from paramz.caching import Cacher
    return Cacher


class SMap(Sym):
    'a dictionary: what it has under the keys talked about; under other keys anything'
    def __init__(self, name, d=(), absent=(), others=None, items=None):
        self.name = name; self.d = {id(k): (k, v) for k, v in d}; self.absent = {id(k): k for k in absent}; self.others = others; self.items_ = items; self.seen = {}
        rt.ctx().tracked.append(self)
    _irr_ = False
    def _snap_(self): return [[(id(k), rt.snap(v)) for k, v in self.d.values()], sorted(self.absent)]
    def _known(self, k):
        if id(k) in self.d: return True
        if isinstance(k, NoKey): return False
        if id(k) in self.absent or rt.irrelevant(k) and self.others is None: return False
        if rt.irrelevant(k): return None
        raise Unsupported('key %r of %s' % (k, self.name))
    def __contains__(self, k):
        r = self._known(k)
        return self._other(k) is not None if r is None else r
    def _other(self, k):
        if id(k) not in self.seen: self.seen[id(k)] = (k, self.others(k) if rt.ctx().choose(2, 'in %s' % self.name) else None)
        return self.seen[id(k)][1]
    def __getitem__(self, k):
        r = self._known(k)
        if r is None:
            v = self._other(k)
            if v is None: raise KeyError(k)
            return v
        if not r: raise KeyError(k)
        return self.d[id(k)][1]
    def get(self, k, default=None):
        try: return self[k]
        except KeyError: return default
    def __setitem__(self, k, v):
        if rt.irrelevant(k): self.seen[id(k)] = (k, v); return
        self._known(k); self.absent.pop(id(k), None); self.d[id(k)] = (k, v)
    def __delitem__(self, k):
        r = self._known(k)
        if r is None:
            if self._other(k) is None: raise KeyError(k)
            self.seen[id(k)] = (k, None); return
        if not r: raise KeyError(k)
        del self.d[id(k)]; self.absent[id(k)] = k
    def pop(self, k, *a):
        if k not in self:
            if a: return a[0]
            raise KeyError(k)
        v = self[k]; del self[k]; return v
    def values(self):
        if self.items_ is None: raise Unsupported('values of %s' % self.name)
        return WSeq([x if isinstance(x, Irr) else self.d[id(x)][1] for x in self.items_ if isinstance(x, Irr) or id(x) in self.d])
    def _len_(self): raise Unsupported('len of %s' % self.name)
    __len__ = _len_
    def __iter__(self): raise Unsupported('iteration over %s' % self.name)
    def __bool__(self): raise Unsupported('truth of %s' % self.name)
    def __repr__(self): return '<%s>' % self.name


class Cids(Sym):
    'the cache ids an input is used in: one call talked about so many times, and so many others'
    _irr_ = False
    def __init__(self, cid, r, o): self.cid = cid; self.r = r; self.o = o
    def _snap_(self): return [self.r, self.o]
    def _len_(self): return self.r + self.o
    def __len__(self): raise Unsupported('len')
    def remove(self, k):
        if k is not self.cid: raise Unsupported('remove of another cache id')
        if not rt.ctx().decide(num(self.r) > 0): raise ValueError('not in list')
        self.r = self.r - 1
    def append(self, k):
        if k is not self.cid: raise Unsupported('append of another cache id')
        self.r = self.r + 1
    def __contains__(self, k):
        if k is not self.cid: raise Unsupported('another cache id')
        return bool(rt.ctx().decide(num(self.r) > 0))
    def _iter_(self): return [Irr(lambda: Opaque('another cache id', True), label='other cache ids'), self.cid]
    def __iter__(self): raise Unsupported('iteration')


class NoKey(Opaque):
    'the id of something that is not observable'
    __slots__ = ()


class Ids(object):
    'the ids of objects, one for each'
    def __init__(self): self.t = {}
    def __call__(self, s, x):
        if x is None or isinstance(x, (float, str)): return NoKey('id of %r' % (x,))
        return self.t.setdefault(id(x), (Opaque('id of %r' % (x,), irr=rt.irrelevant(x)), x))[0]


def observable(c, name, irr=False, cls=None):
    from paramz.core.observable import Observable
    from paramz import ObsAr
    o = SObj(name, cls or (ObsAr if c.choose(2, 'array') else Observable), fields=dict(observers=Opaque('observers of ' + name, irr)), irr=irr, contracts=dict(
        add_observer=lambda s, ob, cb, *p, **k: c.event('register', s, ob, cb, p, k), remove_observer=lambda s, ob, *cb, **k: c.event('remove', s, ob, cb, k)))
    return o


def relevant(c): return [e for e in c.trace if not rt.irrelevant(e[1])]
SELF = Opaque('self')


def removed(ev, o, cache):
    return ev[0] == 'remove' and ev[1] is o and ev[2] is cache and list(ev[3]) + list(ev[4].values()) == [Bound(C().__dict__['on_cache_changed'], cache)]


def registered(ev, o, cache):
    return ev[0] == 'register' and ev[1] is o and ev[2] is cache and ev[3] == Bound(C().__dict__['on_cache_changed'], cache) and (ev[4], ev[5]) == ((), {})


# ---------------------------------------------------------------------------------------------------------------
# identification of calls

class Name(Sym):
    'a keyword name; equal names have one canonical object'
    _irr_ = False
    def __init__(self, n, irr=False): self.n = n; self.canonical = Opaque('canonical ' + n, irr); self._irr_ = irr
    def _intern_(self): return self.canonical
    def __repr__(self): return self.n


class Kw(Sym):
    'keyword arguments in any order'
    _irr_ = False
    def __init__(self, pairs): self.pairs = pairs; rt.ctx().tracked.append(self)
    def _snap_(self): return 0
    def __bool__(self): return True
    def _seq(self, f): return WSeq([Irr((lambda x=x: f(x.make())), label=x.label) if isinstance(x, Irr) else f(x) for x in self.pairs])
    def items(self): return KwView(self, lambda p: p)
    def keys(self): return KwView(self, lambda p: p[0])
    def _sorted_(self, **k): return self.keys()._sorted_(**k)


class KwView(Sym):
    def __init__(self, kw, f): self.kw = kw; self.f = f
    def _sorted_(self, key=None, reverse=False):
        p = (Name('any'), Opaque('value'))
        if reverse: raise Unsupported('reverse order')
        x = self.f(p)
        if key is not None: x = key(x)
        # by name: names differ, so what comes behind the name in a tuple does not matter
        if x is not p[0] and not (isinstance(x, tuple) and x[0] is p[0]): raise Unsupported('sorted by something else than the name')
        return self.kw._seq(self.f)


@contract('C16 C17', ['Cacher.combine_inputs'], assumes=['ignore_args names positional arguments', 'the marker is an object no caller has'])
def combined_inputs_determine_the_call(c):
    from paramz import caching
    ign = {}
    nargs = fresh_int('arguments'); c.assume(nargs.e >= 0)
    def ignored(i):
        # a predicate on positions; none of the keyword arguments is ignored
        return SBool(z3.And(z3.Function('ignored', z3.IntSort(), z3.BoolSort())(num(i)), num(i) < nargs.e))
    ignore = SObj('ignore_args', None, contracts=dict(__contains__=lambda s, i: bool(ignored(i))))
    n1, n2, n3 = (fresh_int('n') for _ in range(3)); c.assume(z3.And(n1.e >= 0, n2.e >= 0, n3.e >= 0, nargs.e == n1.e + n2.e + n3.e + 2))
    other = lambda n: Irr(lambda: Opaque('another argument', True), dict(count=lambda e: 1), dict(count=n), 'other arguments')
    a, b = Opaque('argument a'), Opaque('argument b')
    args = STuple([other(n1), a, other(n2), b, other(n3)])
    with_kw = c.choose(2, 'keywords')
    k1, k2, v1, v2 = Name('name 1'), Name('name 2'), Opaque('value 1'), Opaque('value 2')
    m = [fresh_int('m') for _ in range(3)]
    for x in m: c.assume(x.e >= 0)
    opair = lambda x: Irr(lambda: rt.IrrTuple((Name('another name', True), Opaque('another value', True))), dict(count=lambda e: 1), dict(count=x), 'other keywords')
    kw = Kw([opair(m[0]), (k1, v1), opair(m[1]), (k2, v2), opair(m[2])]) if with_kw else {}
    # segments keep their lengths
    if with_kw:
        kw._seq = lambda f: WSeq([Irr((lambda x=x: f(x.make())), dict(count=lambda e: 1), x.totals, x.label) if isinstance(x, Irr) else f(x) for x in kw.pairs])
    o = SObj('cache', C())
    r = C().combine_inputs(o, args, kw, ignore)
    c.prove('gives a list', isinstance(r, list))
    got = [x for x in r if not isinstance(x, Irr)]
    ia, ib = ignored(n1), ignored(n1 + n2 + 1)
    want_pos = [x for x in (a, b) if any(y is x for y in got)]
    c.prove('an argument is left out if and only if it is ignored', z3.And(ia.e == z3.BoolVal(not any(x is a for x in got)), ib.e == z3.BoolVal(not any(x is b for x in got))))
    mark = caching._kw_names
    want = want_pos + ([v1, v2, mark, k1.canonical, k2.canonical] if with_kw else [])
    c.prove('arguments in order, values and names of the keywords in one order, told apart by the marker', len(got) == len(want) and all(x is y for x, y in zip(got, want)))
    # every other argument and keyword has its place as well
    lab = [x.label for x in r if isinstance(x, Irr)]
    c.prove('no other argument or keyword is dropped', lab.count('other arguments') == 3 and lab.count('other keywords') == (6 if with_kw else 0))
    seg = [x for x in r if isinstance(x, Irr)]
    for x in seg:
        if x.label == 'other keywords': x.make()
    c.prove('the marker is a text of its own', type(mark) is str and mark == 'keyword names' and mark is not __import__('sys').intern('keyword names'))


class Hex(Sym):
    def __init__(self, n): self.n = n


class IdInt(Sym):
    'the number of an object, different for different objects that are alive'
    def __init__(self, x): self.x = x
    def _hex_(self): return Hex(self)


@contract('C16 C17', ['Cacher.id', 'Cacher.prepare_cache_id'], assumes=['objects alive at the same time have different id(); hex() is injective, starts with 0x and has no other x'])
def cache_id_determines_the_inputs(c):
    class Arg(Opaque):
        __slots__ = ()
        def _id_(self): return IdInt(self)
    o = SObj('cache', C())
    other = lambda: Irr(lambda: Arg('another input', True), label='other inputs')
    a, b = Arg('input a'), Arg('input b')
    r = C().prepare_cache_id(o, [other(), a, other(), b, other()])
    c.prove('the id is the codes of all inputs one after the other, with nothing in between', isinstance(r, SText) and len(r.parts) == 5 and [isinstance(x, Irr) for x in r.parts] == [True, False, True, False, True])
    code = lambda h, x: isinstance(h, Hex) and isinstance(h.n, IdInt) and h.n.x is x
    c.prove('the code of an input is the hexadecimal form of its id', code(r.parts[1], a) and code(r.parts[3], b))
    for i in (0, 2, 4):
        h = r.parts[i].make()
        c.prove('the code of any other input as well', isinstance(h, Hex) and isinstance(h.n, IdInt) and rt.irrelevant(h.n.x))


@contract('C16 C17', ['Cacher.prepare_cache_id'])
def codes_can_be_read_back(c):
    'lemma: a text that starts with two codes, followed by further codes or nothing, starts with only one code'
    S = z3.StringSort(); h1, h2, w1, w2 = (z3.Const(n, S) for n in ('h1', 'h2', 'w1', 'w2'))
    hexd = z3.Union(z3.Range('0', '9'), z3.Range('a', 'f'))
    code = lambda d: z3.And(z3.PrefixOf(z3.StringVal('0x'), d), z3.Not(z3.Contains(z3.SubString(d, 1, z3.Length(d)), z3.StringVal('0x'))), z3.Length(d) > 2)
    rest = lambda w: z3.Or(w == z3.StringVal(''), z3.PrefixOf(z3.StringVal('0x'), w))
    # if one code is longer than the other, the longer one has 0x inside
    s = z3.Const('s', S)
    c.assume(z3.And(code(h1), code(h2), rest(w1), rest(w2), z3.Concat(h1, w1) == z3.Concat(h2, w2)))
    c.prove('two sequences of codes that give the same text start with the same code', h1 == h2)
    c.prove('and go on the same', w1 == w2)


# ---------------------------------------------------------------------------------------------------------------
# calls

class Boom(Exception): pass


def call_cache(c, **f):
    fields = dict(cacher_enabled=True, force_kwargs=(), ignore_args=Opaque('ignore_args'))
    fields.update(f)
    def op(s, *a, **k):
        c.event('operation', s, a, k)
        if c.choose(2, 'fails'): e = Boom(); c.ghost['exc'] = e; raise e
        c.ghost.get('meanwhile', lambda: None)()
        v = c.ghost['value'] = Opaque('fresh value'); return v
    con = {}
    for n in ('combine_inputs', 'prepare_cache_id', 'ensure_cache_length', 'add_to_cache', 'reset'):
        con[n] = (lambda n: lambda s, *a, **k: c.event(n, s, a, k))(n)
    o = SObj('cache', C(), fields=fields, contracts=con)
    o._f['operation'] = SObj('operation', None, contracts=dict(__call__=op))
    return o


def do(c, o, args, kw):
    try: return C().__call__(o, *args, **kw), None
    except Boom as e: return None, e


def plain(c, o, r, exc, args, kw, what):
    ev = relevant(c); ops = [e for e in ev if e[0] == 'operation']
    c.prove(what + ': the wrapped function runs once with exactly these arguments', len(ops) == 1 and ops[0][2] == args and ops[0][3] == kw)
    c.prove(what + ': its value or error is passed on', exc is c.ghost.get('exc') if exc is not None else r is c.ghost['value'])
    c.prove(what + ': the cache is left alone', all(e[0] in ('operation', 'combine_inputs', 'prepare_cache_id') for e in ev))


@contract('C16', ['Cacher.__call__'])
def switched_off(c):
    args = (Opaque('x'), Opaque('y')); kw = dict(k=Opaque('v'))
    o = call_cache(c, cacher_enabled=False)
    r, exc = do(c, o, args, kw)
    plain(c, o, r, exc, args, kw, 'a switched-off cache')


@contract('C16', ['Cacher.__call__'])
def forced_keyword(c):
    n = [fresh_int('n'), fresh_int('n')]
    for x in n: c.assume(x.e >= 0)
    seg = lambda x: Irr(lambda: 'some name that is not passed', dict(count=lambda e: 1), dict(count=x), 'other names')
    o = call_cache(c, force_kwargs=WSeq([seg(n[0]), 'force', seg(n[1])]))
    args = (Opaque('x'),); kw = dict(k=Opaque('v'), force=[True, 1, 'yes', 0, False][c.choose(5, 'forced')])
    r, exc = do(c, o, args, kw)
    plain(c, o, r, exc, args, kw, 'a forced call')


@contract('C16 C17', ['Cacher.__call__'])
def cachable_or_not(c):
    """any number of inputs of any cachable kinds, perhaps one that is not cachable"""
    from paramz.core.observable import Observable
    def some():
        k = c.choose(4, 'kind')
        return [None, 1.5, 'text', observable(c, 'an input', True, Observable)][k]
    bad = c.choose(2, 'uncachable')
    seg = lambda: Irr(some, label='other inputs')
    w = SObj('a list', list, irr=True) if bad else some()
    inputs = [seg(), w, seg()]
    cid = Opaque('cache id'); old = Opaque('stored value')
    state = c.choose(3, 'state')          # not seen, seen, changed
    none = c.choose(3, 'force keywords')
    nf = fresh_int('force'); c.assume(nf.e >= 0)
    fk = [(), ('force',), WSeq([Irr(lambda: 'some name that is not passed', dict(count=lambda e: 1), dict(count=nf), 'names')])][none]
    args = (Opaque('x'), Opaque('y')); kw = dict(k=Opaque('v')); 
    if none == 1: kw['force'] = None
    ign = Opaque('ignore_args')
    ch = SMap('inputs_changed', [(cid, state == 2)] if state else [], [] if state else [cid])
    outs = SMap('cached_outputs', [(cid, old)] if state else [], [] if state else [cid])
    o = call_cache(c, inputs_changed=ch, cached_outputs=outs, force_kwargs=fk, ignore_args=ign)
    def comb(s, *a, **k): c.event('combine_inputs', s, a, k); return inputs
    def prep(s, *a, **k): c.event('prepare_cache_id', s, a, k); return cid
    def ensure(s, *a, **k): c.event('ensure_cache_length', s, a, k)
    def add(s, *a, **k):
        c.event('add_to_cache', s, a, k)
        ch[cid] = False; outs[cid] = arg(a, k, 2, 'output')
    def reset(s, *a, **k):
        c.event('reset', s, a, k); ch.d = {}; outs.d = {}
    o._c.update(combine_inputs=comb, prepare_cache_id=prep, ensure_cache_length=ensure, add_to_cache=add, reset=reset)
    kept = [state != 0]
    def meanwhile():
        'the wrapped function may itself call this cache, which may displace the changed result'
        if not kept[0] or bad or not c.choose(2, 'the wrapped function uses this cache'): return
        del ch[cid]; del outs[cid]; kept[0] = False
    c.ghost['meanwhile'] = meanwhile
    r, exc = do(c, o, args, kw)
    ev = relevant(c)
    kinds = [e[0] for e in ev if e[0] not in ('combine_inputs', 'prepare_cache_id')]
    for e in ev:
        if e[0] == 'combine_inputs': c.prove('the id is that of this call', arg(e[2], e[3], 0, 'args') == args and arg(e[2], e[3], 1, 'kw') == kw and arg(e[2], e[3], 2, 'ignore_args') is ign)
        if e[0] == 'prepare_cache_id': c.prove('the id is that of this call', arg(e[2], e[3], 0, 'combined_args_kw') is inputs)
        if e[0] == 'operation': c.prove('the wrapped function gets exactly these arguments', e[2] == args and e[3] == kw)
    if bad:
        plain(c, o, r, exc, args, kw, 'an uncachable argument'); return
    if state == 1:
        c.prove('a kept unchanged result is given without running the wrapped function', kinds == [] and r is old)
        return
    c.prove('otherwise it runs once', kinds.count('operation') == 1 and kinds[0] == 'operation')
    if exc is not None:
        c.prove('an error empties the cache and goes on', exc is c.ghost['exc'] and kinds == ['operation', 'reset'])
        return
    v = c.ghost['value']
    c.prove('the fresh value is given', r is v)
    if kept[0]: c.prove('the stored result is replaced and counts as unchanged', kinds == ['operation'] and ch[cid] is False and outs[cid] is v)
    else:
        c.prove('a new result is stored after one place was freed', kinds == ['operation', 'ensure_cache_length', 'add_to_cache'])
        e = ev[-1]
        c.prove('stored under the id of this call with its inputs', arg(e[2], e[3], 0, 'cache_id') is cid and arg(e[2], e[3], 1, 'inputs') is inputs and arg(e[2], e[3], 2, 'output') is v)


# ---------------------------------------------------------------------------------------------------------------
# keeping the invariant

@contract('C16 C17', ['Cacher.add_to_cache'], assumes=['invariant of the cache; further occurrences of an input are like the second one'])
def storing_a_result(c):
    from paramz.core.observable import Observable
    ids = Ids(); cid = Opaque('cache id')
    a = observable(c, 'input'); aid = ids(None, a)
    n = fresh_int('uses'); c.assume(n.e >= 1)
    before = c.choose(2, 'already an input')
    uses = Cids(cid, 0, n); ref = SRef(a)
    table = SMap('cached_input_ids', [(aid, [ref, uses])] if before else [], [] if before else [aid], others=lambda k: [SRef(Opaque('another input', True)), rt_list(c)])
    def some():
        k = c.choose(4, 'kind')
        return [None, 2.5, 'text', observable(c, 'another input', True, Observable)][k]
    seg = lambda: Irr(some, label='other inputs')
    twice = c.choose(2, 'twice')
    inputs = [seg(), a, seg()] + ([a, seg()] if twice else [])
    out = Opaque('output'); n0 = fresh_int('kept'); c.assume(n0.e >= 0)
    order = Order(c, n0)
    o = SObj('cache', C(), fields=dict(inputs_changed=SMap('inputs_changed', [], [cid]), cached_outputs=SMap('cached_outputs', [], [cid]), cached_inputs=SMap('cached_inputs', [], [cid]),
             cached_input_ids=table, order=order), contracts=dict(id=ids))
    C().add_to_cache(o, cid, inputs, out)
    c.prove('the result is kept, unchanged, with its inputs', o.inputs_changed[cid] is False and o.cached_outputs[cid] is out and o.cached_inputs[cid] is inputs)
    c.prove('as the newest', order.new == [cid])
    e = o.cached_input_ids[aid]
    c.prove('the input is on record', isinstance(e, (list, tuple)) and len(e) == 2 and isinstance(e[0], SRef) and e[0].x is a)
    ev = relevant(c)
    if before:
        c.prove('the call is added to its uses, once for each occurrence', z3.And(num(e[1].r) == 1 + twice, num(e[1].o) == n.e) if e[1] is uses else z3.BoolVal(False))
        c.prove('it is observed already', ev == [])
    else:
        c.prove('the call is its use, once for each occurrence', e[1] == [cid] * (1 + twice))
        c.prove('it is observed from now on, once', len(ev) == 1 and registered(ev[0], a, o))


def rt_list(c):
    n = fresh_int('uses'); c.assume(n.e >= 1)
    return AnyUses(n)


class AnyUses(Sym):
    'the uses of another input'
    _irr_ = True
    def __init__(self, n): self.n = n
    def append(self, x): self.n = self.n + 1
    def remove(self, x): self.n = self.n - 1
    def _len_(self): return self.n
    def __len__(self): raise Unsupported('len')
    def _iter_(self): return [Irr(lambda: Opaque('another cache id', True), label='other cache ids')]


class Order(Sym):
    'the kept calls, oldest first'
    _irr_ = False
    def __init__(self, c, n, oldest=None): self.n = n; self.new = []; self.oldest = oldest; self.gone = []; c.tracked.append(self)
    def _snap_(self): return [self.n, list(self.new), list(self.gone)]
    def append(self, x): self.new.append(x); self.n = self.n + 1
    def popleft(self):
        if self.gone: raise Unsupported('second popleft')
        self.gone.append(self.oldest); self.n = self.n - 1
        return self.oldest
    def _len_(self): return self.n
    def __len__(self): raise Unsupported('len')


@contract('C17 C16', ['Cacher.ensure_cache_length'], assumes=['invariant of the cache'])
def evicting_the_oldest(c):
    """the oldest kept call with one arbitrary observable input a (any number of occurrences); another input b of a kept call
    that may share its observers with a (a view), all the others do not"""
    from paramz.core.observable import Observable
    ids = Ids(); old, kept = Opaque('oldest call'), Opaque('another kept call')
    a, b = observable(c, 'input a', cls=Observable), observable(c, 'input b', cls=Observable)
    aid, bid = ids(None, a), ids(None, b)
    share = c.choose(2, 'b shares observers with a')
    if share: b._f['observers'] = a._f['observers']
    oth = fresh_int('other uses'); c.assume(oth.e >= 0)
    uses = Cids(old, fresh_int('occurrences'), oth); c.assume(uses.r.e >= 1)
    ref, refb = SRef(a), SRef(b)
    nothere = lambda: [SRef(observable(c, 'another input', True, Observable)), rt_list(c)]
    table = SMap('cached_input_ids', [(aid, [ref, uses]), (bid, [refb, [kept]])], others=lambda k: nothere(), items=[Irr(nothere, label='other inputs'), aid, Irr(nothere, label='other inputs'), bid, Irr(nothere, label='other inputs')])
    def some():
        k = c.choose(4, 'kind')
        return [None, 2.5, 'text', observable(c, 'another input', True, Observable)][k]
    many = c.choose(2, 'many occurrences')
    if many:
        c.assume(uses.r.e >= 2)
        def before_a():
            c.assume(uses.r.e >= 2)
            return a
        calls = []
        def loose(s):
            # before (asked first) and after the step: exactly one occurrence less, nothing else
            calls.append(0); e = dict(s[0]).get(id(aid))
            if not (isinstance(e, list) and len(e) == 2 and isinstance(e[1], list) and len(e[1]) == 2): return ['no record of the input']
            return [[(k, v) for k, v in s[0] if k != id(aid)], s[1], e[0], e[1][0] - (1 if len(calls) % 2 else 0), e[1][1]]
        table._loose_ = loose
        table._blur_ = lambda: (setattr(uses, 'r', fresh_int('occurrences left')), c.assume(uses.r.e >= 2))
        inputs = WSeq([Irr(some, label='other inputs'), Irr(before_a, label='earlier occurrences of a', loose=[table]), Irr(some, label='other inputs'), At(a, lambda: setattr(uses, 'r', 1)), Irr(some, label='other inputs')])
    else:
        uses.r = 1
        inputs = WSeq([Irr(some, label='other inputs'), a, Irr(some, label='other inputs')])
    n, lim = fresh_int('kept'), fresh_int('limit'); c.assume(z3.And(lim.e >= 1, n.e >= 0, n.e <= lim.e))
    order = Order(c, n, old)
    mk = lambda nm, v, w: SMap(nm, [(old, v), (kept, w)])
    x, y, z = Opaque('stored'), Opaque('changed flag'), Opaque('inputs of the other')
    o = SObj('cache', C(), fields=dict(inputs_changed=mk('inputs_changed', Opaque('flag'), y), cached_outputs=mk('cached_outputs', Opaque('value'), x), cached_inputs=mk('cached_inputs', inputs, z),
             cached_input_ids=table, order=order, limit=lim), contracts=dict(id=ids))
    C().ensure_cache_length(o)
    ev = relevant(c); e = table.get(aid)
    full = n.e == lim.e
    c.prove('there is room for one more', num(order.n) < lim.e)
    c.prove('something goes only if the cache was full, and then the oldest', z3.Or(z3.And(full, z3.BoolVal(order.gone == [old])), z3.And(z3.Not(full), z3.BoolVal(order.gone == []))))
    gone = bool(order.gone)
    for nm in ('inputs_changed', 'cached_outputs', 'cached_inputs'):
        c.prove('nothing of it is kept, everything of the others', (old in getattr(o, nm)) is (not gone) and kept in getattr(o, nm))
    c.prove('the others are as they were', o.cached_outputs[kept] is x and o.inputs_changed[kept] is y and o.cached_inputs[kept] is z)
    eb = table.get(bid)
    c.prove('inputs of others stay on record', eb is not None and eb[0] is refb and eb[1] == [kept])
    if not gone: c.prove('otherwise nothing changes', ev == [] and e is not None and e[1] is uses); return
    if e is not None:
        c.prove('an input used by another kept call stays on record', z3.And(oth.e >= 1, num(e[1].o) == oth.e, num(e[1].r) == 0) if e[1] is uses and e[0].x is a else z3.BoolVal(False))
        c.prove('and observed', ev == [])
    else:
        c.prove('only an input of no other kept call goes', oth.e == 0)
        c.prove('it is no longer observed, unless its observers are those of another input', ev == [] if share else (len(ev) == 1 and removed(ev[0], a, o)))


@contract('C16 C17', ['Cacher.on_cache_changed'], assumes=['invariant of the cache', 'np.may_share_memory tells whether two arrays share memory'])
def marking_results_as_changed(c):
    'one arbitrary kept call k with the inputs a and b; inputs of other calls; further inputs of k that were not changed'
    from paramz.core.observable import Observable
    from paramz import ObsAr
    k = Opaque('kept call'); was = bool(c.choose(2, 'changed before'))
    a = SObj('input a', ObsAr if c.choose(2, 'array') else Observable); b = SObj('input b', ObsAr)
    shares = {}
    def arr(x): return isinstance(x, SObj) and issubclass(x.__dict__['_cls'], np.ndarray)
    def share(x, y, *r):
        if not (arr(x) and arr(y)): raise Unsupported('may_share_memory of something else than arrays')
        key = frozenset((id(x), id(y)))
        return shares[key] if key in shares else fresh_bool('share')
    shim.FUNCS['may_share_memory'] = share; shim.FUNCS['shares_memory'] = share
    changed = SObj('the changed object', [ObsAr, Observable][c.choose(2, 'kind')]); other = Opaque('something else')
    which = [None, changed, a][c.choose(3, 'which')]
    if c.choose(2, 'a itself'): changed = a if which is not a else changed
    for x in (a, b):
        for y in {id(changed): changed, id(which): which}.values():
            if y is not None and y is not x: shares[frozenset((id(x), id(y)))] = fresh_bool('share')
    def hit(x):
        h = z3.BoolVal(False)
        for y in (changed, which):
            if y is None: continue
            if y is x: h = z3.BoolVal(True)
            elif arr(x) and arr(y): h = z3.Or(h, shares[frozenset((id(x), id(y)))].e)
        return h
    stranger = lambda: Irr(lambda: Opaque('another kept call', True), label='other calls')
    def some():
        # an input of other calls only, hit or not; or a further input of k that is not hit
        x = SObj('another input', [ObsAr, Observable][c.choose(2, 'kind')], irr=True)
        of_k = c.choose(2, 'of k')
        if of_k:
            for y in (changed, which):
                if y is not None and arr(x) and arr(y): shares[frozenset((id(x), id(y)))] = SBool(z3.BoolVal(False))
        return [SRef(x), WSeq([stranger()] + ([k, stranger()] if of_k else []))]
    seg = lambda: Irr(some, label='other inputs', twin='others')
    rec = lambda x: [SRef(x), WSeq([stranger(), k, stranger()])]
    aid, bid = Opaque('id a'), Opaque('id b')
    table = SMap('cached_input_ids', [(aid, rec(a)), (bid, rec(b))], items=[seg(), aid, seg(), bid, seg()])
    ch = SMap('inputs_changed', [(k, was)])
    o = SObj('cache', C(), fields=dict(cached_input_ids=table, inputs_changed=ch))
    if which is None: C().on_cache_changed(o, changed)
    elif was: C().on_cache_changed(o, changed, which=which)
    else: C().on_cache_changed(o, changed, which)
    now = ch[k]
    c.prove('a stored result counts as changed if one of its inputs, or memory of one, was changed', z3.Implies(z3.Or(hit(a), hit(b)), z3.BoolVal(now is True)))
    c.prove('and stays as it was otherwise', z3.Implies(z3.Not(z3.Or(hit(a), hit(b))), z3.BoolVal(now is was)))
    c.prove('nothing else happens', relevant(c) == [] and set(o._f) == {'cached_input_ids', 'inputs_changed'})


@contract('C16 C17', ['Cacher.reset'], assumes=['invariant of the cache'])
def emptying_the_cache(c):
    from paramz.core.observable import Observable
    a, b = observable(c, 'input a', cls=Observable), observable(c, 'input b', cls=Observable)
    alive = c.choose(2, 'alive')
    aid, bid = Opaque('id a'), Opaque('id b')
    some = lambda: [SRef(observable(c, 'another input', True, Observable), bool(c.choose(2, 'alive'))), rt_list(c)]
    seg = lambda: Irr(some, label='other inputs')
    table = SMap('cached_input_ids', [(aid, [SRef(a), rt_list(c)]), (bid, [SRef(b, bool(alive)), rt_list(c)])], items=[seg(), aid, seg(), bid, seg()])
    op = Opaque('operation')
    o = SObj('cache', C(), fields=dict(cached_input_ids=table, order=Opaque('order'), cached_inputs=Opaque('x'), cached_outputs=Opaque('y'), inputs_changed=Opaque('z'), operation=op, limit=3))
    C().reset(o)
    ev = relevant(c)
    c.prove('every input still alive is no longer observed', len(ev) == (2 if alive else 1) and removed(ev[0], a, o) and (not alive or removed(ev[1], b, o)))
    c.prove('nothing is kept', all(type(o._f[k]) is dict and not o._f[k] for k in ('cached_inputs', 'cached_input_ids', 'cached_outputs', 'inputs_changed')) and len(o._f['order']) == 0 and hasattr(o._f['order'], 'popleft'))
    ds = [o._f[k] for k in ('cached_inputs', 'cached_input_ids', 'cached_outputs', 'inputs_changed')]
    c.prove('in tables of their own', len({id(d) for d in ds}) == 4)
    c.prove('the rest stays', o._f['operation'] is op and o._f['limit'] == 3)


# ---------------------------------------------------------------------------------------------------------------
# switching on and off

@contract('C17', ['Cacher.disable_cacher', 'Cacher.enable_cacher'])
def switching_one_cache(c):
    o = SObj('cache', C(), fields=dict(cacher_enabled=bool(c.choose(2, 'on'))), contracts=dict(reset=lambda s: c.event('reset', s)))
    if c.choose(2, 'which'): C().disable_cacher(o); c.prove('off: nothing stays stored', o.cacher_enabled is False and [e[0] for e in c.trace] == ['reset'])
    else: C().enable_cacher(o); c.prove('on', o.cacher_enabled is True and c.trace == [])


@contract('C17', ['FunctionCache.disable_caching', 'FunctionCache.enable_caching', 'FunctionCache.reset'])
def switching_all_caches_of_an_object(c):
    from paramz.caching import FunctionCache as F
    def cacher(n, irr=False): return SObj(n, None, irr=irr, contracts={k: (lambda k: lambda s: c.event(k, s))(k) for k in ('disable_cacher', 'enable_cacher', 'reset')})
    seg = lambda: Irr(lambda: cacher('another cache', True), label='other caches')
    a, b = cacher('cache a'), cacher('cache b')
    on = bool(c.choose(2, 'on'))
    o = SObj('caches', F, fields=dict(caching_enabled=on), contracts=dict(values=lambda s: WSeq([seg(), a, seg(), b, seg()])))
    m = c.choose(3, 'function')
    getattr(F, ['disable_caching', 'enable_caching', 'reset'][m])(o)
    c.prove('every cache of the object is switched or emptied once', [e[:2] for e in relevant(c)] == [(['disable_cacher', 'enable_cacher', 'reset'][m], x) for x in (a, b)])
    c.prove('and the switch of the object follows', o.caching_enabled is ([False, True, on][m]))


@contract('C17 C16', ['Cache_this.__call__'])
def decorated_method(c):
    from paramz import caching
    known = c.choose(3, 'state')          # no cache on the object yet, another method cached, this one cached
    made = []
    def make(*a, **k):
        m = SObj('new cache', None, contracts=dict(__call__=lambda s, *x, **y: c.event('call', s, x, y) or res)); made.append((m, a, k)); return m
    res = Opaque('result')
    def f(self, x, y=2): raise Unsupported('body of the cached method')
    dec = caching.Cache_this(limit=7, ignore_args=(0,), force_kwargs=('z',))
    old = caching.Cacher; oldf = caching.FunctionCache
    caching.Cacher = make
    try:
        g = dec(f)
        c.prove('the wrapper looks like the method', g.__name__ == 'f')
        obj = SObj('object', None, absent=['cache'])
        mine = SObj('its cache', None, contracts=dict(__call__=lambda s, *x, **y: c.event('call', s, x, y) or res))
        on = True
        if known:
            d = oldf(); on = d.caching_enabled = bool(c.choose(2, 'on'))
            d[Opaque('another method')] = Opaque('another cache')
            if known == 2: d[f] = mine
            obj._f['cache'] = d; obj.__dict__['_absent'].clear()
        x = Opaque('x'); kwcall = c.choose(2, 'keyword')
        r = g(obj, x, y=5) if kwcall else g(obj, x)
        r2 = g(obj, x)
    finally: caching.Cacher = old
    d = obj._f.get('cache')
    c.prove('the object has its caches', type(d) is oldf and f in d)
    cach = d[f]
    calls = [e for e in c.trace if e[0] == 'call']
    if known == 2: c.prove('the cache of this method is used', made == [] and cach is mine)
    else:
        c.prove('one cache is made for this method', len(made) == 1 and cach is made[0][0])
        a, k = made[0][1:]
        c.prove('with the settings of the decorator, switched like the object', arg(a, k, 0, 'operation') is f and arg(a, k, 1, 'limit') == 7 and arg(a, k, 2, 'ignore_args') == (0,) and arg(a, k, 3, 'force_kwargs') == ('z',) and arg(a, k, 4, 'cacher_enabled') is on)
    c.prove('calls go through it with all arguments', len(calls) == 2 and calls[0][1] is cach and calls[0][2][:2] == (obj, x) and r is res and r2 is res)
    allargs = list(calls[0][2]) + list(calls[0][3].values())
    c.prove('whatever way they are passed', allargs[2:] in ([5] if kwcall else [2], [] if not kwcall else [5]))


@contract('C16 C17', ['Cacher.__init__'])
def a_new_cache(c):
    from paramz import caching
    F = caching.FunctionCache
    on = bool(c.choose(2, 'on'))
    bound = c.choose(3, 'operation')      # a function, a method of an object without caches, of one with caches
    obj = SObj('object', None, absent=['cache']); objon = True
    if bound == 2:
        d = F(); objon = d.caching_enabled = bool(c.choose(2, 'caching of the object')); obj._f['cache'] = d; obj.__dict__['_absent'].clear()
    def f(self): pass
    op = Bound(f, obj) if bound else f
    o = SObj('cache', C(), contracts=dict(reset=lambda s: c.event('reset', s)))
    ign, force = (0, 2), ('z',)
    C().__init__(o, op, 4, ign, force, cacher_enabled=on)
    c.prove('the settings are kept', o.limit == 4 and o.ignore_args is ign and o.force_kwargs is force and o.operation is op)
    c.prove('it is on if asked to and caching is on for the object', o.cacher_enabled is (on and objon))
    c.prove('it starts empty', [e[0] for e in c.trace] == ['reset'] and o._f['cached_input_ids'] == {})
    if bound: c.prove('the object knows it', type(obj._f['cache']) is F and list(obj._f['cache'].values()) == [o])
