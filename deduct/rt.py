"""PyDeduct run time: path exploration, obligations, the loop rule.

The real functions of /repo (instrumented on every run by load.py, see there for what the instrumentation does) are
executed by CPython on symbolic values (vals.py).  A branch on a symbolic condition forks the path; every feasible
path is executed once.  An obligation is a formula that has to follow from the path condition; it is discharged by z3
(cvc5 if z3 does not know).  Loops over symbolic collections are cut by the rule in class Loop, loops with a condition
by an invariant (class While): no loop over a symbolic collection is ever unrolled up to a bound.
"""
import sys, time
import z3


class PathDone(BaseException): 'the rest of this path is covered by another one'
class Infeasible(BaseException): 'the path condition is unsatisfiable'
class Unsupported(BaseException): 'the engine has no meaning for what the code does: undecided'
class Restart(BaseException): 'a loop hypothesis was refined: start the exploration again'

CTX = None


def ctx(): return CTX


QUERY_MS = 4000
STATS = dict(queries=0, time=0.0, unknown=0, cvc5=0)


class Obl(object):
    __slots__ = ('name', 'n', 'proved', 'refuted', 'unknown', 'info', 'time', 'backends')
    def __init__(self, name):
        self.name = name; self.n = self.proved = self.refuted = self.unknown = 0; self.info = None; self.time = 0.0; self.backends = set()


class Ctx(object):
    def __init__(self, prefix, session):
        self.session = session
        self.dec = list(prefix); self.pos = 0; self.alts = []
        self.solver = z3.Solver(); self.solver.set('timeout', QUERY_MS)
        self.pc = []
        self.trace = []; self.tracked = []; self.n = 0
        self.irr_depth = 0; self.ghost = {}; self.axioms = []
        self.done = False
        self.notes = []

    # -- fresh symbols
    def name(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def assume(self, f):
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f): return
        self.pc.append(f); self.solver.add(f)
        if z3.is_false(f): raise Infeasible()

    def check(self, *fs):
        t = time.time()
        if t > self.session.deadline: raise Unsupported('out of time')
        r = self.solver.check(*fs)
        if r == z3.unknown: STATS['unknown'] += 1
        STATS['queries'] += 1; STATS['time'] += time.time() - t
        return r

    def choose(self, n, what=''):
        if self.pos < len(self.dec):
            c = self.dec[self.pos]; self.pos += 1
            return c
        for i in range(n - 1, 0, -1): self.alts.append(self.dec[:self.pos] + [i])
        self.dec.append(0); self.pos += 1
        return 0

    def decide(self, f):
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        if self.pos < len(self.dec):
            c = self.dec[self.pos]; self.pos += 1
        else:
            t = self.check(f)
            if t == z3.unsat: c = 0
            else:
                c = 1
                if self.check(z3.Not(f)) != z3.unsat: self.alts.append(self.dec[:self.pos] + [0])
            self.dec.append(c); self.pos += 1
        self.assume(f if c else z3.Not(f))
        return bool(c)

    def entails(self, f):
        if isinstance(f, bool): return f
        f = z3.simplify(f)
        if z3.is_true(f): return True
        return self.check(z3.Not(f)) == z3.unsat

    # -- obligations
    def prove(self, name, f, **info):
        if self.done: return
        S = self.session
        o = S.obl.get(name)
        if o is None: o = S.obl[name] = Obl(name)
        if isinstance(f, bool): f = z3.BoolVal(f)
        f = z3.simplify(f)
        t = time.time(); backend = 'z3'
        if z3.is_true(f): r = z3.unsat; backend = 'evaluation'
        else: r = self.check(z3.Not(f))
        model = None
        if r == z3.sat: model = self.solver.model()
        if r == z3.unknown:
            r2 = cvc5_check(self.pc + [z3.Not(f)], S)
            if r2 is not None: r = r2; backend = 'cvc5'
        o.n += 1; o.time += time.time() - t; o.backends.add(backend)
        if r == z3.unsat:
            o.proved += 1
            if S.cross and backend == 'z3':
                r2 = cvc5_check(self.pc + [z3.Not(f)], S)
                S.crossed[{z3.unsat: 'agree', z3.sat: 'disagree', None: 'unknown'}[r2]] += 1
        elif r == z3.sat:
            o.refuted += 1
            if o.info is None or o.info.get('status') == 'unknown':
                o.info = dict(status='refuted', formula=str(f)[:1500], path=[str(p)[:300] for p in self.pc][-40:], notes=[str(x) for x in self.notes[-30:]],
                              model={} if model is None else {str(d): str(model[d])[:200] for d in model.decls()[:60]}, decisions=list(self.dec), solver=backend,
                              **{k: str(v)[:600] for k, v in info.items()})
        else:
            o.unknown += 1
            if o.info is None: o.info = dict(status='unknown', formula=str(f)[:1500])
        # the rest of the path may rely on it
        if r == z3.unsat and backend != 'evaluation': self.assume(f)

    def fail(self, name, why): self.prove(name, False, why=why)

    def event(self, kind, subject, *rest):
        self.trace.append((kind, subject) + rest)


def cvc5_check(fs, S):
    try:
        import cvc5
    except ImportError:
        return None
    try:
        s = z3.Solver()
        for f in fs: s.add(f)
        text = s.to_smt2()
        STATS['cvc5'] += 1
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption('tlimit-per', str(QUERY_MS)); slv.setLogic('ALL')
        p = cvc5.InputParser(slv); p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
        sm = p.getSymbolManager(); res = None
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            out = c.invoke(slv, sm)
            out = str(out).strip()
            if out in ('sat', 'unsat', 'unknown'): res = out
        return {'unsat': z3.unsat, 'sat': z3.sat}.get(res)
    except Exception:
        return None


class Session(object):
    'the exploration of one contract'
    def __init__(self, deadline, cross=False, max_paths=4000):
        self.deadline = deadline; self.obl = {}; self.paths = 0; self.ended = 0; self.cut = 0
        self.hyp = {}; self.restarts = 0; self.max_paths = max_paths; self.cross = cross
        self.crossed = dict(agree=0, disagree=0, unknown=0)
        self.unsupported = None; self.error = None

    def explore(self, fn):
        global CTX
        while True:
            try:
                self._explore(fn); return self
            except Restart:
                self.restarts += 1
                self.obl = {}; self.paths = self.ended = self.cut = 0
                if self.restarts > 60: self.unsupported = 'loop hypotheses did not stabilise'; return self
            except Unsupported as e:
                self.unsupported = str(e) or 'unsupported'; return self
            finally:
                CTX = None

    def _explore(self, fn):
        global CTX
        todo = [[]]
        while todo:
            pre = todo.pop()
            c = CTX = Ctx(pre, self)
            self.paths += 1
            if self.paths > self.max_paths: raise Unsupported('more than %d paths' % self.max_paths)
            try:
                fn(c)
                self.ended += 1
            except PathDone: self.cut += 1
            except Infeasible: pass
            except (Unsupported, Restart): raise
            c.done = True
            todo.extend(c.alts)


# ---------------------------------------------------------------------------------------------------------------
# frames

class Poison(object):
    'a local whose value after a loop is unknown'
    def __init__(self, why): self.__dict__['why'] = why
    def _bad(self, *a, **k): raise Unsupported('use of ' + self.__dict__['why'])
    __getattr__ = __setattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = _bad
    __hash__ = None


def same(a, b):
    'is value b the same as value a as far as anything tracked can tell (True/False or a formula)'
    if a is b: return True
    m = getattr(a, '_same_', None)
    if m is not None and type(a) is type(b): return m(b)
    if isinstance(a, Poison) or isinstance(b, Poison): return isinstance(a, Poison) and isinstance(b, Poison)
    from . import vals
    if vals.is_sym(a) or vals.is_sym(b):
        try: r = (a == b)
        except Unsupported: return False
        return r.e if hasattr(r, 'e') else bool(r)
    if type(a) is not type(b): return False
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return False
        r = True
        for x, y in zip(a, b): r = conj(r, same(x, y))
        return r
    if isinstance(a, set): return a == b
    if isinstance(a, dict):
        if list(a) != list(b): return False
        r = True
        for k in a: r = conj(r, same(a[k], b[k]))
        return r
    if isinstance(a, (int, float, str, bool, type(None), frozenset)): return a == b or (a != a and b != b)
    try:
        import numpy as np
        if isinstance(a, np.ndarray): return a.shape == b.shape and bool(np.array_equal(a, b))
    except Exception: pass
    return False


def conj(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return z3.And(a, b)


def snap(v):
    'a copy of a value deep enough to notice changes made in place'
    if isinstance(v, list): return [snap(x) for x in v]
    if type(v) is set: return set(v)
    if isinstance(v, dict) and not hasattr(v, '_snap_'): return {k: snap(x) for k, x in v.items()}
    m = getattr(type(v), '_snap_', None)
    if m is not None: return m(v)
    return v


def inplace(v, c):
    'a local that can be changed in place and is not watched as a tracked object'
    if type(v) in (list, dict, set): return True
    return hasattr(type(v), '_snap_') and not hasattr(v, '_f') and not any(v is o for o in c.tracked)


def irrelevant(x):
    return bool(getattr(x, '_irr_', False))


class Irr(object):
    """A segment of any number (also none) of elements nothing is claimed about.  make() gives an arbitrary one of them;
    measures: name -> function of the element giving how much it adds to a running sum; totals: name -> sum over the segment."""
    _irr_ = True
    def __init__(self, make, measures=None, totals=None, label='others', loose=None, collect=None, twin=None):
        # collect: (maker, test): what the body may put into lists for elements of this segment
        self.collect = collect; self.twin = twin
        # loose: objects with _blur_(), a part of whose state the body may change freely for elements of this segment
        self.make = make; self.measures = measures or {}; self.totals = totals or {}; self.label = label; self.loose = loose or []
    def _same_(self, o): return True


def has_irr(v): return isinstance(v, (list, tuple)) and any(isinstance(x, Irr) for x in v)


class At(object):
    'a witness element; enter is called when the loop gets to it'
    def __init__(self, x, enter): self.x = x; self.enter = enter


class ConcreteLoop(object):
    sym = False
    def __init__(self, it): self.it = it
    def __iter__(self): return iter(self.it)


class Loop(object):
    """for-loops over a witness sequence: a list whose entries are elements (about which something is claimed) and segments
    Irr of any number of others.  For each segment the path forks: one path executes the body for an arbitrary element of the
    segment from the state reached and has to show that nothing tracked changes (then it ends), the other goes on behind
    the segment.  Running sums (e.g. an offset) are allowed to move by the measure of the element; which sum a local is, is
    found by trial (session.hyp).  Leaving the loop in the body (break, return, raise) goes on as a path of its own."""
    sym = True
    def __init__(self, seq, site, names):
        self.seq = list(seq); self.site = site; self.names = names; self.vals = {}; self.frame = None; self.twins = {}
        self.had_irr = any(isinstance(x, Irr) for x in self.seq)

    def __iter__(self):
        c = ctx(); S = c.session
        f = sys._getframe(1)
        if f.f_code.co_flags & 0x20 and self.had_irr and not c.ghost.get('generator'):
            # the locals of whoever consumes the generator would be out of sight
            raise Unsupported('a generator over a symbolic collection without a contract (%s)' % self.site)
        loc = f.f_locals
        self.pre = {k for k in self.names if k in loc and not isinstance(loc[k], Poison)}
        # lists that are changed in place count as carried as well
        self.lists = {k for k, v in loc.items() if inplace(v, c) and v is not self.seq and not k.startswith('__')}
        self.force = {}
        def val(k): return self.force[k] if k in self.force else f.f_locals[k]
        for item in self.seq:
            if not isinstance(item, Irr):
                if isinstance(item, At): item.enter(); item = item.x
                yield item
                self.force = {}
                continue
            for o in item.loose: o._blur_()
            if self.covered(c, S, item, val): pass
            elif c.choose(2, self.site) == 0:
                part = {m: SInt_part(c, m) for m in item.measures}
                start = {}
                for k in self.pre | self.lists:
                    h = S.hyp.get((self.site, k), 'same')
                    v = val(k)
                    if h.startswith('sum:'): v = v + part[h[4:]]
                    elif h == 'irr-dict': pass
                    elif h in ('irr-list', 'irr-list2'):
                        if not (v and isinstance(v[-1], Irr)): v.append(Irr(item.collect[0] if item.collect else unknown_make))
                    elif h == 'falls': v = falls(v)
                    elif h == 'havoc': v = havoc(v)._havoc_() if k in self.pre else v._havoc_in_()
                    elif h == 'poison': v = Poison('loop-carried local %s at %s' % (k, self.site))
                    start[k] = self.force[k] = v
                el = item.make()
                for m, t in item.totals.items():
                    if m in part: c.assume(part[m].e + _ex(item.measures[m](el)) <= _ex(t))
                before = {k: (v if k in self.pre else v._copy_()) if hasattr(v, '_havoc_') and S.hyp.get((self.site, k)) == 'havoc' else snap(v) for k, v in start.items()}
                tr = len(c.trace); st = [(o, snap(o)) for o in c.tracked]; gh = snap(c.ghost)
                yield el
                # the body ran to its end
                now = f.f_locals
                for k in start:
                    h = S.hyp.get((self.site, k), 'same')
                    if h == 'poison': continue
                    v = now.get(k)
                    if h == 'havoc':
                        v = havoc(v)
                        if type(v) is type(before[k]) and v._havoc_same_(before[k]): continue
                        self.refine(S, k, h, item, v)
                    if h == 'falls':
                        from . import vals
                        if isinstance(v, (bool, vals.SBool)) and c.entails(z3.Implies(vals.bexpr(v), vals.bexpr(before[k]))): continue
                        self.refine(S, k, h, item, v)
                    if h == 'irr-dict':
                        if any(not irrelevant(x) and (x not in before[k] or same(before[k][x], snap(v[x])) is not True) for x in v) or any(x not in v for x in before[k]): self.refine(S, k, h, item, v)
                        continue
                    if h == 'irr-list' and any(x is not el and not isinstance(x, Irr) for x in v[len(before[k]):]): self.refine(S, k, h, item, v)
                    if h == 'irr-list2' and item.collect:
                        if not all(isinstance(x, Irr) or item.collect[1](x) for x in v[len(before[k]):]): self.refine(S, k, h, item, v)
                        if len(v) < len(before[k]) or any(x is not y and same(x, y) is not True for x, y in zip(before[k], v)): self.refine(S, k, h, item, v)
                        continue
                    want = start[k] + item.measures[h[4:]](el) if h.startswith('sum:') else before[k]
                    ok = same(canon(want), canon(snap(v)))
                    if ok is True or (ok is not False and c.entails(ok)): continue
                    self.refine(S, k, h, item, v)
                for o, s in st + [(c.ghost, gh)]:
                    if any(o is l for l in item.loose): s = o._loose_(s); n = o._loose_(snap(o))
                    else: n = snap(o)
                    ok = same(s, n)
                    if ok is not True: c.prove('frame: an element of %s leaves everything else alone' % item.label, ok if ok is not False else z3.BoolVal(False), object=repr(o)[:200], site=self.site)
                for ev in c.trace[tr:]:
                    c.prove('frame: an element of %s causes events only about itself' % item.label, irrelevant(ev[1]), event=ev, site=self.site)
                raise PathDone()
            # behind the segment
            for k in self.pre | self.lists:
                h = S.hyp.get((self.site, k), 'same')
                if h.startswith('sum:'): self.force[k] = val(k) + item.totals[h[4:]]
                elif h in ('irr-list', 'irr-list2'):
                    v = val(k); mk = item.make if h == 'irr-list' else item.collect[0] if item.collect else unknown_make
                    if not (v and isinstance(v[-1], Irr)): v.append(Irr(mk, label=item.label))
                    elif v[-1].make is not mk: v[-1] = Irr(unknown_make)
                elif h == 'falls': self.force[k] = falls(val(k))
                elif h == 'havoc' and k in self.pre: self.force[k] = havoc(val(k))._havoc_()
                elif h == 'havoc': val(k)._havoc_in_()
                elif h == 'poison': self.force[k] = Poison('loop-carried local %s at %s' % (k, self.site))

    def covered(self, c, S, item, val):
        """a segment made like an earlier one, reached in a state no more general than the one its body was executed from then"""
        if item.twin is None: return False
        here = ({k: snap(val(k)) for k in self.pre | self.lists if S.hyp.get((self.site, k), 'same') not in ('havoc', 'poison', 'falls')},
                [(o, o._loose_(snap(o)) if any(o is l for l in item.loose) else snap(o)) for o in c.tracked], snap(c.ghost), {k: val(k) for k in self.pre if S.hyp.get((self.site, k)) == 'falls'})
        old = self.twins.get(item.twin)
        if old is None: self.twins[item.twin] = here; return False
        if set(old[0]) != set(here[0]) or len(old[1]) != len(here[1]) or any(v is not True for v in old[3].values()): return False
        return all(same(canon(old[0][k]), canon(here[0][k])) is True for k in old[0]) and all(a[0] is b[0] and same(a[1], b[1]) is True for a, b in zip(old[1], here[1])) and same(old[2], here[2]) is True

    def refine(self, S, k, h, item, v):
        order = ['same'] + (['falls'] if type(v).__name__ in ('bool', 'SBool') and k in self.pre else []) + (['sum:' + m for m in item.measures] if k in self.pre else []) + (['irr-list', 'irr-list2'] if isinstance(v, list) else []) + (['irr-dict'] if isinstance(v, dict) else []) + (['havoc'] if hasattr(type(havoc(v)), '_havoc_' if k in self.pre else '_havoc_in_') else []) + (['poison'] if k in self.pre else [])
        i = order.index(h) + 1 if h in order else len(order) - 1 if h == 'havoc' else len(order)
        if i >= len(order): raise Unsupported('collection %s changed by a loop at %s' % (k, self.site))
        S.hyp[(self.site, k)] = order[i]
        raise Restart()

    # called by the instrumented code at the top of the body and in the else clause
    def get(self, k, loc):
        if k in self.pre:
            if k in self.force: return self.force[k]
            return loc[k]
        if self.had_irr: return Poison('local %s of the loop body at %s' % (k, self.site))
        return loc.get(k, Poison('unbound local ' + k))
    out = get


def falls(v):
    'a truth value that may have become false'
    from . import vals
    b = vals.fresh_bool('still'); ctx().assume(z3.Implies(b.e, vals.bexpr(v)))
    return b


def unknown_make(): raise Unsupported('iteration over elements collected by another loop')


def havoc(v):
    'an integer array as an index set, so that a loop may change it arbitrarily'
    if type(v).__name__ == 'ndarray' and v.ndim == 1 and (v.size == 0 or v.dtype.kind == 'i'):
        from . import index
        return index.SIdx.of(v)
    return v


class IrrTuple(tuple):
    'a tuple nothing is claimed about'
    _irr_ = True


def canon(v):
    'a list up to the irrelevant elements next to a segment of irrelevant elements'
    if not isinstance(v, list) or not any(isinstance(x, Irr) for x in v): return v
    out = list(v)
    while True:
        for i in range(len(out) - 1):
            a, b = out[i], out[i + 1]
            if isinstance(a, Irr) and (isinstance(b, Irr) or irr_deep(b)): del out[i + 1]; break
            if isinstance(b, Irr) and irr_deep(a): del out[i]; break
        else: return out


def irr_deep(x):
    if irrelevant(x): return True
    return isinstance(x, tuple) and any(irr_deep(y) for y in x)


def _ex(v):
    return v.e if hasattr(v, 'e') else v


def SInt_part(c, m):
    from . import vals
    v = vals.fresh_int('part_' + m)
    c.assume(v.e >= 0)
    return v


CHAIN_STEP = lambda names, loc: {}


class NoLoop(object):
    'a while loop without an invariant: runs as it is, but only so often (chains of ancestors: plist.chain_step)'
    def __init__(self, names=()): self.n = 0; self.names = names
    def step(self, loc):
        self.new = CHAIN_STEP(self.names, loc)
        if self.new: return True
        self.n += 1
        if self.n > 60: raise Unsupported('while loop without an invariant does not end')
        return False
    def get(self, k, loc):
        if k in self.new: return self.new[k]
        return loc[k] if k in loc else Poison('unbound local ' + k)


class While(object):
    """inv: object with havoc(locals) -> new values of the names and the assumption, and check(locals, where)"""
    def __init__(self, inv, site, names): self.inv = inv; self.site = site; self.names = names; self.state = 0; self.new = {}
    def step(self, loc):
        c = ctx()
        if self.state == 0:
            self.inv.check(dict(loc), 'entry', self.names)
            self.new = self.inv.havoc(dict(loc), self.names)
            self.state = 1
            return True
        self.inv.check(dict(loc), 'preserved', self.names)
        raise PathDone()
    def get(self, k, loc):
        if k in self.new: return self.new[k]
        if k in loc: return loc[k]
        return Poison('local %s of the loop' % k)
