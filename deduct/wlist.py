"""A list seen through one witness entry: n0 entries before it (nothing known about them but what before()/after() say), the
witness (or not), any number behind it.  Positions are symbolic integers."""
import z3
from . import rt, vals, shim
from .rt import Irr, Unsupported, ctx
from .vals import Sym, SNum, num, fresh_int


class WList(Sym):
    def __init__(self, witness, before, after, name='list', n0=None, marks=None):
        self.name = name; self.w = witness; self.before = before; self.after = after
        self.n0 = n0
        if self.n0 is None: self.n0 = fresh_int('before'); ctx().assume(self.n0.e >= 0)
        self.added = {}                   # relative place of entries put in: 'before'/'after' the witness
        self.log = []
        ctx().tracked.append(self)
    def _snap_(self): return [self.w, self.n0, dict(self.added)]
    def _loose_(self, s): return [s[0], s[2]]
    def _blur_(self): self.n0 = fresh_int('before'); ctx().assume(self.n0.e >= 0)
    _irr_ = False
    def _segs(self):
        b = Irr(self.before, dict(count=lambda e: 1), dict(count=self.n0), 'the entries before')
        k = fresh_int('behind'); ctx().assume(k.e >= 0)
        a = Irr(self.after, dict(count=lambda e: 1), dict(count=k), 'the entries behind')
        return [b] + ([self.w] if self.w is not None else []) + [a], k
    def _iter_(self): return self._segs()[0]
    def _len_(self):
        n = fresh_int('len'); ctx().assume(n.e >= self.n0.e + (1 if self.w is not None else 0))
        return n
    __len__ = _len_
    def _where(self, i):
        'before / at / behind the witness'
        i = num(i)
        if i is None: raise Unsupported('position in a list')
        c = ctx()
        if c.decide(i < 0): raise Unsupported('negative position')
        if c.decide(i < self.n0.e): return 'before'
        if self.w is not None and c.decide(i == self.n0.e): return 'at'
        return 'after'
    def insert(self, i, x):
        c = ctx(); e = num(i)
        if c.decide(e < 0): raise Unsupported('negative position')
        if c.decide(e <= self.n0.e): self.added[id(x)] = 'before'; self.n0 = self.n0 + 1
        else: self.added[id(x)] = 'after'
        self.log.append(x)
    def append(self, x): self.added[id(x)] = 'after'; self.log.append(x)
    def __getitem__(self, i):
        if isinstance(i, slice): raise Unsupported('slice of a list')
        p = self._where(i)
        return self.w if p == 'at' else self.before() if p == 'before' else self.after()
    def __delitem__(self, i):
        p = self._where(i)
        if p == 'at': self.w = None
        elif p == 'before': self.n0 = self.n0 - 1
    def _filter_(self, fn, site):
        'comprehension over the list: what becomes of the entries'
        c = ctx()
        def img(make):
            r = list(fn([make()]))
            if len(r) > 1: raise Unsupported('comprehension giving several entries')
            return r[0] if r else None
        def mk(make):
            def g():
                r = img(make)
                if r is None: raise rt.Infeasible()
                return r
            return g
        w = None
        if self.w is not None:
            w = img(lambda: self.w)
        n = WList.__new__(WList)
        n.name = self.name + "'"; n.w = w; n.before = mk(self.before); n.after = mk(self.after); n.added = {}; n.log = []
        n.n0 = fresh_int('before'); c.assume(z3.And(n.n0.e >= 0, n.n0.e <= self.n0.e))
        if self.added: raise Unsupported('comprehension over a changed list')
        return n
    def __repr__(self): return '<%s>' % self.name
