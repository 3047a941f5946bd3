"""Independent specification model of a paramz hierarchy (the oracle of the run-time contracts).

Nothing in here calls paramz' own index, fix, constraint or transformation code to compute an
expected result: the expected state is a plain forest of nodes over parameter *entries*, each entry
having a value, at most one constraint, a fixed flag and a set of annotations.
"""
import itertools, math
import numpy as np

# ---------------------------------------------------------------- constraints (own formulas)
def _lp(x):   # log(1+exp(x))
    return x if x > 36 else math.log1p(math.exp(x))
def _lpi(f):
    return f if f > 36 else math.log(math.expm1(f))

class Con(object):
    """A constraint: key identifies it (class name + bounds)."""
    def __init__(self, key):
        self.key = key
        self.kind = key[0]
    def f(self, x):
        k = self.kind
        if k == 'Logexp': return _lp(x)
        if k == 'NegativeLogexp': return -_lp(x)
        if k == 'Exponent': return math.exp(x)
        if k == 'NegativeExponent': return -math.exp(x)
        if k == 'Square': return x * x
        if k == 'Logistic':
            l, u = self.key[1:]
            return l + (u - l) / (1. + math.exp(-x))
    def finv(self, v):
        k = self.kind
        if k == 'Logexp': return _lpi(v)
        if k == 'NegativeLogexp': return _lpi(-v)
        if k == 'Exponent': return math.log(v)
        if k == 'NegativeExponent': return math.log(-v)
        if k == 'Square': return math.sqrt(v)
        if k == 'Logistic':
            l, u = self.key[1:]
            return math.log((v - l) / (u - v))
    def d(self, v):
        """df/dx at f(x) = v"""
        k = self.kind
        if k == 'Logexp': return 1. if v > 36 else -math.expm1(-v)
        if k == 'NegativeLogexp': return math.expm1(v)
        if k == 'Exponent': return v
        if k == 'NegativeExponent': return v
        if k == 'Square': return 2 * math.sqrt(v)
        if k == 'Logistic':
            l, u = self.key[1:]
            return (v - l) * (u - v) / (u - l)
    def init(self, v):
        k = self.kind
        if k in ('Logexp', 'Exponent', 'Square'): return abs(v)
        if k in ('NegativeLogexp', 'NegativeExponent'): return -abs(v)
        l, u = self.key[1:]
        return v if l <= v <= u else (l + u) / 2.
    def legal(self, v, strict=False):
        k = self.kind
        if k in ('Logexp', 'Exponent', 'Square'): return v > 0 if strict else v >= 0
        if k in ('NegativeLogexp', 'NegativeExponent'): return v < 0 if strict else v <= 0
        l, u = self.key[1:]
        return l < v < u if strict else l <= v <= u

CONS = [('Logexp',), ('NegativeLogexp',), ('Exponent',), ('NegativeExponent',), ('Square',),
        ('Logistic', 0., 1.), ('Logistic', -2., 3.), ('Logistic', 0.5, 4.)]

def key_of(real):
    """key of a real paramz property object"""
    if isinstance(real, str): return real
    n = type(real).__name__
    if n == 'Logistic': return (n, float(real.lower), float(real.upper))
    return (n,)

class Entry(object):
    __slots__ = ('v', 'con', 'fixed', 'ann')
    def __init__(self, v):
        self.v = float(v); self.con = None; self.fixed = False; self.ann = frozenset()
    def clone(self):
        e = Entry(self.v); e.con = self.con; e.fixed = self.fixed; e.ann = self.ann
        return e

class S(object):
    """spec node"""
    def __init__(self, real, leaf, name, entries=None, shape=None):
        self.real = real; self.leaf = leaf; self.name = name
        self.parent = None; self.children = []; self.e = entries; self.shape = shape
    def entries(self):
        if self.leaf: return list(self.e)
        return [x for c in self.children for x in c.entries()]
    def nodes(self):
        out = [self]
        for c in self.children: out += c.nodes()
        return out
    def leaves(self):
        return [n for n in self.nodes() if n.leaf]
    def root(self):
        n = self
        while n.parent is not None: n = n.parent
        return n
    def ancestors(self):
        out = []; n = self.parent
        while n is not None: out.append(n); n = n.parent
        return out
    def path(self):
        return '.'.join([n.name for n in reversed(self.ancestors())] + [self.name])
    def offset_in(self, anc):
        off = 0; n = self
        while n is not anc:
            p = n.parent
            for c in p.children:
                if c is n: break
                off += len(c.entries())
            n = p
        return off
    def free(self):
        return [x for x in self.entries() if not x.fixed]
    def clone_into(self, real, emap):
        """parallel structure for a copy: real is the copied real object"""
        if self.leaf:
            es = []
            for x in self.e:
                y = x.clone(); emap[id(x)] = y; es.append(y)
            return S(real, True, self.name, es, self.shape)
        n = S(real, False, self.name)
        for c, r in zip(self.children, real.parameters):
            k = c.clone_into(r, emap); k.parent = n; n.children.append(k)
        return n
