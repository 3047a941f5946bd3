"""Random histories of public operations on real paramz hierarchies, checked after every step against
the independent specification model in spec.py (run-time contract checking; bounded, never a proof)."""
import random, re, pickle, io, os, tempfile, logging, warnings, math, copy as _copy
import numpy as np
import paramz
from paramz import Param, Parameterized, transformations as TR
from paramz.core import HierarchyError
from paramz.core.index_operations import ParameterIndexOperations
from paramz.param import ParamConcatenation
from .spec import Con, CONS, key_of, Entry, S
from . import classes
from .classes import Node, Mod, TRACE, wt

logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
np.seterr(all='ignore')

NAMES = ['a', 'b', 'c', 'len scale', 'x', 'x_1', 'k', 'w.v', 'q', 'len_scale', 'zeta_7', 'u']


class Mismatch(Exception):
    def __init__(self, comp, detail):
        Exception.__init__(self, comp, detail)
        self.comp, self.detail = comp, detail


class Skip(Exception):
    """operation not applicable (outside the domain of the property)"""


def pname(n):
    return n.replace(' ', '_').replace('.', '_').replace('-', '_m_')


# ------------------------------------------------------------------ index descriptors
def mkidx(d):
    k = d[0]
    if k == 'all': return slice(None)
    if k == 's': return slice(d[1], d[2], d[3])
    if k == 'i': return list(d[1])
    if k == 'm': return np.array(d[1], dtype=bool)
    if k == 'n': return d[1]
    if k == 'e': return Ellipsis
    if k == 't': return tuple(mkidx(x) for x in d[1])
    raise ValueError(d)


def gen_idx(rng, shape, scalar=True):
    n = int(np.prod(shape))
    for _ in range(40):
        k = rng.choice(['all', 's', 's', 'i', 'm', 'n', 'e', 't', 't'])
        if k == 'all': d = ['all']
        elif k == 'e': d = ['e']
        elif k == 's':
            d = ['s', rng.choice([None, 0, 1, -2]), rng.choice([None, 1, 2, -1, 99]), rng.choice([None, 1, 2, -1])]
        elif k == 'i':
            m = shape[0]
            d = ['i', rng.sample(range(-m, 0) if rng.random() < .3 else range(m), rng.randint(1, m))]
        elif k == 'm':
            d = ['m', (np.array([rng.random() < .5 for _ in range(n)]).reshape(shape)).tolist()]
        elif k == 'n':
            d = ['n', rng.randrange(-shape[0], shape[0])]
        else:
            if len(shape) < 2: continue
            parts = []
            for m in shape[:rng.randint(1, len(shape))]:
                c = rng.random()
                if c < .4: parts.append(['s', rng.choice([None, 0, 1]), None, rng.choice([None, 2])])
                elif c < .7: parts.append(['n', rng.randrange(m)])
                else: parts.append(['all'])
            if rng.random() < .2: parts = [['e']] + parts[-1:]
            d = ['t', parts]
        try:
            sel = np.arange(n).reshape(shape)[mkidx(d)]
        except Exception:
            continue
        if np.size(sel) == 0: continue
        if np.ndim(sel) == 0 and not scalar: continue
        return d
    return ['all']


def positions(shape, d):
    return np.arange(int(np.prod(shape))).reshape(shape)[mkidx(d)]


def idx_str(d):
    k = d[0]
    if k == 'all': return ':'
    if k == 'e': return '...'
    if k == 's': return ':'.join('' if x is None else str(x) for x in d[1:])
    if k == 't': return ','.join(idx_str(x) for x in d[1])
    return str(d[1])


# ------------------------------------------------------------------ values
def legal_value(rng, con):
    if con is None: return rng.choice([-1, 1]) * rng.uniform(.3, 3)
    k = con[0]
    if k in ('Logexp', 'Exponent', 'Square'): return rng.uniform(.3, 3)
    if k in ('NegativeLogexp', 'NegativeExponent'): return -rng.uniform(.3, 3)
    l, u = con[1:]
    return rng.uniform(l + .1 * (u - l), u - .1 * (u - l))


def common_value(rng, entries):
    """one scalar legal for all entries, or None"""
    cons = set(e.con for e in entries)
    for _ in range(30):
        v = legal_value(rng, rng.choice(sorted(cons, key=str)))
        if all(c is None or (Con(c).legal(v, True) and (c[0] != 'Logistic' or
               c[1] + .05 * (c[2] - c[1]) < v < c[2] - .05 * (c[2] - c[1]))) for c in cons):
            return v
    return None


def make_con(key):
    return getattr(TR, key[0])(*key[1:])


class World(object):
    ANN = 'marks'
    held = None               # a list to keep (leaf, index, part of the parameter taken some time ago)

    def __init__(self, rng, model=None, annotate=False, nroots=2, small=False):
        self.rng = rng
        self.roots = []
        self.log = []
        self.k = 0
        self.annotate = annotate
        self.evals = []           # (returned gradient, copy) pairs
        self.oldnames = {}        # id(S) -> set of printable names used before
        self.opname = 'init'
        self.quiet = False; self.checks = 0
        del TRACE[:]
        for _ in range(nroots):
            mod = (rng.random() < .6) if model is None else model
            self.add_root(self.rand_node(2 if not small else 1, mod))
        self.compare_all(optvec=False)

    # ---------------------------------------------------------------- building
    def fresh_name(self):
        return self.rng.choice(NAMES)

    def rand_leaf(self, shape=None):
        rng = self.rng
        shape = shape or rng.choice([(1,), (2,), (3,), (4,), (2, 2), (3, 2), (2, 1, 2), (1, 3), (1, 2, 3)])
        n = int(np.prod(shape))
        con = rng.choice(CONS) if rng.random() < .25 else None
        vals = [legal_value(rng, con) for _ in range(n)]
        a = np.array(vals).reshape(shape)
        style = rng.random()
        if style < .15: a = np.asfortranarray(a)
        elif style < .25:
            b = np.zeros(tuple(2 * s for s in shape)); b[tuple(slice(None, None, 2) for _ in shape)] = a
            a = b[tuple(slice(None, None, 2) for _ in shape)]
        elif style < .35: a = a.tolist()
        name = self.fresh_name()
        p = Param(name, a, make_con(con)) if con else Param(name, a)
        es = [Entry(v) for v in vals]
        for e in es: e.con = con
        s = S(p, True, name, es, shape)
        if self.annotate:
            p.add_index_operation(self.ANN, ParameterIndexOperations())
        return s

    def rand_node(self, depth, mod=False, empty=False):
        rng = self.rng
        n = 0 if empty else rng.randint(1, 3)
        kids = []
        for _ in range(n):
            if depth > 0 and rng.random() < .45: kids.append(self.rand_node(depth - 1))
            else: kids.append(self.rand_leaf())
        name = self.fresh_name()
        cls = Mod if mod else Node
        if rng.random() < .5 and not self.annotate:
            r = cls(name, parameters=[k.real for k in kids])
        else:
            r = cls(name)
            if self.annotate: r.add_index_operation(self.ANN, ParameterIndexOperations())
            for k in kids: r.link_parameter(k.real)
        s = S(r, False, name)
        s.children = kids
        for k in kids:
            k.parent = s
        self.adopt_names(s, set(x for x in s.nodes()))
        return s

    def add_root(self, s):
        s.parent = None
        s.on = True
        self.roots.append(s)
        return s

    def ann_of(self, real):
        return real._index_operations[self.ANN]

    # ---------------------------------------------------------------- addressing
    def addr(self, s):
        path = []
        while s.parent is not None:
            path.append([i for i, c in enumerate(s.parent.children) if c is s][0])
            s = s.parent
        return [[i for i, r in enumerate(self.roots) if r is s][0]] + path[::-1]

    def at(self, a):
        s = self.roots[a[0]]
        for i in a[1:]: s = s.children[i]
        return s

    def all_nodes(self):
        return [n for r in self.roots for n in r.nodes()]

    def pick(self, pred=lambda s: True, prefer=None):
        c = [n for n in self.all_nodes() if pred(n)]
        if not c: raise Skip()
        if prefer:
            d = [n for n in c if prefer(n)]
            if d and self.rng.random() < .7: c = d
        return self.rng.choice(c)

    # ---------------------------------------------------------------- names
    def adopt_names(self, top, may_rename, comp='names'):
        """take over names changed by clash resolution; only nodes with a clash in their family may be renamed"""
        for n in top.nodes():
            if n.leaf: continue
            want = [c.name for c in n.children]
            got = [c.real.name for c in n.children]
            # siblings whose resolved names can be forced to change: those in a clash cluster
            if len(set(want)) == len(want) and want != got:
                raise Mismatch(comp, 'children of %s renamed without a clash: %r -> %r' % (n.path(), want, got))
            if len(set(got)) != len(got):
                raise Mismatch(comp, 'siblings of %s share a name: %r' % (n.path(), got))
            fam = set(w for w in want if want.count(w) > 1)
            for c, w, g in zip(n.children, want, got):
                if w != g:
                    self.oldnames.setdefault(id(n), set()).add(pname(w))
                    c.name = g
            if fam:
                # at least one of a clash keeps its name, bystanders keep theirs unless they collide with a new name
                for f in fam:
                    if f not in got:
                        raise Mismatch(comp, 'nobody kept the name %r below %s: %r' % (f, n.path(), got))
                base = set(re.sub(r'(_\d+)+$', '', f) for f in fam)
                for w, g in zip(want, got):
                    if w != g and re.sub(r'(_\d+)+$', '', w) not in base:
                        raise Mismatch(comp, 'uninvolved child of %s renamed %r -> %r' % (n.path(), w, g))

    # ---------------------------------------------------------------- comparison
    def close(self, a, b):
        return abs(a - b) <= 1e-7 * max(1e-3, abs(a), abs(b))

    def con_pairs(self, real):
        d = {}
        for k, ind in real.constraints.items():
            key = key_of(k)
            l = [int(i) for i in ind]
            if l != sorted(set(l)): raise Mismatch('constraints', 'positions of %r not sorted and distinct: %r' % (key, l))
            if key in d: raise Mismatch('constraints', 'two properties for the same constraint %r' % (key,))
            if not l: raise Mismatch('constraints', 'property %r without positions' % (key,))
            d[key] = l
        return d

    def compare_all(self, approx=(), optvec=True, comps=None, roots=None):
        """raise Mismatch for the first difference; afterwards values are synchronised"""
        self.checks += 1
        out = []
        quiet = self.quiet and self.rng.random() < .7
        for r in (self.roots if roots is None else roots):
            fs = [self.cmp_sizes, self.cmp_optvec if optvec else None, self.cmp_indices]
            self.rng.shuffle(fs)
            for f in [self.cmp_structure, self.cmp_values, self.cmp_constraints, self.cmp_names, self.cmp_memory] + fs + [self.cmp_attrs]:
                # reading these refreshes what the nodes remember: in a quiet history most steps are not followed by reading
                if f is None or (quiet and f in (self.cmp_sizes, self.cmp_optvec, self.cmp_indices)): continue
                try:
                    f(r, approx) if f == self.cmp_values else f(r)
                except Mismatch as m:
                    out.append(m)
                    if m.comp in ('structure',): break
                except Exception as e:
                    out.append(Mismatch(f.__name__[4:], '%s: %s' % (type(e).__name__, e)))
        if out:
            raise Mismatches(out)
        for r in self.roots:
            for l in r.leaves():
                for e, v in zip(l.e, l.real.view(np.ndarray).ravel()): e.v = float(v)

    def cmp_structure(self, r):
        bad = lambda *a: Mismatch('structure', ' '.join(map(str, a)))
        for n in r.nodes():
            if n.leaf: kids = []
            else: kids = list(n.real.parameters)
            if len(kids) != len(n.children) or any(k is not c.real for k, c in zip(kids, n.children)):
                raise bad('children of', n.path(), 'are', [k.name for k in kids], 'expected', [c.name for c in n.children])
            if n.real.size != len(n.entries()):
                raise bad('size of', n.path(), 'is', n.real.size, 'expected', len(n.entries()))
            if (n.parent is None) == bool(n.real.has_parent()):
                raise bad(n.path(), 'has_parent() =', n.real.has_parent())
            if n.parent is not None:
                if n.real._parent_ is not n.parent.real: raise bad(n.path(), 'reports a wrong parent')
                i = [j for j, c in enumerate(n.parent.children) if c is n][0]
                if n.real._parent_index_ != i: raise bad(n.path(), 'has parent index', n.real._parent_index_, 'expected', i)
            if n.real._highest_parent_ is not r.real: raise bad(n.path(), 'reports a wrong root')
            if bool(n.real.update_model()) != r.on: raise Mismatch('updates', '%s: updates %r, expected %r' % (n.path(), n.real.update_model(), r.on))

    def cmp_values(self, r, approx):
        ap = set(id(e) for e in approx)
        for n in r.nodes():
            got = np.asarray(n.real.param_array if not n.leaf else n.real.values).ravel() if n.leaf else np.asarray(n.real.param_array).ravel()
            es = n.entries()
            if got.size != len(es): raise Mismatch('values', '%s has %d values, expected %d' % (n.path(), got.size, len(es)))
            for i, (e, g) in enumerate(zip(es, got)):
                ok = (e.v == g) if id(e) not in ap else self.close(e.v, g)
                if not ok:
                    raise Mismatch('values', '%s entry %d is %r, expected %r' % (n.path(), i, float(g), e.v))

    def cmp_constraints(self, r):
        for n in r.nodes():
            got = self.con_pairs(n.real)
            want = {}
            for i, e in enumerate(n.entries()):
                if e.con is not None: want.setdefault(e.con, []).append(i)
                if e.fixed: want.setdefault('fixed', []).append(i)
            if got != want:
                f = 'fixed' if got.get('fixed') != want.get('fixed') and all(got.get(k) == want.get(k) for k in set(got) | set(want) if k != 'fixed') else 'constraints'
                raise Mismatch(f, '%s has %r, expected %r' % (n.path(), got, want))
            es = n.entries()
            if es and bool(n.real.is_fixed) != all(e.fixed for e in es):
                raise Mismatch('fixed', '%s.is_fixed is %r, fixed entries %r of %d' % (n.path(), n.real.is_fixed, want.get('fixed'), len(es)))
            if self.annotate:
                d = {}
                for k, ind in self.ann_of(n.real).items(): d[k] = [int(i) for i in ind]
                w = {}
                for i, e in enumerate(es):
                    for a in sorted(e.ann): w.setdefault(a, []).append(i)
                if d != w: raise Mismatch('annot', '%s has annotations %r, expected %r' % (n.path(), d, w))

    def cmp_names(self, r):
        for n in r.nodes():
            if n.real.name != n.name: raise Mismatch('names', '%s is called %r' % (n.path(), n.real.name))
            h = '.'.join(pname(x.name) for x in reversed(n.ancestors())) + ('.' if n.parent else '') + pname(n.name)
            if n.real.hierarchy_name() != h: raise Mismatch('names', 'hierarchy name %r, expected %r' % (n.real.hierarchy_name(), h))

    def cmp_attrs(self, r):
        for n in r.nodes():
            if n.leaf: continue
            ps = [pname(c.name) for c in n.children]
            cls = dir(type(n.real))
            for c, p in zip(n.children, ps):
                if ps.count(p) > 1 or p in cls: continue
                if getattr(n.real, p, None) is not c.real:
                    raise Mismatch('attrs', '%s.%s is not its child %r' % (n.path(), p, c.name))
            for p in self.oldnames.get(id(n), ()):
                if p in ps or p in cls: continue
                if hasattr(n.real, p): raise Mismatch('attrs', '%s still has the attribute %r' % (n.path(), p))
            if sorted(n.real.parameter_names(recursive=False)) != sorted(c.name for c in n.children):
                raise Mismatch('names', '%s.parameter_names is %r' % (n.path(), n.real.parameter_names(recursive=False)))

    def cmp_memory(self, r):
        if r.leaf: return
        ad = lambda a: a.__array_interface__['data'][0]
        b, g = ad(np.asarray(r.real.param_array)), ad(np.asarray(r.real.gradient_full))
        for n in r.nodes():
            if not n.entries(): continue
            o = n.offset_in(r) * 8
            pa = np.asarray(n.real.param_array); ga = np.asarray(n.real.gradient_full)
            if pa.dtype != np.float64 or ga.dtype != np.float64: raise Mismatch('memory', '%s dtype' % n.path())
            if not pa.flags['C_CONTIGUOUS'] or ad(pa) != b + o: raise Mismatch('memory', '%s does not share its values with the root' % n.path())
            if ga.size != len(n.entries()) or ad(ga) != g + o: raise Mismatch('memory', '%s does not share its gradient with the root' % n.path())
            if ad(np.asarray(n.real.gradient)) != g + o: raise Mismatch('memory', '%s.gradient is not its part of the root gradient' % n.path())
            if n.leaf and ga.shape != n.shape: raise Mismatch('memory', '%s gradient shape' % n.path())

    def cmp_sizes(self, r):
        for n in r.nodes():
            es = n.entries(); fr = [e for e in es if not e.fixed]
            if n.real._size_transformed() != len(fr):
                raise Mismatch('sizes', '%s transformed size %r, expected %d' % (n.path(), n.real._size_transformed(), len(fr)))
            for inc in (False, True):
                names = list(n.real.parameter_names_flat(include_fixed=inc))
                want = []
                for l in n.leaves():
                    h = l.real.hierarchy_name()
                    for k, e in enumerate(l.e):
                        if inc or not e.fixed: want.append((h, len(l.e) > 1, np.unravel_index(k, l.shape)))
                if len(names) != len(want): raise Mismatch('sizes', '%s has %d flat names, expected %d (fixed %s)' % (n.path(), len(names), len(want), inc))
                for nm, (h, multi, mi) in zip(names, want):
                    rest = nm[len(h):] if nm.startswith(h) else None
                    nums = [] if not rest else [int(x) for x in re.findall(r'\d+', rest)]
                    if rest is None or (multi and nums != [int(x) for x in mi]) or (not multi and rest not in ('', '[[0]]', '[0]')):
                        raise Mismatch('sizes', '%s flat name %r, expected %s%s' % (n.path(), nm, h, list(mi) if multi else ''))

    def cmp_indices(self, r):
        fr = {}
        k = 0
        for i, e in enumerate(r.entries()):
            if not e.fixed: fr[i] = k; k += 1
        cands = r.nodes()[1:] if not r.leaf else [r]
        parts = []
        for n in cands:
            off = n.offset_in(r)
            pos = [off + i for i in range(len(n.entries()))]
            sel = [(n.real, pos)]
            if n.leaf and n is not r and self.rng.random() < .5:
                d = gen_idx(self.rng, n.shape, scalar=False)
                sel.append((n.real[mkidx(d)], [off + int(i) for i in positions(n.shape, d).ravel()]))
            for real, pos in sel:
                if not pos: continue
                got = [int(i) for i in r.real._raveled_index_for(real)]
                if got != pos: raise Mismatch('indices', 'index of %s in the root is %r, expected %r' % (n.path(), got, pos))
                got = [int(i) for i in r.real._raveled_index_for_transformed(real)]
                want = [fr[p] for p in pos if p in fr]
                if got != want: raise Mismatch('indices', 'optimizer index of %s is %r, expected %r' % (n.path(), got, want))
                if n.leaf: parts.append((real, pos))
        # a concatenation put together by hand, in any order
        self.rng.shuffle(parts)
        mem, at, have = [], [], []
        for real, pos in parts[:4]:
            if real._original_ is not real or any(real is h for h in have): continue
            have.append(real); mem.append(real); at += pos
        if len(mem) > 1:
            from paramz.param import ParamConcatenation
            real = ParamConcatenation(mem)
            got = [int(i) for i in r.real._raveled_index_for(real)]
            if got != at: raise Mismatch('indices', 'index of the concatenation of %s in the root is %r, expected %r' % ([x.name for x in mem], got, at))
            got = [int(i) for i in r.real._raveled_index_for_transformed(real)]
            want = [fr[p] for p in at if p in fr]
            if got != want: raise Mismatch('indices', 'optimizer index of the concatenation of %s is %r, expected %r' % ([x.name for x in mem], got, want))

    def cmp_optvec(self, r):
        for n in r.nodes():
            if self.rng.random() < .5: self.optvec_of(n)

    def optvec_of(self, n):
        es = n.free()
        x = np.array(n.real.optimizer_array)
        if x.shape != (len(es),): raise Mismatch('optvec', '%s optimizer vector has shape %r, expected %d entries' % (n.path(), x.shape, len(es)))
        for i, (e, g) in enumerate(zip(es, x)):
            try:
                w = Con(e.con).finv(e.v) if e.con else e.v
            except (ValueError, ZeroDivisionError):
                continue
            if not abs(w - g) <= 1e-6 * max(1., abs(w)):
                raise Mismatch('optvec', '%s optimizer vector element %d is %r, expected %r (value %r, %s)' % (n.path(), i, float(g), w, e.v, e.con))

    # ---------------------------------------------------------------- hooks
    def check_hooks(self, targets, off_roots=()):
        """targets: spec nodes whose values were written with updates on"""
        last = {}
        for i, (k, v) in enumerate(TRACE): last[k] = (i, v)
        for r in off_roots:
            for n in r.nodes():
                if id(n.real) in last: raise Mismatch('hooks', 'hook of %s ran while updates are off' % n.path())
        for t in targets:
            chain = ([] if t.leaf else [t]) + t.ancestors()
            prev = -1
            for n in chain:
                if id(n.real) not in last: raise Mismatch('hooks', 'hook of %s did not run after a change of %s' % (n.path(), t.path()))
                i, v = last[id(n.real)]
                want = [e.v for e in n.entries()]
                if len(v) != len(want) or not all(self.close(a, b) or a == b for a, b in zip(v, want)):
                    raise Mismatch('hooks', 'hook of %s last ran with values %r, now %r' % (n.path(), v.tolist(), want))
                if i < prev: raise Mismatch('hooks', 'hook of %s ran before the one of its child' % n.path())
                prev = i
            if chain:
                root = chain[-1]
                ids = set(id(n.real) for n in root.nodes())
                if any(k in ids for k, _ in TRACE[prev + 1:]):
                    raise Mismatch('hooks', 'another hook ran after the one of the root')

    def resync(self, leaf):
        for e, v in zip(leaf.e, leaf.real.view(np.ndarray).ravel()): e.v = float(v)


class Mismatches(Exception):
    def __init__(self, l):
        Exception.__init__(self, '; '.join('%s: %s' % (m.comp, m.detail) for m in l))
        self.l = l
