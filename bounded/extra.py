"""C14: hierarchies joined from parts which are switched on and off.  C18: arbitrary name texts.  C09: identity of equal constraints over histories with rejected constructions and loading."""
import random, hashlib, pickle, io, contextlib, keyword, copy
import numpy as np
from paramz import Param, Parameterized, transformations as TR
from paramz.core.nameable import adjust_name_for_printing
from .classes import Node, TRACE
from .world import key_of


class Bad(Exception):
    pass


def case(prop, seed):
    rng = random.Random('%s/extra/%d' % (prop, seed))
    log = []; viol = None; n = 0
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            n = dict(C18=names, C09=equal, C14=mixed)[prop](rng, log)
    except Bad as e:
        viol = dict(what=str(e), detail=[], seed=seed, history=log[-30:])
    except Exception as e:
        import traceback
        viol = dict(what='%s: %s' % (type(e).__name__, e), detail=[traceback.format_exc()[-700:]], seed=seed, history=log[-30:])
    return dict(n=n, key=hashlib.sha1(repr(log).encode()).hexdigest(), viol=viol, other=None, sample=log[:6])


ALPHA = 'abzAZ_019' * 3 + ' .-+!*/@()' * 3 + '#$%&[]{}<>=?;:,|~^`\'"\\\n\r\t\x00\x0b\x0c\x85\u2028\u00e9\u00df\u0660\u00b2\u03b1\u4e2d'


def text(rng):
    r = rng.random()
    if r < .1: return ''.join(chr(rng.randrange(1, 0x3000)) for _ in range(rng.randint(0, 4)))
    if r < .5: return ''.join(rng.choice('abcXYZ_09 .-+!*/@()') for _ in range(rng.randint(0, 8)))
    s = ''.join(rng.choice(ALPHA) for _ in range(rng.randint(0, 7)))
    return s


def names(rng, log):
    k = 0
    for _ in range(40):
        t = text(rng); log.append(t); k += 1
        try: p = adjust_name_for_printing(t)
        except NameError: p = None
        if p is not None:
            if type(p) is not str or not p.isidentifier(): raise Bad('name %r gets the printable name %r' % (t, p))
            if adjust_name_for_printing(p) != p: raise Bad('printable name %r of %r is not stable' % (p, t))
        elif t.isidentifier() and t.isascii(): raise Bad('the identifier %r is refused' % (t,))
    # many siblings of one name
    if rng.random() < .1:
        n = Node('top'); base = rng.choice(['a', 'a_1', 'a_7', 'a_98', 'x_y_9']); m = rng.randint(11, 26); log.append(('crowd', base, m)); k += m
        kids = [Param(base, np.array([float(i)])) for i in range(m)]
        if rng.random() < .5: n.link_parameters(*kids)
        else:
            for i, p in enumerate(kids): n.link_parameter(p, rng.randint(0, i))
        if len(set(p.name for p in kids)) != m: raise Bad('%d siblings linked as %r have the names %r' % (m, base, [p.name for p in kids]))
        for i, p in enumerate(kids):
            if getattr(n, p.name) is not p or float(p[0]) != i: raise Bad('the sibling %r is not to be found under its name or changed its value' % p.name)
    # the same below a node
    for _ in range(6):
        n = Node('top'); kids = []
        for _ in range(rng.randint(1, 4)):
            t = text(rng) or 'p'
            x = Param(t, np.array([1.5, 2.5])); v = np.array(x)
            log.append(('link', t)); k += 1
            try: n.link_parameter(x)
            except NameError:
                try: adjust_name_for_printing(t)
                except NameError: break
                raise Bad('linking the printable name %r was refused' % (t,))
            kids.append(x)
            if list(n.parameters) != kids and any(a is not b for a, b in zip(n.parameters, kids)): raise Bad('linking %r lost a sibling' % (t,))
            nm = [c.name for c in kids]
            if len(set(nm)) != len(nm): raise Bad('siblings share a name: %r' % (nm,))
            ps = [adjust_name_for_printing(c) for c in nm]
            for c, p in zip(kids, ps):
                if not p.isidentifier(): raise Bad('printable name %r' % (p,))
                if ps.count(p) == 1 and p not in dir(Node) and getattr(n, p, None) is not c: raise Bad('%r is not reachable as %r' % (c.name, p))
                if not np.array_equal(np.array(c), v): raise Bad('values changed by naming: %r' % (np.array(c),))
    return k


def slightly_out(rng, lo, hi):
    'a value which is just outside of the bounds'
    d = rng.choice([1e-15, 1e-12, 1e-9, 1e-7, 1e-4])
    b, sg = rng.choice([(x, sg) for x, sg in ((lo, -1), (hi, 1)) if np.isfinite(x)])
    return float(b + sg * d * max(1., abs(b)))


def equal(rng, log):
    """equal constraints created at different times are one constraint"""
    k = 0
    pool = [(0., 1.), (-2., 3.), (.5, 4.), (10, 20), (-1, 1)]
    if rng.random() < .3:
        # bounds which are easily taken for each other
        e = rng.choice([1e-6, 1e-9, 1e-12]); pool = [(0., 1.), (0., 1. + e), (e, 1.), (-e, 1.), (0., 1. - e)]
    kept = []
    p = Param('p', np.array([.7, .8, .9])); spec = [None] * 3
    q = Node('n'); q.link_parameter(p)
    def mk(b):
        how = rng.choice(['new', 'old', 'pickled', 'copied', 'npfloat'])
        if how == 'old' and kept:
            c = [x for x in kept if (float(x.lower), float(x.upper)) == (float(b[0]), float(b[1]))]
            if c: return rng.choice(c), how
        if how == 'npfloat': return TR.Logistic(np.float64(b[0]), np.float64(b[1])), how
        x = TR.Logistic(*b)
        if how == 'pickled': x = pickle.loads(pickle.dumps(x, rng.randint(2, 5)))
        if how == 'copied': x = copy.deepcopy(x)
        return x, how
    for _ in range(25):
        op = rng.choice(['con', 'con', 'uncon', 'uncon', 'reject', 'keep', 'drop', 'loadparam', 'simple'])
        b = rng.choice(pool); i = rng.randrange(3)
        log.append((op, b, i)); k += 1
        if op == 'reject':
            x, y = rng.choice([(b[1], b[0]), (b[0], b[0]), (5., 1.)])
            try: TR.Logistic(x, y)
            except Exception: pass
            else: raise Bad('Logistic(%r, %r) was not refused' % (x, y))
            if rng.random() < .3:
                t = rng.choice([p, p[[i]], q])
                try: t.constrain(rng.choice(['positive', 'Logexp', TR.Logexp, 3, None]))
                except ValueError: pass
                else: raise Bad('a constraint which is none was not refused')
        elif op == 'keep': kept.append(TR.Logistic(*b))
        elif op == 'drop': del kept[:rng.randint(0, 2)]
        elif op == 'loadparam':
            q = pickle.loads(pickle.dumps(q, rng.randint(2, 5))) if rng.random() < .7 else q.copy(); p = q.parameters[0]
        elif op == 'con':
            c, how = mk(b); log.append(how)
            if (float(c.lower), float(c.upper)) != (float(b[0]), float(b[1])): raise Bad('Logistic(%r) has the bounds %r (%s)' % (b, (c.lower, c.upper), how))
            if rng.random() < .3: v0 = slightly_out(rng, b[0], b[1]); log.append(v0); p[[i]] = v0
            p[[i]].constrain(c) if rng.random() < .7 else p[[i]].constrain_bounded(*b, warning=False)
            spec[i] = ('Logistic', float(b[0]), float(b[1]))
        elif op == 'simple':
            kind = rng.choice(['Logexp', 'Exponent', 'Square', 'NegativeLogexp'])
            c = getattr(TR, kind)()
            if rng.random() < .5: c = rng.choice([copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))])(c)
            if rng.random() < .6:
                if rng.random() < .3: v0 = slightly_out(rng, *((-np.inf, 0.) if kind[0] == 'N' else (0., np.inf))); log.append(v0); p[[i]] = v0
                p[[i]].constrain(c); spec[i] = (kind,)
            else:
                p[[i]].unconstrain(c)
                if spec[i] == (kind,): spec[i] = None
        else:
            c, how = mk(b); log.append(how)
            tgt = rng.choice(['i', 'p', 'n'])
            x = dict(i=p[[i]], p=p, n=q)[tgt]
            x.unconstrain(c) if rng.random() < .6 else x.unconstrain_bounded(*b)
            for j in ([i] if tgt == 'i' else range(3)):
                if spec[j] == ('Logistic', float(b[0]), float(b[1])): spec[j] = None
        for node in (p, q):
            got = {}
            for key, ind in node.constraints.items():
                if key_of(key) in got: raise Bad('two properties for the constraint %r' % (key_of(key),))
                got[key_of(key)] = [int(z) for z in ind]
            want = {}
            for j, s in enumerate(spec):
                if s: want.setdefault(s, []).append(j)
            if got != want: raise Bad('constraints are %r, expected %r' % (got, want))
        v = np.array(p)
        for j, s in enumerate(spec):
            if s and len(s) == 1 and not (v[j] <= 0 if s[0][0] == 'N' else v[j] >= 0): raise Bad('value %r under %r' % (v[j], s))
            if s and s[0] == 'Logistic' and not s[1] <= v[j] <= s[2]: raise Bad('value %r under %r' % (v[j], s))
    return k


def mixed(rng, log):
    """hierarchies built from parts which are switched differently: one switch at any node is one for all of them"""
    k = 0
    def build(depth):
        n = Node('n%d' % rng.randrange(10**6))
        if rng.random() < .3: n.update_model(False)
        for i in range(rng.randint(1, 3)):
            if depth and rng.random() < .6: x = build(depth - 1)
            else:
                x = Param('p%d' % rng.randrange(10**6), np.array([rng.uniform(.5, 2.) for _ in range(rng.randint(1, 3))]))
                if rng.random() < .3: x.update_model(False)
                if rng.random() < .25: x.fix()
            n.link_parameter(x)
            if rng.random() < .25: x.update_model(rng.random() < .5)
        return n
    top = build(rng.randint(1, 3))
    def nodes(x): return [x] + [y for c in ([] if isinstance(x, Param) else x.parameters) for y in nodes(c)]
    al = nodes(top)
    if rng.random() < .3:
        i = rng.choice([x for x in al if x is not top]); i._parent_.unlink_parameter(i); al = nodes(top) + nodes(i)
        if rng.random() < .7:
            i.update_model(rng.random() < .5)
            t = rng.choice([x for x in nodes(top) if not isinstance(x, Param)]); t.link_parameter(i)
    for _ in range(rng.randint(1, 4)):
        x = rng.choice(al); on = rng.random() < .5
        log.append(('switch', x.hierarchy_name(), on, [(y.hierarchy_name(), bool(y.update_model())) for y in al])); k += 1
        del TRACE[:]
        x.update_model(on)
        mine = nodes(x._highest_parent_)
        ran = [i for i, _ in TRACE]
        for y in mine:
            if bool(y.update_model()) is not on: raise Bad('updates switched %s at %r, but %r is switched %s' % (on, x.name, y.hierarchy_name(), y.update_model()))
        hooked = [y for y in mine if not isinstance(y, Param)]
        if on:
            for y in hooked:
                if y.size and (y is mine[0] or not y.is_fixed) and id(y) not in ran: raise Bad('updates switched on at %r, but the hook of %r did not run' % (x.name, y.hierarchy_name()))
        elif TRACE: raise Bad('a hook ran while switching updates off')
        ps = [y for y in mine if isinstance(y, Param)]
        if not ps: continue
        p = rng.choice(ps); v = rng.uniform(.5, 2.)
        log.append(('write', p.hierarchy_name(), v)); del TRACE[:]
        p[:] = v
        ran = [i for i, _ in TRACE]
        if not on and ran: raise Bad('a write ran a hook while updates are off')
        if on:
            q = p._parent_
            while q is not None:
                if id(q) not in ran: raise Bad('the hook of %r did not run after a write' % q.hierarchy_name())
                if q is mine[0] and ran[-1] != id(q): raise Bad('the hook of the root did not run last')
                q = q._parent_
    return k
