"""C07, C08, C10, C11, C12, C18: hierarchies put together before their root is initialised: in the constructor of the root, or below a
root made with initialize=False.  Parameters are constrained, fixed, linked, moved and unlinked meanwhile; compared with the
specification after initialisation, and after some further operations."""
import random, hashlib, signal, warnings
import numpy as np
from .world import World, Mismatch, Mismatches, Skip, S
from .classes import Mod, Node
from .hist import owned, alarm, Hang
from . import ops as O

OWN = {'C07': ['sizes', 'indices', 'optvec'], 'C08': ['fixed', 'optvec'], 'C10': ['structure', 'exception', 'result', 'values'],
       'C11': ['constraints', 'fixed', 'optvec', 'exception', 'sizes'], 'C12': ['memory', 'values'], 'C18': ['names', 'attrs', 'values']}
STEPS = dict(link=6, con=4, fix=3, unfix=1.5, uncon=1, unlink=.7, move=.7, refuse=.5, attr=1.5, write=.7)
PART = ('con', 'fix', 'unfix', 'uncon', 'attr', 'write')


class Building(Mod):
    def __init__(self, script):
        Mod.__init__(self, 'top')
        script(self)


class World0(World):
    def fresh_name(self):
        self.k += 1
        return 'p%d' % self.k


def case(prop, seed):
    rng = random.Random('%s/build/%d' % (prop, seed))
    trace = []; n = 0; l = []; cur = 'init'; w = None
    mode = rng.choice(['constructor', 'late', 'late node'])
    try:
        alarm(60)
        w = World0(rng, nroots=0)
        def script(real):
            nonlocal n, cur
            top = w.add_root(S(real, False, real.name))
            names = sorted(STEPS); wts = [STEPS[k] for k in names]
            todo = rng.randint(4, 10); tries = 0
            while todo and tries < 80:
                tries += 1
                cur = 'link' if len(top.entries()) < 2 else rng.choices(names, wts)[0]
                try:
                    d = O.OPS[cur][0](w)
                    if cur in PART:
                        # the values of a node are not there yet: only on parameters
                        if not w.at(d['a']).leaf or w.at(d['a']).root() is not top: continue
                    if cur == 'link' and (w.at(d['a']).root() is not top or w.at(d['src']).root() is top if d['src'][0] != 'new' else w.at(d['a']).root() is not top): continue
                    if cur in ('move', 'unlink', 'refuse') and w.at(d['a']).root() is not top: continue
                    if cur == 'refuse' and d['kind'] == 'stranger' and w.at(d['x']).root() is not top: continue
                except Skip: continue
                trace.append([cur, d])
                try: O.OPS[cur][1](w, d)
                except Skip: trace.pop(); continue
                n += 1; todo -= 1
            cur = 'init'
        def below(real):
            """the hierarchy is initialised as a whole, from any of its nodes"""
            if rng.random() < .6: return real
            l = []; real.traverse(l.append); return rng.choice([x for x in l if not isinstance(x, np.ndarray)])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if mode == 'constructor': real = Building(script)
            elif mode == 'late':
                real = Mod('top', initialize=False); script(real); below(real).initialize_parameter()
            else:
                real = Node('top', initialize=False); script(real); below(real).initialize_parameter()
        for r in w.roots:
            if r.real is not real: r.real.initialize_parameter() if not r.leaf else None
        cur = 'init'; w.held = []
        w.compare_all()
        for _ in range(3):
            cur = rng.choice(['link', 'unlink', 'con', 'fix', 'unfix', 'optset', 'nodewrite', 'swap'])
            try: d = O.OPS[cur][0](w)
            except Skip: continue
            trace.append([cur, d])
            try: O.step(w, cur, d)
            except Skip: trace.pop(); continue
            n += 1
    except Mismatch as m: l = [m]
    except Mismatches as m: l = m.l
    except Hang as e: l = [Mismatch('exception', str(e))]
    except (KeyboardInterrupt, SystemExit): raise
    except BaseException as e:
        import traceback
        l = [Mismatch('exception', '%s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-400:]))]
    finally:
        signal.alarm(0)
    mine = [m for m in l if m.comp in OWN[prop]]
    viol = dict(what='%s after %r (%s)' % (mine[0].comp, cur, mode), detail=[str(m.detail)[:600] for m in mine[:4]], seed=seed, step=n, op=cur, history=[mode] + trace) if mine else None
    return dict(n=n, key=hashlib.sha1(repr((mode, trace)).encode()).hexdigest() if n >= 3 else None, viol=viol, other='%s/%s' % (cur, l[0].comp) if l and not mine else None, sample=trace[:6])
