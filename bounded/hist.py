"""Run-time contracts over random histories: which operations and which comparisons each property owns.

A mismatch that belongs to the property is a violation; any other mismatch (or exception) only ends the
history silently, because the state is then no longer the one the specification describes."""
import random, hashlib, json, signal
from .world import World, Mismatch, Mismatches, Skip
from . import ops as O

BASE = dict(write=4, iop=2, view=2, attr=2, nodewrite=2, optset=4, con=5, uncon=4, fix=4, unfix=4, link=4, unlink=3, move=2, swap=1,
            refuse=1, rename=2, updates=1.5, trigger=1, copy=1, pickle=1, drop=1, randomize=2, eval=3, grad=2, regex=3, traverse=1, annot=2)


def prof(**kw):
    d = dict(BASE)
    low = kw.pop('_rest', 1.0)
    for k in d: d[k] *= low
    d.update(kw)
    return dict((k, v) for k, v in d.items() if v > 0)

WRITES = ['write', 'iop', 'view', 'attr', 'nodewrite', 'optset']
ALL = '*'
# property -> (profile, kwargs of the world, [(ops, comparators)])
TABLE = {
 'C05': (prof(optset=14, fix=6, unfix=5, con=6, uncon=5, _rest=.6), dict(model=None),
         [(ALL, ['optvec']), (['optset'], ['values', 'exception', 'constraints', 'fixed'])]),
 'C06': (prof(eval=16, con=6, fix=5, unfix=4, uncon=4, updates=0, _rest=.5), dict(model=True),
         [(['eval'], ['eval', 'values', 'exception', 'result'])]),
 'C07': (prof(fix=7, unfix=6, link=6, unlink=4, con=3, rename=3, regex=2, _rest=.5), {},
         [(ALL, ['sizes', 'indices', 'optvec'])]),
 'C08': (prof(fix=12, unfix=9, con=6, uncon=6, link=3, unlink=2, move=2, regex=2, _rest=.4), {},
         [(['fix', 'unfix', 'con', 'uncon'], ['fixed', 'constraints', 'values', 'optvec', 'sizes', 'exception']), (ALL, ['fixed'])]),
 'C09': (prof(con=14, uncon=10, fix=4, unfix=3, pickle=2, _rest=.4), {},
         [(['con', 'uncon'], ['constraints', 'fixed', 'values', 'exception'])]),
 'C10': (prof(link=14, unlink=9, move=8, swap=4, refuse=6, _rest=.35), {},
         [(['link', 'unlink', 'move', 'swap', 'refuse'], ['structure', 'values', 'result', 'exception', 'updates']), (ALL, ['structure']), (['init'], ['structure', 'exception'])]),
 'C11': (prof(link=14, unlink=9, move=9, annot=8, con=8, fix=8, refuse=3, _rest=.3), dict(annotate=True),
         [(['link', 'unlink', 'move', 'swap', 'refuse'], ['constraints', 'fixed', 'annot', 'optvec', 'sizes', 'exception'])]),
 'C12': (prof(grad=7, write=7, iop=6, view=5, attr=5, nodewrite=6, link=6, unlink=4, move=4, swap=4, copy=2, pickle=2, _rest=.5), {},
         [(ALL, ['memory', 'grad']), (WRITES + ['grad'], ['values', 'exception']), (['link', 'unlink', 'move', 'swap', 'copy', 'pickle', 'init'], ['values'])]),
 'C14': (prof(updates=8, trigger=4, write=6, iop=4, view=4, attr=4, nodewrite=6, optset=6, con=6, fix=3, unlink=4, link=4, _rest=.5), {},
         [(ALL, ['hooks', 'updates']), (['updates', 'trigger'], ['exception'])]),
 'C18': (prof(rename=16, link=12, unlink=8, move=6, attr=8, _rest=.3), {},
         [(ALL, ['names', 'attrs']), (['rename'], ['exception', 'values', 'structure']), (['attr'], ['structure', 'values', 'attrs', 'exception']), (['link', 'unlink', 'move', 'swap'], ['exception', 'values'])]),
 'C25': (prof(regex=22, _rest=.7), {}, [(['regex'], ['result', 'values', 'constraints', 'fixed', 'hooks', 'exception', 'structure', 'optvec', 'annot'])]),
 'C26': (prof(traverse=16, link=7, unlink=5, move=4, refuse=4, updates=2, _rest=.3), {}, [(['traverse'], ['result', 'exception'])]),
 'C27': (prof(randomize=18, fix=6, unfix=4, con=6, uncon=3, updates=4, _rest=.5), {},
         [(['randomize'], ['values', 'result', 'exception', 'updates', 'hooks', 'constraints', 'fixed'])]),
}


class Hang(Exception):
    pass


def owned(table, op, comp):
    return any((o == ALL or op in o) and comp in c for o, c in table)


def alarm(sec):
    def h(s, f): raise Hang('no result within %d s' % sec)
    signal.signal(signal.SIGALRM, h); signal.alarm(sec)


def case(prop, seed, nsteps=30):
    """one history; {n, key, viol}"""
    p, kw, table = TABLE[prop]
    r = run(prop, seed, p, kw, table, nsteps)
    return r


def play(prop, seed, opsl, kw):
    """replay: opsl is a list of [op, descriptor]"""


def run(prop, seed, p, kw, table, nsteps):
    rng = random.Random('%s/%d' % (prop, seed))
    w = None
    trace = []
    cur = 'init'
    n = 0
    kinds = set()
    ann = kw.get('annotate', seed % 4 == 0)
    viol = None
    try:
        alarm(60)
        w = World(rng, annotate=ann, model=kw.get('model'), nroots=rng.choice([1, 2, 2]))
        w.quiet = rng.random() < .4
        w.held = []
        names = sorted(p); wts = [p[k] for k in names]
        tries = 0
        while n < nsteps and tries < 6 * nsteps:
            tries += 1
            cur = rng.choices(names, wts)[0]
            try:
                d = O.OPS[cur][0](w)
            except Skip:
                continue
            trace.append([cur, d])
            try:
                alarm(30)
                O.step(w, cur, d)
            except Skip:
                trace.pop(); continue
            n += 1
            kinds.add(cur)
        l = []
    except Mismatch as m: l = [m]
    except Mismatches as m: l = m.l
    except Hang as e: l = [Mismatch('exception', str(e))]
    except (KeyboardInterrupt, SystemExit): raise
    except BaseException as e:
        # building the hierarchy, or generating an operation, failed in the code under test
        l = [Mismatch('exception', '%s: %s' % (type(e).__name__, e))]
    finally:
        signal.alarm(0)
    mine = [m for m in l if owned(table, cur, m.comp)]
    if mine:
        viol = dict(what='%s after %r' % (mine[0].comp, cur), detail=[str(m.detail)[:600] for m in mine[:4]], seed=seed, step=n, op=cur,
                    history=trace[-60:])
    other = None
    if l and not mine: other = '%s/%s' % (cur, l[0].comp)
    key = hashlib.sha1(json.dumps(trace, default=str).encode()).hexdigest()
    return dict(n=n, key=key if n >= 3 and len(kinds) >= 2 else None, viol=viol, other=other, sample=trace[:8])
