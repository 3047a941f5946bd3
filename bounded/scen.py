"""Scenario runner: a seed and a profile give a reproducible history."""
import random, sys, time, json
from .world import World, Mismatch, Mismatches, Skip
from . import ops as O
from .classes import TRACE

DEFAULT = dict(write=4, iop=2, view=2, attr=2, nodewrite=2, optset=4, con=5, uncon=4, fix=4, unfix=4, link=4, unlink=3, move=2,
               refuse=1, rename=2, updates=1.5, trigger=1, copy=1.5, pickle=1.5, drop=1, randomize=2, eval=3, grad=2, regex=4, traverse=1, annot=2)


def run(seed, profile, nsteps, annotate=False, model=None, nroots=None, trace=None, stop=None):
    """returns (steps, mismatches or None, log)"""
    rng = random.Random(seed)
    log = []
    try:
        w = World(rng, annotate=annotate, model=model, nroots=nroots or rng.choice([1, 2, 2]))
    except (Mismatch, Mismatches) as m:
        return 0, ('init', m.l if isinstance(m, Mismatches) else [m]), log
    except Exception as e:
        return 0, ('init', [Mismatch('exception', '%s: %s' % (type(e).__name__, e))]), log
    names = sorted(profile); wts = [profile[k] for k in names]
    k = 0
    tries = 0
    while k < nsteps and tries < 6 * nsteps:
        tries += 1
        op = rng.choices(names, wts)[0]
        try:
            d = O.OPS[op][0](w)
        except Skip:
            continue
        log.append(describe(w, op, d))
        try:
            O.step(w, op, d)
        except Skip:
            log.pop(); continue
        except Mismatch as m:
            return k, (op, [m]), log
        except Mismatches as m:
            return k, (op, m.l), log
        k += 1
    return k, None, log


def describe(w, op, d):
    d2 = dict(d)
    for f in ('a', 'x', 'src'):
        if f in d2 and isinstance(d2[f], list) and d2[f] and isinstance(d2[f][0], int):
            try: d2[f] = w.at(d2[f]).path() + '@%d' % d2[f][0]
            except Exception: pass
    return [op, d2]
