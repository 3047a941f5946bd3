'registry of contracts, results'
import time, traceback
from . import rt

CONTRACTS = []


class Contract(object):
    def __init__(self, props, func, fn, name, assumes, trusted): self.props = props; self.func = func; self.fn = fn; self.name = name; self.assumes = assumes; self.trusted = trusted


def contract(props, func, name=None, assumes=(), trusted=()):
    """props: property ids; func: the functions of the repository whose bodies are executed under this contract;
    assumes: preconditions (what callers establish); trusted: contracts of callees that are not proved anywhere here"""
    def deco(fn):
        CONTRACTS.append(Contract(props.split(), func, fn, name or fn.__name__, list(assumes), list(trusted)))
        return fn
    return deco


def run_contract(c, deadline, cross=False):
    S = rt.Session(deadline, cross)
    t = time.time()
    for k in rt.STATS: rt.STATS[k] = 0
    from . import shim
    shim.FUNCS.clear(); shim.WHILE.clear()
    tb = None
    try:
        S.explore(c.fn)
    except rt.Unsupported as e: S.unsupported = str(e)
    except RecursionError as e: S.error = 'RecursionError'; tb = traceback.format_exc()[:3000]
    except Exception as e:
        S.error = '%s: %s' % (type(e).__name__, str(e)[:300]); tb = traceback.format_exc()[-1500:]
    obls = {}
    for n, o in S.obl.items():
        st = 'refuted' if o.refuted else 'unknown' if o.unknown else 'proved'
        obls[n] = dict(status=st, checks=o.n, time=round(o.time, 4), backends=sorted(o.backends), info=o.info)
    status = 'refuted' if any(o['status'] == 'refuted' for o in obls.values()) else \
             'undecided' if S.unsupported or S.error or any(o['status'] == 'unknown' for o in obls.values()) else \
             'proved' if obls and S.ended > 0 else 'undecided'
    why = S.unsupported or S.error or ('' if status != 'undecided' else 'no obligation was reached' if not obls else 'no path reaches the end' if not S.ended else 'solver gave no answer')
    return dict(contract=c.name, functions=c.func, props=c.props, status=status, why=why, traceback=tb, paths=S.paths, ended=S.ended, cut=S.cut, restarts=S.restarts,
                obligations=obls, seconds=round(time.time() - t, 3), queries=rt.STATS['queries'], solver_s=round(rt.STATS['time'], 3), cvc5=rt.STATS['cvc5'], crossed=S.crossed,
                hypotheses={'%s %s' % k: v for k, v in S.hyp.items() if isinstance(k[0], str)}, assumes=c.assumes, trusted=c.trusted)


def arg(args, kw, i, name, default=None):
    'the value of a parameter in a recorded call'
    return args[i] if len(args) > i else kw.get(name, default)


def only(args, kw, n, names):
    'a recorded call has no arguments but these'
    return len(args) <= n and set(kw) <= set(names)
