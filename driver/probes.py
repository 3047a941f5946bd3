"""Probes of known findings: a true result means the finding is still there."""
import pickle, numpy as np


def inner_pickle():
    from paramz import Param
    from bounded.classes import Node
    n = Node('n'); p = Param('p', np.array([1., 2.])); n.link_parameter(p)
    q = Node('q'); q.link_parameter(n)
    for x in (p, n):
        try: y = pickle.loads(pickle.dumps(x))
        except AttributeError: return True
        except Exception: continue
    return False


def held_part():
    """a part of a parameter, taken while the updates were off, stays silent when they are on again"""
    from paramz import Param
    from bounded.classes import Mod
    m = Mod('m'); p = Param('p', np.array([1., 2., 3.])); m.link_parameter(p)
    told = []
    m.parameters_changed = lambda: told.append(1)
    m.update_model(False); v = p[1:]; m.update_model(True); del told[:]
    p[1:] = 4.
    if not told: return False
    del told[:]
    v[:] = 5.
    return p[2] == 5 and not told
