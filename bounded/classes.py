"""Module level (picklable) classes of the hierarchies the run-time contracts are checked on."""
import numpy as np
from paramz import Param, Parameterized, Model

TRACE = []      # (id(node), values of the node when its hook ran)


def wt(n):
    i = np.arange(n)
    return 1. + ((i * 7) % 5) / 4., np.sin(i + 1.)


def _record(self):
    try:
        TRACE.append((id(self), np.array(self.param_array)))
    except AttributeError:       # half built object while loading
        pass


class Node(Parameterized):
    def parameters_changed(self):
        _record(self)


class Mod(Model):
    """objective: sum_i w_i (v_i - t_i)^2 / 2 over the flat parameter array"""
    def __init__(self, name='mod', parameters=[]):
        super(Mod, self).__init__(name)
        self.bad = None            # {flat position: error added to the gradient}
        self.fault = None          # (where, exception) raised by the next evaluation (by every one, if a third element says so)
        self.link_parameters(*parameters)

    def parameters_changed(self):
        _record(self)
        try:
            v = np.array(self.param_array)
            w, t = wt(v.size)
            if self.gradient.size == v.size:
                self.gradient[:] = w * (v - t)
                for i, d in (self.bad or {}).items(): self.gradient[i] = d if abs(d) > 1e50 else self.gradient[i] + d
        except AttributeError:
            pass
        self._raise('assign')

    def _raise(self, where):
        f = self.__dict__.get('fault')
        if f and f[0] == where:
            if len(f) < 3: self.fault = None
            raise f[1]

    def objective_function(self):
        self._raise('objective')
        v = np.array(self.param_array)
        w, t = wt(v.size)
        return float(.5 * np.sum(w * (v - t) ** 2))


class Obs(object):
    """an observer with callbacks which record their calls"""
    def __init__(self, log, tag):
        self.log, self.tag = log, tag

    def cb(self, me, which=None):
        self.log.append((self.tag, 'cb', None if me is None else np.array(me)))

    def cb2(self, me, which=None):
        self.log.append((self.tag, 'cb2', None if me is None else np.array(me)))
