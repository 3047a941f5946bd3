"""C21 (and C06 partly): the three evaluation callbacks of Model with failing and succeeding callees"""
import z3
from .. import rt, vals, shim
from ..base import contract
from ..rt import ctx
from ..vals import SObj, SNum, SBool, Opaque, fresh_int, fresh_real, num

import numpy as np
from numpy.linalg import LinAlgError


class Other(Exception): pass


KINDS = [None, LinAlgError, ZeroDivisionError, ValueError, Other, OverflowError, FloatingPointError, TypeError, RuntimeError, AttributeError, KeyboardInterrupt]


def setup(c):
    'a Model whose parameter assignment, objective and gradient may each fail; after an assignment the vector is in place'
    from paramz.model import Model
    G = c.ghost
    G.update(assigned=None, count=0)
    x = Opaque('x')
    fail = {}
    def may_fail(what):
        k = c.choose(len(KINDS), what)
        if KINDS[k] is not None:
            e = KINDS[k]('failure of ' + what)
            fail.setdefault('exc', e); G['failed'] = True
            raise e
    n = fresh_int('fail_count'); allowed = fresh_int('allowed')
    c.assume(z3.And(n.e >= 0, allowed.e >= 0, n.e <= allowed.e))
    first = dict(phase=0)
    def set_x(o, v):
        may_fail('assignment'); G['assigned'] = v
    def objective(o):
        may_fail('objective'); return Opaque('f(%r)' % (G['assigned'],)) if first.get('f') is None else first['f']
    fval = Opaque('objective at x'); first['f'] = fval
    grad = Opaque('stored gradient')
    tg = Opaque('transformed gradient')
    def gradients(o):
        G['gcalls'] = G.get('gcalls', 0) + 1
        if G['gcalls'] == 1 and not G.get('failed'): may_fail('gradient')
        return grad
    def transform(o, g):
        c.prove('the stored gradient is what is transformed', g is grad)
        return tg
    m = SObj('model', Model, fields=dict(_fail_count=n, _allowed_failures=allowed),
             contracts=dict(objective_function=objective, objective_function_gradients=gradients, _transform_gradients=transform), setters=dict(optimizer_array=set_x),
             fallback=None, absent=['obj_grads'])
    return m, x, n, allowed, fval, grad, tg, fail


def clip_stub(c):
    def clip(a, lo, hi, **k):
        r = Opaque('clipped'); c.ghost['clip'] = (a, lo, hi, r)
        return r
    return clip


def outcome(c, what, limit):
    m, x, n, allowed, fval, grad, tg, fail = setup(c)
    G = c.ghost
    shim.FUNCS['clip'] = clip_stub(c)
    f = getattr(type_of(m), what)
    try:
        r = f(m, x); exc = None
    except Exception as e: exc = e
    except KeyboardInterrupt as e: exc = e
    finally: shim.FUNCS.pop('clip', None)
    e = fail.get('exc')
    numeric = isinstance(e, (LinAlgError, ZeroDivisionError, ValueError))
    cnt = m._f['_fail_count'] if hasattr(m, '_f') else m.__dict__['_f']['_fail_count']
    if e is None:
        c.prove('success: no exception', exc is None)
        c.prove('success: the vector was assigned', G['assigned'] is x)
        c.prove('success: the count of failures starts afresh', (cnt == 0).e if isinstance(cnt, vals.Sym) else cnt == 0)
        if exc is None: check_value(c, what, r, fval, tg)
    elif numeric:
        over = n.e >= allowed.e
        if exc is not None:
            c.prove('the original error is raised', exc is e)
            c.prove('an error is raised only beyond the allowed failures', over)
        else:
            c.prove('a numerical failure is tolerated only up to the limit', z3.Not(over))
            c.prove('a tolerated failure is counted once', (cnt == n + 1).e if isinstance(cnt, vals.Sym) or True else False)
            if what == '_objective': c.prove('tolerated: infinite objective', isinstance(r, float) and r == float('inf'))
            else:
                g = r if what == '_grads' else (r[1] if isinstance(r, tuple) and len(r) == 2 else None)
                cl = G.get('clip')
                c.prove('tolerated: the stored gradient is transformed and clipped to finite bounds',
                        cl is not None and g is cl[3] and cl[0] is tg and isinstance(cl[1], float) and isinstance(cl[2], float) and np.isfinite([cl[1], cl[2]]).all() and -cl[1] == cl[2] and cl[2] >= 1e10)
                if what == '_objective_grads': c.prove('tolerated: infinite objective', isinstance(r[0], float) and r[0] == float('inf'))
    else:
        c.prove('any other exception propagates at once', exc is e)


def check_value(c, what, r, fval, tg):
    if what == '_objective': c.prove('success: the objective at the assigned vector', r is fval)
    elif what == '_grads': c.prove('success: the transformed gradient', r is tg)
    else: c.prove('success: objective and transformed gradient', isinstance(r, tuple) and len(r) == 2 and r[0] is fval and r[1] is tg)


def type_of(m): return m.__dict__['_cls']

A = ['the count of consecutive failures is between 0 and the limit on entry (invariant, shown by "counted once" and "starts afresh")',
     'recomputing the stored gradient after a tolerated failure does not itself fail (objective_function_gradients, _transform_gradients)']


@contract('C21 C06', ['Model._objective'], assumes=A)
def objective_callback(c): outcome(c, '_objective', None)


@contract('C21 C06', ['Model._grads'], assumes=A)
def grads_callback(c): outcome(c, '_grads', None)


@contract('C21 C06', ['Model._objective_grads'], assumes=A)
def objective_grads_callback(c): outcome(c, '_objective_grads', None)


@contract('C21', ['Model.__init__ / class attributes'])
def limit_is_ten(c):
    from paramz.model import Model
    c.prove('ten consecutive failures are allowed and none is counted initially', Model._allowed_failures == 10 and Model._fail_count == 0)
