"""Driving the optimiser with scipy's solver replaced, so that any outcome can be produced through the public interface."""
import contextlib

from vf.common import require


@contextlib.contextmanager
def patched(obj, name, val):
    old = getattr(obj, name)
    setattr(obj, name, val)
    try:
        yield
    finally:
        setattr(obj, name, old)


@contextlib.contextmanager
def solver(run):
    """Every call of scipy's minimize goes to run(optimiser, original, fun, start, *a, **kw)."""
    import scipy.optimize
    from sidermit.optimization import optimizer as om
    made, orig, init = [], scipy.optimize.minimize, om.Optimizer.__init__

    def new(self, *a, **kw):
        made.append(self)
        return init(self, *a, **kw)

    def call(fun, x0, *a, **kw):
        owner = getattr(fun, "__self__", None)
        return run(owner if isinstance(owner, om.Optimizer) else made[-1], orig, fun, x0, *a, **kw)
    with contextlib.ExitStack() as st:
        st.enter_context(patched(om.Optimizer, "__init__", new))
        st.enter_context(patched(scipy.optimize, "minimize", call))
        if hasattr(om, "minimize"):
            st.enter_context(patched(om, "minimize", call))
        yield


def scripted_result(x, status=1, cv=0.0, fun=1.0, success=True):
    import numpy as np
    from scipy.optimize import OptimizeResult
    return OptimizeResult(x=np.array(x, dtype=float), success=success, status=status, message="scripted %s" % status, constr_violation=cv, fun=fun)


def optimised(graph, demand, pax, net, vec, status=1, fun=1.0, f=None):
    """An optimiser whose solver always ends at the frequencies vec (a frequency per route, in order; each 0 or at least 1/24)."""
    from sidermit.optimization.optimizer import Optimizer
    with solver(lambda *a, **kw: scripted_result(vec, status, 0.0, fun)):
        opt = Optimizer.network_optimization(graph, demand, pax, net, f=f, max_number_of_iteration=3)
    got = opt.get_optimization_value()[0]
    require([float(x) for x in got] == [float(x) for x in vec], "the optimiser's answer is not the point where the solver ended", got=list(got), expected=list(vec))
    return opt


def posed(orig, fun, start, a, kw):
    """(objective, excess): the problem a call of scipy's minimize poses, whatever form its arguments have. excess(x) is how
    far x is outside the bounds and constraints (at most 0: feasible)."""
    import inspect
    import numpy as np
    b = inspect.signature(orig).bind(fun, start, *a, **kw)
    b.apply_defaults()
    b = b.arguments
    args = b["args"] if isinstance(b["args"], tuple) else (b["args"],)
    bounds, cons = b["bounds"], b["constraints"]
    cons = list(cons) if isinstance(cons, (list, tuple)) else [cons]

    def excess(x):
        x, out = np.asarray(x, dtype=float), [-np.inf]
        if bounds is not None:
            if hasattr(bounds, "lb"):
                lo, hi = np.broadcast_to(bounds.lb, x.shape), np.broadcast_to(bounds.ub, x.shape)
            else:
                lo = np.array([-np.inf if p[0] is None else p[0] for p in bounds], dtype=float)
                hi = np.array([np.inf if p[1] is None else p[1] for p in bounds], dtype=float)
            out += list(lo - x) + list(x - hi)
        for c in cons:
            if isinstance(c, dict):
                v = np.atleast_1d(c["fun"](x, *c.get("args", ())))
                out += list(-v) if c["type"] == "ineq" else list(abs(v))
            else:
                v = np.atleast_1d(c.fun(x) if hasattr(c, "fun") else np.asarray(c.A) @ x)
                out += list(np.broadcast_to(c.lb, v.shape) - v) + list(v - np.broadcast_to(c.ub, v.shape))
        return float(max(out))
    return (lambda x: float(fun(np.asarray(x, dtype=float), *args))), excess
