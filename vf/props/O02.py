import copy
import math

from vf import gen
from vf.common import close, fail, req_close, require
from vf.ref import INF, RefX, street_excess
from vf.optobs import posed, solver
from vf.pipe import Costs, read_strategies
from vf.xobs import XObs

CASES = {"quick": 3000, "thorough": 30000}
CASE_CPU = 240
RULE = ("one optimisation per case: mostly with the inner solver replaced by a scripted sequence of outcomes (status, violation, sign, tiny frequencies, cost, distance to "
        "the previous vector, disconnecting frequencies), some with the real solver on small networks; every run of the solver is recorded with the strategies it used, and "
        "the number of runs, the strategies, the answer or the exception are compared with the rule; distinct by script; non-trivial: the solver ran")
MUST_SEE = ["runs", "returned", "no_solution", "stopped_by_tolerance", "stopped_by_limit", "ties", "zeroed", "rejected_status", "rejected_violation", "rejected_negative",
            "later_is_better", "earlier_is_better", "no_limit", "disconnected", "real", "real_returned", "status_checks", "selection_checks", "via_solver", "problem_checked", "problem_feasible", "problem_infeasible", "problem_negative", "breakdown", "hardly_limited"]
ASSUMPTIONS = ["a scripted outcome stands for what scipy's trust-constr may return (statuses 0-3, any violation, slightly negative or tiny frequencies)"]


class Script:
    """Outcomes handed out one per solver run; records what each run was given."""

    def __init__(self, outcomes):
        self.outcomes, self.runs = outcomes, []

    def next(self):
        require(len(self.runs) < len(self.outcomes), "the solver is run more often than the tolerance and the iteration limit allow", runs=len(self.runs) + 1)
        return self.outcomes[len(self.runs)]


def boarded(o, ins):
    """{route id: frequency} the optimiser's strategies were computed with."""
    from sidermit.optimization.preoptimization.extended_graph import ExtendedEdgesType
    out = {}
    for e in o.extended_graph_obj.get_extended_graph_edges():
        if e.type == ExtendedEdgesType.BOARDING:
            rt = e.nodej.route
            out[rt.id] = e.f * rt.mode.d
    return out


def acceptable(o):
    x, status, cv, fun = o["x"], o["status"], o["cv"], o["fun"]
    return status not in (0, 3, -1) and abs(cv) < 0.001 and all(q >= 0 for q in x)


def l1(a, b):
    return sum(abs(p - q) for p, q in zip(a, b))


def connected(ins, f):
    x = RefX(ins.city.ref, ins.modes, ins.net.routes, f, ins.pax.pt)
    return all(d in x.reachable(o) for o, d in ins.trips)


def plan(x0, outcomes, tol, limit, conn):
    """(number of runs, 'ok' | 'refused' rebuild) following the documented loop."""
    n, prev = 1, x0
    while not l1(prev, outcomes[n - 1]["x"]) < tol:
        if limit is not None and n > limit:
            return n, "limit"
        if not conn(outcomes[n - 1]["x"]):
            return n, "disconnected"
        if n == len(outcomes):
            return n, "exhausted"
        prev = outcomes[n - 1]["x"]
        n += 1
    return n, "tolerance"


def best(outs):
    b = None
    for o in outs:
        if acceptable(o) and (b is None or o["fun"] < b["fun"]):
            b = o
    return b


def gen_outcomes(r, ins, x0, tol, n):
    outs, prev = [], x0
    base = r.uniform(1, 1e5) if r.random() < 0.8 else 10 ** r.uniform(-6, 14)
    for i in range(n):
        k = r.random()
        if k < 0.2:                                              # close to the tolerance
            x = list(prev)
            j = r.randrange(len(x))
            dd = tol * r.choice([0.2, 0.9, 1.1, 1.5, 3])
            if r.random() < 0.5 and len(x) > 1:                  # spread over two routes: each below, together maybe above
                j2 = (j + 1) % len(x)
                x[j] += dd / 2
                x[j2] = x[j2] + dd / 2
            else:
                x[j] += dd
        else:
            x = [gen.num(r, 1, 60) for _ in x0]
        if r.random() < 0.3:
            j = r.randrange(len(x))
            x[j] = r.choice([0.0, 1e-9, 0.01, 0.0416, 1 / 24, 0.0417, 0.05])
        neg = r.random()
        if neg < 0.12:
            j = r.randrange(len(x))
            x[j] = r.choice([-1e-12, -1e-6, -0.05, -0.2, -5.0, -5e-324, -0.11, -2e3, -1e9])
        outs.append({"x": x, "status": r.choice([1, 2, 1, 2, 2, 1, 0, 3]), "cv": r.choice([0, 0.0, 0.0, 1e-9, 1e-4, 0.00099, 0.001, 0.0011, 0.05, 0.2, -0.0005, 3.0, 0.099, 0.11, 2e3, 1e9]),
                     "fun": r.choice([base, base, base * r.uniform(0.5, 2), base * (1 + r.uniform(-1e-6, 1e-6))]), "success": r.random() < 0.7})
        prev = x
    return outs


def result(o, np):
    from scipy.optimize import OptimizeResult
    return OptimizeResult(x=np.array(o["x"], dtype=float), success=o["success"], status=o["status"], message="scripted %s" % o["status"], constr_violation=o["cv"], fun=o["fun"])


def reference(ins, ids, opt, used, x):
    """Costs of the frequencies x with the strategies this run uses, and the largest excess over a constraint."""
    obs = XObs(opt.extended_graph_obj, ins.net.mode_objs, ins.net.routes)
    trips, share = read_strategies(obs, opt.hyperpaths, opt.successors, opt.assignment, opt.Vij)
    at = copy.copy(ins)
    at.x = RefX(ins.city.ref, ins.modes, ins.net.routes, used_all(used, ids), ins.pax.pt)
    C = Costs(at, trips, share, dict(zip(ids, x)))
    have = {q.m for q in ins.net.routes}
    ex = [C.k[q.id] - ins.modes[q.m].kmax for q in ins.net.routes] + [
        v for (a, b, m), v in street_excess(ins.city.ref, ins.net.routes, ins.modes, dict(zip(ids, x))).items() if m in have]
    return C, max(ex)


def check_problem(cx, r, ins, ids, x0, opt, used, objective, excess):
    """The problem posed is the documented one, at random frequencies: same objective, same feasible set."""
    base = r.choice([x0, x0, [gen.num(r, 1, 60) for _ in ids]])
    scale = r.choice([0.05, 0.3, 1, 2, 5, 20, 400, 3000])
    x = [max(q, 0.05) * scale * r.uniform(0.5, 1.5) for q in base]
    C, ex = reference(ins, ids, opt, used, x)
    req_close(objective(x), C.vrc, "the solver is given another objective", 1e-6, 1e-6, frequencies=x)
    got = excess(x)
    if abs(ex) > 1e-6:
        require((got <= 0) == (ex <= 0), "the solver is given other constraints", frequencies=x, excess=got, expected=ex)
        cx.count("problem_feasible", ex <= 0)
        cx.count("problem_infeasible", ex > 0)
    j = r.randrange(len(x))
    neg = list(x)
    neg[j] = -r.choice([1e-3, 0.5, 3])
    try:
        out = excess(neg)
    except ZeroDivisionError:
        return
    require(out > 0, "negative frequencies are feasible for the solver", frequencies=neg, excess=out)
    cx.count("problem_negative")


def check_answer(cx, ins, opt, outs, want, reason, got, exc, what):
    from sidermit.exceptions import NoOptimalSolutionFoundException, SIDERMITException
    if want is None:
        require(exc is not None, "a result is returned although no run ended acceptably", got=repr(got), by=what)
        require(isinstance(exc, NoOptimalSolutionFoundException), "failure is not reported by the library's exception", got=repr(exc), by=what)
        cx.count("no_solution")
        return
    require(exc is None, "optimisation fails although a run ended acceptably", got=repr(exc), expected=want, by=what)
    require(len(got) == 6, "result has another form", got=repr(got))
    x, success, status, message, cv, fun = got
    wx = [0 if q < 1 / 24 else q for q in want["x"]]
    require(len(x) == len(wx) and all(a == b for a, b in zip(x, wx)), "the returned frequencies are not those of the cheapest acceptable run", got=list(x), expected=wx,
            runs=[(o["x"], o["status"], o["cv"], o["fun"]) for o in outs], by=what)
    require(fun == want["fun"] and status == want["status"] and cv == want["cv"] and success == want["success"], "the returned values are those of another run",
            got=repr(got), expected=want, by=what)
    require(all(q >= 0 for q in x) and abs(cv) < 0.001, "an unacceptable result is returned", got=repr(got))
    cx.count("returned")
    cx.count("zeroed", any(a != b for a, b in zip(wx, want["x"])))


def small_instance(r, real=False):
    return gen.make_instance(r, 1, 2, max_routes=r.choice([1, 2, 3, 4]) if not real else r.choice([1, 2, 2, 3]), zeros=0, freq="default", max_pairs=4, full_demand=0.1)


def scripted(cx):
    import numpy as np
    from sidermit.exceptions import SIDERMITException
    from sidermit.optimization.optimizer import Optimizer
    r = cx.rng
    ins = small_instance(r)
    if r.random() < 0.12:                                        # nothing but the demand limits the frequencies
        for i, o in enumerate(ins.net.mode_objs):
            ins.modes[i] = ins.modes[i]._replace(fmax=1e7, kmax=1e7)
            o.fmax, o.kmax = 1e7 * ins.modes[i].d, 1e7
        cx.count("hardly_limited")
    tol = r.choice([0.01, 0.01, 0.1, 1.0, 5.0])
    limit = r.choice([None, 0, 1, 2, 3, 5])
    x0 = [ins.modes[q.m].fini * ins.modes[q.m].d for q in ins.net.routes]
    f0 = None if r.random() < 0.6 else gen.ddict({q.id: gen.num(r, 1, 60) for q in ins.net.routes})
    outs = gen_outcomes(r, ins, x0, tol, r.randint(1, 7))
    if limit is None or limit >= len(outs):
        last = dict(outs[-1])                                    # make every script end
        last["x"] = list(outs[-1]["x"])
        if r.random() < 0.5:
            last["fun"] *= r.choice([1, 0.9, 1.1])
            last["status"], last["cv"] = r.choice([1, 2]), 0.0
        outs.append(last)
    ids = [q.id for q in ins.net.routes]
    conn = lambda x: connected(ins, {i: max(q, 0) for i, q in zip(ids, x)})
    n, reason = plan(x0, outs, tol, limit, conn)
    rebuilt = outs[:n] if reason == "disconnected" else outs[:n - 1]
    odd = any(q < 0 for o in rebuilt for q in o["x"])             # strategies are asked for at a negative frequency
    S = Script(outs)
    broken = r.randrange(len(outs)) if r.random() < 0.12 else None
    cx.desc = dict(gen.describe(ins), tolerance=tol, limit=limit, script=outs, planned=(n, reason), breaks_down=broken, f0=dict(f0) if f0 else None)
    cx.shape(repr(outs), tol, limit, repr(ids))

    def run_solver(opt, orig, fun, start, *a, **kw):
        o = S.next()
        S.runs.append((boarded(opt, ins), o))
        if len(S.runs) - 1 == broken:
            raise r.choice([ValueError("array must not contain infs or NaNs"), np.linalg.LinAlgError("scripted")])
        # the problem handed to the solver is the documented one: non-negative frequencies, all constraints at most zero
        require(len(start) == len(ids) and all(close(p, q, 1e-9, 0) for p, q in zip(start, x0)), "the solver is started elsewhere than at the modes' initial frequencies",
                got=list(start), expected=x0)
        if len(S.runs) <= 2:
            check_problem(cx, r, ins, ids, x0, opt, S.runs[-1][0], *posed(orig, fun, start, a, kw))
        cx.count("problem_checked")
        return result(o, np)

    how = r.choice(["network_optimization", "network_optimization", "external_optimization"])
    with solver(run_solver):
        cx.count("via_solver")
        got = exc = opt = None
        args = (ins.city.graph, ins.demand, gen.lib_pax(ins.pax), ins.net.net)
        try:
            if how == "network_optimization":
                opt = Optimizer.network_optimization(*args, f=f0, tolerance=tol, max_number_of_iteration=limit)
                got = opt.get_optimization_value()
            else:
                got = Optimizer.external_optimization(*args, f=f0, tolerance=tol, number_of_iteration=limit)
        except SIDERMITException as e:
            exc = e
    cx.count("runs", len(S.runs))
    cx.nontrivial = bool(S.runs)
    if odd:
        # a slightly negative frequency cannot be used to rebuild strategies in a meaningful way: only demand a clear outcome
        require(exc is not None or (got is not None and all(q >= 0 for q in got[0])), "neither a result nor a failure")
        cx.count("negative_rebuild")
        return
    if broken is not None and broken < n:
        # the solver cannot go on at this run: a library exception, or the best of the runs before it
        require(len(S.runs) == broken + 1, "the solver ran another number of times than prescribed before it broke down", got=len(S.runs), expected=broken + 1)
        cx.count("breakdown")
        if exc is None:
            check_answer(cx, ins, opt, outs[:broken], best(outs[:broken]), "breakdown", got, exc, how)
        return
    require(len(S.runs) == n, "the solver ran another number of times than the tolerance and the iteration limit prescribe", got=len(S.runs), expected=n, reason=reason,
            distances=[l1(a, b["x"]) for a, b in zip([x0] + [o["x"] for o in outs], outs)], tolerance=tol, limit=limit)
    cx.count({"limit": "stopped_by_limit", "tolerance": "stopped_by_tolerance", "disconnected": "disconnected", "exhausted": "exhausted"}[reason])
    cx.count("no_limit", limit is None)
    prev = {i: (f0[i] if f0 is not None else q) for i, q in zip(ids, x0)}
    for used, o in S.runs:
        for i, q in used.items():
            req_close(q, prev[i], "a run of the solver uses strategies of other frequencies than the latest ones", 1e-9, 1e-12, route=i)
        prev = dict(zip(ids, o["x"]))
    if reason == "disconnected":
        require(exc is not None, "frequencies that disconnect a demanded pair are not refused", frequencies=dict(zip(ids, outs[n - 1]["x"])))
        return
    runs = outs[:n]
    w = best(runs)
    check_answer(cx, ins, opt, runs, w, reason, got, exc, how)
    if w is not None:
        acc = [o for o in runs if acceptable(o)]
        cx.count("ties", len({o["fun"] for o in acc}) < len(acc))
        cx.count("later_is_better", runs.index(w) > 0)
        cx.count("earlier_is_better", runs.index(w) < n - 1)
        if opt is not None:
            s = opt.string_network_optimization(got)
            for i, q in zip(ids, got[0]):
                require("%s: %.2f" % (i, q) in s, "the printed optimisation result misses a frequency", route=i, frequency=q, text=s)
            require(str(got[5]) in s and str(got[4]) in s, "the printed optimisation result misses the objective or the violation", text=s)
    for o in runs:
        cx.count("rejected_status", o["status"] in (0, 3))
        cx.count("rejected_violation", abs(o["cv"]) >= 0.001)
        cx.count("rejected_negative", any(q < 0 for q in o["x"]))


def direct(cx):
    """The selection and the final status check on their own."""
    import numpy as np
    from sidermit.exceptions import ConstraintViolationException, NegativeFrequencyException, NoOptimalSolutionFoundException, SIDERMITException
    from sidermit.optimization.optimizer import Optimizer
    r = cx.rng
    k = r.randint(1, 5)
    x0 = [20.0] * k
    outs = gen_outcomes(r, None, x0, 0.5, r.randint(0, 8))
    cx.desc = {"script": outs}
    cx.shape("direct", repr(outs))
    tup = lambda o: (np.array(o["x"]) if r.random() < 0.5 else list(o["x"]), o["success"], o["status"], "m", o["cv"], o["fun"])
    lst = [tup(o) for o in outs]
    if r.random() < 0.7:
        lst.insert(0, (x0, "initialization", -1, "initialization", -1, -1))
    w = best(outs)
    got = Optimizer.get_better_result(lst)
    if w is None:
        require(got is None, "a result is selected although none is acceptable", got=repr(got))
    else:
        require(got is not None, "no result is selected although one is acceptable", expected=w)
        require(list(got[0]) == list(w["x"]) and got[5] == w["fun"] and got[2] == w["status"], "another result than the cheapest acceptable one is selected", got=repr(got), expected=w)
    cx.count("selection_checks")
    for o in outs + [None]:
        bad = o is None or o["status"] in (0, 3) or abs(o["cv"]) > 0.1 or any(q < -0.1 for q in o["x"])
        try:
            ans, exc = Optimizer.status_optimization(None if o is None else tup(o)), None
        except SIDERMITException as e:
            ans, exc = None, e
        require((exc is not None) == bad, "status check", outcome=o, answer=ans, raised=repr(exc))
        if exc is None:
            require(ans is True, "status check", outcome=o, answer=ans)
        cx.count("status_checks")


def real(cx):
    import numpy as np
    from sidermit.exceptions import SIDERMITException
    from sidermit.optimization.optimizer import Optimizer
    r = cx.rng
    ins = small_instance(r, True)
    limit = r.choice([0, 1, 2])
    tol = r.choice([0.01, 0.5])
    ids = [q.id for q in ins.net.routes]
    cx.desc = dict(gen.describe(ins), tolerance=tol, limit=limit)
    cx.shape("real", repr([q.spec() for q in ins.net.routes]), repr(sorted(ins.trips.items())))
    runs, broke = [], []

    def run(o, orig, fun, start, *a, **kw):
        used = boarded(o, ins)
        try:
            res = orig(fun, start, *a, **kw)
        except ValueError:
            broke.append(1)                                      # scipy gave up at a point without objective
            raise
        runs.append((o, used, {"x": [float(q) for q in res.x], "status": res.status, "cv": float(res.constr_violation), "fun": float(res.fun), "success": res.success}))
        return res

    got = exc = opt = None
    with solver(run):
        try:
            opt = Optimizer.network_optimization(ins.city.graph, ins.demand, gen.lib_pax(ins.pax), ins.net.net, tolerance=tol, max_number_of_iteration=limit)
            got = opt.get_optimization_value()
        except SIDERMITException as e:
            exc = e
    require(runs or broke, "the optimisation never ran the solver")
    if broke:
        cx.count("real_breakdown")
        require(exc is not None or (got is not None and acceptable({"x": got[0], "status": got[2], "cv": got[4], "fun": got[5]})), "the solver broke down but the result is not acceptable")
        return
    cx.count("real")
    cx.count("runs", len(runs))
    outs = [o for _, _, o in runs]
    x0 = [ins.modes[q.m].fini * ins.modes[q.m].d for q in ins.net.routes]
    if any(not math.isfinite(q) for o in outs for q in o["x"] + [o["fun"]]):
        cx.nontrivial = False
        return
    if any(q < 0 for o in outs[:-1] for q in o["x"]):
        cx.count("negative_rebuild")
        return
    conn = lambda x: connected(ins, dict(zip(ids, [max(q, 0) for q in x])))
    n, reason = plan(x0, outs, tol, limit, conn)
    require(n == len(outs) and reason != "exhausted", "the solver ran another number of times than prescribed", got=len(outs), expected=n, reason=reason)
    prev = dict(zip(ids, x0))
    for o, used, out in runs:
        for i, q in used.items():
            req_close(q, prev[i], "a run of the solver uses strategies of other frequencies than the latest ones", 1e-9, 1e-12, route=i)
        prev = dict(zip(ids, out["x"]))
        if all(q >= 0 for q in out["x"]):
            # what the solver reports about its point is true of the real objective and constraints
            try:
                obs = XObs(o.extended_graph_obj, ins.net.mode_objs, ins.net.routes)
                trips, share = read_strategies(obs, o.hyperpaths, o.successors, o.assignment, o.Vij)
                ins2 = ins
                ins2.x = RefX(ins.city.ref, ins.modes, ins.net.routes, used_all(used, ids), ins.pax.pt)
                C = Costs(ins2, trips, share, dict(zip(ids, out["x"])))
            except ZeroDivisionError:
                continue
            req_close(out["fun"], C.vrc, "the cost reported by the run is not the objective at its frequencies", 1e-6, 1e-6, frequencies=out["x"])
            used_m = {q.m for q in ins.net.routes}
            ex = [C.k[q.id] - ins.modes[q.m].kmax for q in ins.net.routes] + [
                v for (a, b, m), v in street_excess(ins.city.ref, ins.net.routes, ins.modes, dict(zip(ids, out["x"]))).items() if m in used_m]
            cvw = max([0.0] + ex)
            req_close(max(out["cv"], 0.0), cvw, "the constraint violation reported by the run is not that of its frequencies", 1e-6, 1e-6, frequencies=out["x"])
            cx.count("real_points")
    if reason == "disconnected":
        require(exc is not None, "frequencies that disconnect a demanded pair are not refused")
        return
    w = best(outs)
    check_answer(cx, ins, opt, outs, w, reason, got, exc, "real")
    cx.count("real_returned", w is not None)


def used_all(used, ids):
    return {i: used.get(i, 0.0) for i in ids}


def case(cx):
    k = cx.rng.random()
    if k < 0.72:
        scripted(cx)
    elif k < 0.94:
        direct(cx)
    else:
        real(cx)
