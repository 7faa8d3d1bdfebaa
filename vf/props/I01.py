import contextlib
import os
import pickle
import random
import select
import shutil
import signal
import tempfile
import time
import traceback

from vf import gen
from vf.baton import Baton
from vf.cityobs import snapshot
from vf.common import close, fail, require
from vf.netobs import mode_value, net_value, pax_value
from vf.optobs import scripted_result, solver
from vf.runner import repo_path

gen.LONG_ZONES = (9, 16)  # each instance is solved many times
gen.TINY = False         # the final point of an optimisation is rounded below 1/24

CASES = {"quick": 240, "thorough": 4000}
CASE_CPU = 600
RULE = ("2-4 complete sessions (city, demand, network, strategies, costs, objective, optimisation with a scripted solver, reports, files, plots, refused operations) each run alone in a "
        "fresh process, then together in one fresh process under a seeded schedule: the same session twice in a row, one after the other, interleaved call by call, preempted at "
        "arbitrary lines of library code in separate threads, or several analyses of the same city and network objects, or many short-lived problems after one another; sessions often have equal names and ids but other distances, parameters or trips; every observation must be the same as alone; "
        "distinct by sessions and schedule; non-trivial: at least one switch between sessions")
MUST_SEE = ["sessions", "observations", "switches", "public", "line", "sequence", "shared", "refused_inside", "plots_inside", "same_seed_twice", "twins", "churn"]
ASSUMPTIONS = ["sessions in different threads do not share any object; sessions sharing a city and a network are interleaved only between public calls"]


# ------------------------------------------------------------------ one session
class Log:
    def __init__(self):
        self.items = []

    def __call__(self, what, value):
        self.items.append((what, value))


def attempt(log, what, fn):
    """The outcome of an operation that may be refused."""
    try:
        fn()
        log(what, "accepted")
    except Exception as e:
        log(what, "%s: %s" % (type(e).__name__, e))


def strategies(log, ins, P):
    k = P.obs.key
    log("labels", sorted(((k[o], k[d], k[n]), P.L[o][d][n]) for o in P.L for d in P.L[o] for n in P.L[o][d]))
    log("successors", sorted((k[o], k[d], k[n], tuple(sorted(k[e.nodej] for e in P.S[o][d][n]))) for o in P.S for d in P.S[o] for n in P.S[o][d] if P.S[o][d][n]))
    log("paths", sorted((k[o], k[d], k[s], sorted(tuple(k[n] for n in p) for p in P.H[o][d][s])) for o in P.H for d in P.H[o] for s in P.H[o][d]))
    log("shares", sorted((a, sorted(b.items())) for a, b in P.share.items()))


def costs(log, ins, P, f):
    from sidermit.optimization import Constrains, InfrastructureCost, OperatorsCost, UsersCost
    from sidermit.optimization.preoptimization import Assignment
    fd = gen.ddict(dict(f))
    z, v, load = Assignment.get_alighting_and_boarding(P.V, P.H, P.S, P.A, fd)
    k = P.obs.key
    for n, t in (("boardings", z), ("alightings", v), ("loads", load)):
        log(n, sorted(((a, b, k[s]), t[a][b][s]) for a in t for b in t[a] for s in t[a][b]))
    most = Assignment.most_loaded_section(load)
    log("most loaded", sorted(most.items(), key=str))
    routes = ins.net.net.get_routes()
    oc = OperatorsCost()
    line = oc.lines_travel_time(routes, ins.city.graph.get_edges_distance())
    cyc = oc.get_cycle_time(z, v, routes, line)
    log("cycle times", sorted(cyc.items(), key=str))
    log("operators", oc.get_operators_cost(routes, cyc, fd, most))
    log("infrastructure", InfrastructureCost().get_infrastruture_cost(ins.city.graph, ins.net.net, fd))
    uc = UsersCost()
    log("users", uc.get_users_cost(P.H, P.V, P.A, P.S, P.xg, fd, P.lib_pax, z, v))
    log("users' resources", list(uc.resources_consumer(P.H, P.V, P.A, P.S, P.xg, P.lib_pax.va, fd, z, v)))
    c = Constrains()
    log("capacity", list(c.most_loaded_section_constrains(routes, most)))
    log("streets", sorted(c.fmax_constrains(ins.city.graph, routes, ins.net.net.get_modes(), fd)))


def optimiser(log, r, ins, P, tmp, tag):
    from sidermit.optimization.optimizer import Optimizer
    args = (ins.city.graph, ins.demand, gen.lib_pax(ins.pax), ins.net.net)
    start = gen.ddict(dict(ins.f))
    o = Optimizer(*args, start)
    for _ in range(r.randint(1, 3)):
        f = P.other_freq(r)
        vec = [f[q.id] for q in ins.net.routes]
        log("objective", float(o.VRC(vec)))
        log("constraints", [float(x) for x in o.get_constrains(vec)])
    try:
        done = Optimizer.network_optimization(*args, f=start, max_number_of_iteration=2)
    except Exception as e:
        log("optimisation", "%s: %s" % (type(e).__name__, e))
        return
    res = done.get_optimization_value()
    log("optimum", [float(x) for x in res[0]] + [float(res[5])])
    rows = done.get_network_results()
    log("report", [tuple(x) for x in rows])
    out = done.get_overall_results()
    log("overall", sorted((n, sorted((m.name, y) for m, y in x.items()) if hasattr(x, "items") else x) for n, x in out.items()))
    log("printed", done.string_overall_results() + done.string_network_results() + done.string_network_optimization(res))
    p = os.path.join(tmp, "res_%s.csv" % tag)
    done.write_file_network_results(p)
    with open(p, encoding="utf-8") as h:
        log("saved report", h.read())


def session(seed, tmp, tag, shared=None, plots=False, twisted=None):
    """Observations of one complete session; shared: (instance, seed of the instance) used by several sessions."""
    from sidermit.city import Demand, Graph
    from sidermit.exceptions import SIDERMITException
    from sidermit.optimization.preoptimization import Hyperpath
    from sidermit.publictransportsystem import Passenger, Route, TransportMode, TransportNetwork
    from vf.pipe import Pipe
    r = random.Random("session %s" % seed)
    log = Log()
    own = shared is None
    if own:
        ins = gen.make_instance(r, 1, r.choice([2, 2, 2, 3]), max_routes=6, zeros=r.choice([0, 0.1]), max_pairs=5, full_demand=0.3)
        if twisted is not None:
            ins = twin(ins, random.Random("twin %s" % twisted))
    else:
        import copy
        ins = copy.copy(shared)
        ins.f = gen.gen_freq(r, ins.net.routes, 0, 2, 60)
        ins.pax = gen.gen_pax(r)
        from vf.ref import RefX
        ins.x = RefX(ins.city.ref, ins.modes, ins.net.routes, ins.f, ins.pax.pt)
    g, net = ins.city.graph, ins.net.net

    def world(n):
        log("city %d" % n, snapshot(g))
        log("lengths %d" % n, sorted((int(a), int(b), q) for a, t in g.get_edges_distance().items() for b, q in t.items()))
        m = ins.demand.get_matrix()
        log("demand %d" % n, sorted((int(a), int(b), q) for a in m for b, q in m[a].items()) + [ins.demand.get_total_trips()])
        log("network %d" % n, [(x[1], x[3]) for x in net_value(net)[0]] + [x[1] for x in net_value(net)[1]])
        log("modes %d" % n, [mode_value(x) for x in ins.net.mode_objs])
    world(0)
    if own and r.random() < 0.5:
        p = os.path.join(tmp, "city_%s.net" % tag)
        g.graph_to_pajek_file(p)
        by_file = r.random() < 0.5
        try:                                         # a city whose peripheries are nearer than its subcenters cannot be imported
            log("imported city", snapshot(Graph.build_from_file(p) if by_file else Graph.build_from_content(g.export_graph())))
        except SIDERMITException as e:
            log("imported city", type(e).__name__ + str(e))
        ins.demand.matrix_to_file(p)
        log("demand read back", Demand.build_from_file(g, p).get_total_trips())
        net.routes_to_file(p)
        with open(p, encoding="utf-8") as h:
            log("saved routes", h.read())
    P = Pipe(ins)
    strategies(log, ins, P)
    if own and r.random() < 0.7:
        # operations that are refused half-way must not leave anything behind for anybody else
        for k in r.sample(range(7), 3):
            if k == 0:
                attempt(log, "bad city", lambda: Graph.build_from_content("*vertices 3\n1 a 0 0 CBD 0 1\n2 b 1 1 P 1 1\n2 c 2 2 SC 1 1\n"))
            elif k == 1:
                attempt(log, "bad parameters", lambda: Graph.build_from_parameters(3, 10, 0.5, 2, angles=[1, 2]))
            elif k == 2:
                attempt(log, "bad demand", lambda: ins.demand.change_vij(-5, ins.city.ref.order[0], 3))
            elif k == 3:
                attempt(log, "bad demand value", lambda: ins.demand.change_vij(ins.city.ref.order[0], ins.city.ref.order[-1], -3))
            elif k == 4:
                attempt(log, "route twice", lambda: net.add_route(net.get_routes()[0]))
            elif k == 5:
                attempt(log, "bad route", lambda: Route("z", ins.net.mode_objs[0], "1,2,1", "1,2,1", "1", "1"))
            else:
                attempt(log, "bad mode", lambda: TransportMode("m", 1, 1, 1, 1, 1, 1, 1, -4, 1, 0, 1, 1))
    costs(log, ins, P, ins.f)
    f2 = P.other_freq(r)
    costs(log, ins, P, f2)
    log("printed graph", str(P.xg))
    hp = Hyperpath(P.xg, P.lib_pax)
    log("printed strategies", hp.string_all_hyperpaths(P.H, P.L, P.S, P.V))
    optimiser(log, r, ins, P, tmp, tag)
    if own:
        # the session goes on with an edited problem
        o, d = r.choice(sorted(ins.trips))
        ins.demand.change_vij(o, d, gen.num(r, 1, 900))
        ins.trips[(o, d)] = ins.demand.get_matrix()[o][d]
        if r.random() < 0.5:
            g3 = Graph.build_from_parameters(*r.choice([(2, 8, 0.4, 1), (4, 10, 0.6, 2), (0, 3, 0.5, 1), (), (3, 7, 0.2, 1, 0.5, 2)]))
            log("another city", snapshot(g3))
            n3 = TransportNetwork(g3)
            md = TransportMode.get_default_modes()
            log("default modes", [mode_value(x) for x in md])
            log("default passenger", pax_value(Passenger.get_default_passenger()))
            px = Passenger.get_default_passenger()
            for x, names in ((md[0], ("co", "c2", "v", "t", "kmax", "tat")), (px, ("va", "spw", "spt"))):
                a = r.choice(names)
                setattr(x, a, getattr(x, a) + r.choice([1, 2.5]))
            log("edited defaults", (mode_value(md[0]), pax_value(px)))
            if g3.get_n() >= 1:
                for q in n3.get_radial_routes(md[0], r.random() < 0.5, r.random() < 0.5) + n3.get_feeder_routes(md[1]):
                    n3.add_route(q)
                if r.random() < 0.5:
                    n3.remove_transport_mode(md[0])
            log("another network", [(x[1], x[3]) for x in net_value(n3)[0]])
            d3 = Demand.build_from_parameters(g3, 1000, 0.5, 0.3, 0.3)
            log("another demand", d3.get_total_trips())
        P = Pipe(ins)
        strategies(log, ins, P)
        costs(log, ins, P, ins.f)
    if plots:
        p = os.path.join(tmp, "plot_%s.png" % tag)
        if r.random() < 0.5:
            g.plot(p)
        else:
            net.plot(p, list_routes=[x.id for x in net.get_routes()][:r.randint(0, 3)])
        with open(p, "rb") as h:
            log("plot", h.read())
    world(1)
    return log.items


def shared_instance(seed):
    return gen.make_instance(random.Random("shared %s" % seed), 1, 3, max_routes=6, zeros=0, max_pairs=5, full_demand=0.3)


def twin(ins, r):
    """Another problem with the same names, ids and routes: other distances, mode or passenger parameters, trips or frequencies."""
    from sidermit.city import Demand, Graph
    from sidermit.publictransportsystem import Route, TransportNetwork
    from sidermit.publictransportsystem.network import RouteType
    from vf.ref import Node, RefCity, RefX
    out = gen.Instance()
    what = r.sample(["lengths", "modes", "passenger", "trips", "frequencies"], r.randint(1, 3))
    desc = ins.city.desc
    k = r.uniform(0.5, 2) if "lengths" in what else 1.0
    if desc["kind"] == "parameters":
        kw = {a: b for a, b in desc.items() if a != "kind"}
        kw["l"] *= k
        city = gen.City(Graph.build_from_parameters(**kw), RefCity.from_params(**kw), {"kind": "parameters", **kw})
    else:
        rows = [Node(*x) for x in desc["rows"]]
        rows = [x._replace(x=x.x * k, y=x.y * k) for x in rows]
        city = gen.City(Graph.build_from_content(gen.rows_text(rows)), RefCity(rows), {"kind": "rows", "rows": [tuple(x) for x in rows]})
    modes = list(ins.modes)
    if "modes" in what:
        modes = [m._replace(v=m.v * r.uniform(0.5, 2), t=m.t * r.uniform(0.5, 2), co=m.co * r.uniform(0.5, 2)) for m in modes]
    objs = [gen.lib_mode(m) for m in modes]
    net = TransportNetwork(city.graph)
    for q in ins.net.routes:
        net.add_route(Route(q.id, objs[q.m], *(gen.seq_text(x) for x in (q.ni, q.nr, q.si, q.sr)), **({"_type": RouteType.CIRCULAR} if q.circular else {})))
    out.city, out.modes, out.net = city, modes, gen.Net(city, modes, objs, net, ins.net.routes)
    out.f = {i: q * r.uniform(0.5, 2) for i, q in ins.f.items()} if "frequencies" in what else dict(ins.f)
    out.pax = gen.gen_pax(r) if "passenger" in what else ins.pax
    out.trips = {p: v * r.uniform(0.5, 2) for p, v in ins.trips.items()} if "trips" in what else dict(ins.trips)
    out.demand = Demand(city.graph)
    for (a, b), v in out.trips.items():
        out.demand.change_vij(a, b, v)
    out.x = RefX(city.ref, modes, out.net.routes, out.f, out.pax.pt)
    return out


def mini(seed, i):
    """A short piece of work that keeps nothing."""
    from vf.pipe import Pipe
    r = random.Random("mini %s" % seed)
    ins = gen.make_instance(r, 1, 2, max_routes=3, zeros=0, max_pairs=2, full_demand=0.2)
    if i:
        ins = twin(ins, random.Random("mini %s %d" % (seed, i)))
    log = Log()
    g = ins.city.graph
    log("city", snapshot(g))
    log("lengths", sorted((int(a), int(b), q) for a, t in g.get_edges_distance().items() for b, q in t.items()))
    log("total", ins.demand.get_total_trips())
    P = Pipe(ins)
    strategies(log, ins, P)
    costs(log, ins, P, ins.f)
    from sidermit.optimization.optimizer import Optimizer
    o = Optimizer(g, ins.demand, P.lib_pax, ins.net.net, gen.ddict(dict(ins.f)))
    vec = [ins.f[q.id] for q in ins.net.routes]
    log("objective", float(o.VRC(vec)))
    log("constraints", [float(x) for x in o.get_constrains(vec)])
    return log.items


# ------------------------------------------------------------------ processes
def in_child(fn, timeout=300):
    """fn() evaluated in a forked process; its result, or a violation if it dies."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            try:
                res = ("ok", fn())
            except BaseException as e:
                res = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2500:]))
            data = pickle.dumps(res)
            with os.fdopen(wr, "wb") as h:
                h.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    buf, end = b"", time.time() + timeout
    try:
        while True:
            ok, _, _ = select.select([rd], [], [], max(0.0, end - time.time()))
            if not ok:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                fail("a session does not end within %d s" % timeout)
            b = os.read(rd, 1 << 20)
            if not b:
                break
            buf += b
    finally:
        os.close(rd)
    with contextlib.suppress(ChildProcessError):
        os.waitpid(pid, 0)
    require(buf, "a session ended its process")
    kind, val = pickle.loads(buf)
    require(kind == "ok", "a session fails", error=val)
    return val


def stub(*a, **kw):
    return scripted_result(a[3], 1, 0.0, 7.0)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, int)) and isinstance(b, (float, int)) and not isinstance(a, bool):
        return close(a, b, 1e-9, 1e-12) or a == b
    return a == b


def diff(a, b, path=""):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return diff(x, y, "%s[%d]" % (path, i))
    return {"at": path, "alone": repr(a)[:300], "together": repr(b)[:300]}


def case(cx):
    r = cx.rng
    kind = r.choice(["public", "public", "line", "line", "sequence", "shared", "shared", "churn", "churn"])
    if kind == "churn":
        return churn(cx, r)
    n = r.choice([2, 2, 3]) if kind == "line" else r.choice([2, 3, 3, 4])
    base = "%s:%s" % (cx.seed, cx.index)
    seeds = ["%s:%d" % (base, i) for i in range(n)]
    if r.random() < 0.3:
        seeds[1] = seeds[0]                          # two sessions on equal but distinct objects
        cx.count("same_seed_twice")
    twist = [None] * n
    if kind != "shared" and r.random() < 0.6:        # same names and ids, another problem
        for i in range(1, n):
            if r.random() < 0.7:
                seeds[i], twist[i] = seeds[0], i
        cx.count("twins", any(twist))
    keys = list(zip(seeds, twist))
    plots = kind in ("public", "sequence") and r.random() < 0.25
    root = os.path.join(cx.tmp, "i01_%d" % cx.index)
    os.makedirs(root)
    lib = os.path.join(os.path.realpath(repo_path()), "sidermit")

    def alone(i):
        def f():
            sh = shared_instance(base) if kind == "shared" else None
            d = tempfile.mkdtemp(dir=root)
            with solver(stub):
                return session(seeds[i], d, str(i), sh, plots, twist[i])
        return f

    def together():
        d = tempfile.mkdtemp(dir=root)
        with solver(stub):
            if kind == "sequence":
                order = list(range(n))
                random.Random(base).shuffle(order)
                out = [None] * n
                for i in order:
                    out[i] = session(seeds[i], d, str(i), None, plots, twist[i])
                return out, n - 1, 0, order
            sh = shared_instance(base) if kind == "shared" else None
            b = Baton(random.Random("baton " + base), 0.003 if kind == "line" else 0.5, "line" if kind == "line" else "public", lib)
            res = b.run([lambda i=i: session(seeds[i], d, str(i), sh, plots, twist[i]) for i in range(n)])
            for x in res:
                if isinstance(x, BaseException):
                    raise x
            return res, b.switches, len(b.points), b.schedule[:40]
    want = {}
    for i in range(n):
        if keys[i] not in want:
            want[keys[i]] = in_child(alone(i))
    got, switches, points, sched = in_child(together)
    cx.count(kind)
    cx.count("sessions", n)
    cx.count("switches", switches)
    cx.count("switch_points", points)
    cx.count("plots_inside", plots)
    cx.nontrivial = switches > 0
    cx.shape(kind, tuple(keys), tuple(sched))
    cx.desc = {"kind": kind, "sessions": keys, "switches": switches, "schedule": sched}
    for i in range(n):
        compare(cx, want[keys[i]], got[i], i, kind)
    shutil.rmtree(root, ignore_errors=True)


def churn(cx, r):
    """Many short-lived problems one after the other in one process, against each of them in a process of its own."""
    base = "%s:%s" % (cx.seed, cx.index)
    n = r.randint(6, 14)
    jobs = [("%s:%d" % (base, r.randrange(3)), i if r.random() < 0.85 else 0) for i in range(n)]
    collect = r.random() < 0.5

    def together():
        import gc
        out = []
        for j in jobs:
            out.append(mini(*j))
            if collect:
                gc.collect()
        return out
    want = {}
    for j in jobs:
        if j not in want:
            want[j] = in_child(lambda: mini(*j))
    got = in_child(together)
    cx.count("churn")
    cx.count("sessions", n)
    cx.count("switches", n - 1)
    cx.shape("churn", tuple(jobs))
    cx.desc = {"kind": "churn", "jobs": jobs}
    for i, j in enumerate(jobs):
        compare(cx, want[j], got[i], i, "churn")


def compare(cx, a, b, i, kind):
    require([x[0] for x in a] == [x[0] for x in b], "a session takes another course when others run beside it", session=i, kind=kind,
            alone=[x[0] for x in a], together=[x[0] for x in b])
    for x, y in zip(a, b):
        if not same(x[1], y[1]):
            fail("a session observes another %s when others run beside it" % x[0], session=i, kind=kind, **diff(x[1], y[1]))
        cx.count("observations")
        cx.count("refused_inside", isinstance(x[1], str) and "Exception" in x[1][:60])
