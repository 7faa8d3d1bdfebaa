from vf import gen
from vf.common import close, fail, req_close, require
from vf.pipe import Pipe, lib_table, table
from vf.ref import cycle_time, line_time

CASES = {"quick": 6000, "thorough": 60000}
RULE = ("running times, cycle times and operators' cost of one network per case, with the boarding/alighting tables of a loading or arbitrary ones (stops with only "
        "boardings or only alightings, both directions), compared with independent sums; distinct by routes, frequencies and tables; non-trivial: a route is active")
MUST_SEE = ["running_times", "cycle_times", "costs", "only_boardings", "only_alightings", "both", "sequential", "simultaneous", "circular", "inactive", "from_loading",
            "arbitrary", "different_return"]


def case(cx):
    from sidermit.optimization import OperatorsCost
    from sidermit.optimization.optimizer import Optimizer
    from sidermit.optimization.preoptimization import Assignment
    r = cx.rng
    ins = gen.make_instance(r, 1, 5, max_routes=10, zeros=r.choice([0, 0.1, 0.3]))
    P = Pipe(ins)
    obs, x = P.obs, ins.x
    f = dict(ins.f) if r.random() < 0.5 else P.other_freq(r)
    modeof = {q.id: q.m for q in ins.net.routes}
    fl = gen.ddict(f)
    if r.random() < 0.5:
        zt, vt, lt = Assignment.get_alighting_and_boarding(P.V, P.H, P.S, P.A, fl)
        z, v = table(obs, zt), table(obs, vt)
        k = {q.id: Optimizer.get_k(lt)[q.id] for q in ins.net.routes}
        cx.count("from_loading")
    else:
        keys = sorted({q[1:] for q in x.rnodes}, key=str)
        share = r.choice([0.3, 0.6, 1])
        z = {q: gen.num(r, 0, 60) for q in keys if r.random() < share}
        v = {q: gen.num(r, 0, 60) for q in keys if r.random() < share}
        zt, vt = lib_table(obs, z, modeof), lib_table(obs, v, modeof)
        k = {q.id: gen.num(r, 0, 400) for q in ins.net.routes}
        cx.count("arbitrary")
    cx.desc = dict(gen.describe(ins), f=f, z={str(a): b for a, b in z.items()}, v={str(a): b for a, b in v.items()}, k=k)
    cx.shape(repr([q.spec() for q in ins.net.routes]), repr(sorted(f.items(), key=str)), repr(sorted(z.items(), key=str)), repr(sorted(v.items(), key=str)))
    routes = list(P.routes)
    order = list(range(len(routes)))
    if r.random() < 0.4:
        r.shuffle(order)
        if r.random() < 0.5:
            order = order[:r.randint(1, len(order))]
    libs = [routes[i] for i in order]
    refs = [ins.net.routes[i] for i in order]
    ltt = OperatorsCost.lines_travel_time(libs, ins.city.graph.get_edges_distance())
    ct = OperatorsCost.get_cycle_time(zt, vt, libs, ltt)
    require(set(ltt) == {q.id for q in refs} and set(ct) == {q.id for q in refs}, "running or cycle times do not cover exactly the routes asked for",
            got=[sorted(map(str, ltt)), sorted(map(str, ct))])
    total = 0.0
    for q in refs:
        md = ins.modes[q.m]
        w = line_time(ins.city.ref, q, md)
        req_close(ltt[q.id], w, "running time of a route", 1e-9, 1e-12, route=q.id)
        wc = cycle_time(w, q, md, z, v)
        req_close(ct[q.id], wc, "cycle time of a route", 1e-9, 1e-12, route=q.id, running=w, bya=md.bya)
        cx.count("running_times")
        cx.count("cycle_times")
        if f[q.id] != 0:
            total += (md.co + md.c1 * k[q.id]) * f[q.id] * wc
        else:
            cx.count("inactive")
        cx.count("circular", q.circular)
        cx.count("different_return", not q.circular and q.nr != q.ni[::-1])
        cx.count("simultaneous" if md.bya == 1 else "sequential")
    for key in set(z) | set(v):
        a, b = z.get(key, 0), v.get(key, 0)
        cx.count("both" if a and b else "only_boardings" if a else "only_alightings" if b else "neither")
    got = OperatorsCost.get_operators_cost(libs, ct, fl, gen.ddict(k))
    req_close(got, total, "operators' cost", 1e-9, 1e-9)
    cx.count("costs")
    # the cost of a set of routes is the sum of the costs of its routes
    one = [OperatorsCost.get_operators_cost([y], ct, fl, gen.ddict(k)) for y in libs]
    req_close(sum(one), total, "operators' cost of the routes one by one", 1e-9, 1e-9)
    for y, c in zip(libs, one):
        require(c >= 0 and (f[y.id] != 0 or c == 0), "cost of an inactive route, or negative", route=y.id, got=c)
    ct2 = OperatorsCost.get_cycle_time(zt, vt, libs, ltt)
    require(dict(ct2) == dict(ct), "cycle times change when asked again")
    nz = {a: b for a, b in z.items() if b}, {a: b for a, b in v.items() if b}
    g = {a: b for a, b in table(obs, zt).items() if b}, {a: b for a, b in table(obs, vt).items() if b}
    require(nz == g, "computing cycle times changed the boarding or alighting tables")
    cx.nontrivial = any(f[q.id] for q in refs)
