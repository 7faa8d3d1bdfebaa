from vf import gen
from vf.common import close, fail, req_close, require
from vf.pipe import Pipe, lib_table, table
from vf.ref import initial_access

gen.BIG_FAN = 0.15
CASES = {"quick": 8000, "thorough": 80000}
RULE = ("one resource account per case: access, waiting, in-vehicle time, transfers and the users' cost of a generated instance recomputed by an independent node-flow "
        "propagation, with the loading's own or arbitrary boarding/alighting tables, other frequencies than those of the strategies, shifted or multiplied demand; "
        "distinct by routes, frequencies and trips; non-trivial: some passengers travel")
MUST_SEE = ["accounts", "transfers", "mode_changes", "through_dwell", "circular", "different_return", "express", "sequential", "simultaneous", "other_frequencies",
            "arbitrary_tables", "two_start_stops", "scaled", "regularity_zero"]


def expected(P, f, z, v):
    W = P.flows(f)
    modes = P.ins.modes
    width = {c: nd.width for c, nd in P.ins.city.ref.nodes.items()}
    ta = initial_access(P.trips, P.share, modes, width, P.ins.pax.va) + W.access_extra
    return W, (ta, W.wait, W.ride_h + W.dwell_hours(z, v), W.transfers)


def case(cx):
    from sidermit.optimization import UsersCost
    from sidermit.optimization.preoptimization import Assignment
    r = cx.rng
    ins = gen.make_instance(r, 1, 4, max_routes=8, zeros=r.choice([0, 0.1, 0.3]), theta_min=r.choice([0.05, 0.05, 0]))
    P = Pipe(ins, split=r.choice(["library", "library", "random"]), rng=r)
    obs, x = P.obs, ins.x
    f = dict(ins.f) if r.random() < 0.6 else P.other_freq(r)
    cx.count("other_frequencies", f != ins.f)
    cx.desc = dict(gen.describe(ins), loaded_frequencies=f)
    cx.shape(tuple(ins.city.ref.order), repr([q.spec() for q in ins.net.routes]), repr(sorted(ins.f.items(), key=str)), repr(sorted(ins.trips.items())))
    fl = gen.ddict(f)
    zt, vt, lt = Assignment.get_alighting_and_boarding(P.V, P.H, P.S, P.A, fl)
    z, v = table(obs, zt), table(obs, vt)
    if r.random() < 0.2:
        modeof = {q.id: q.m for q in ins.net.routes}
        keys = sorted({k[1:] for k in x.rnodes}, key=str)
        z = {k: gen.num(r, 0, 60) for k in keys if r.random() < 0.8}
        v = {k: gen.num(r, 0, 60) for k in keys if r.random() < 0.8}
        zt, vt = lib_table(obs, z, modeof), lib_table(obs, v, modeof)
        cx.count("arbitrary_tables")
    W, want = expected(P, f, z, v)
    got = UsersCost.resources_consumer(P.H, P.V, P.A, P.S, P.xg, ins.pax.va, fl, zt, vt)
    require(len(got) == 4, "resources have another form")
    for n, g, w in zip(("access hours", "waiting hours", "in-vehicle hours", "transfers"), got, want):
        req_close(g, w, n, 1e-7, 1e-9 * max(1, sum(ins.trips.values())))
        require(g >= -1e-9, "negative " + n, got=g)
    px = ins.pax
    cost = UsersCost().get_users_cost(P.H, P.V, P.A, P.S, P.xg, fl, P.lib_pax, zt, vt)
    wc = want[0] * px.spa + want[1] * px.spw + want[2] * px.spv + want[3] * px.spt / 60 * px.spv
    req_close(cost, wc, "users' cost", 1e-7, 1e-9 * max(1, abs(wc)))
    # evaluating changed nothing it was given
    req_close(UsersCost().get_users_cost(P.H, P.V, P.A, P.S, P.xg, fl, P.lib_pax, zt, vt), cost, "asking again gives another users' cost", 1e-12, 0)
    g2 = {k: q for k, q in table(obs, zt).items() if q}, {k: q for k, q in table(obs, vt).items() if q}
    require(g2 == ({k: q for k, q in z.items() if q}, {k: q for k, q in v.items() if q}), "accounting changed the boarding or alighting tables")
    # weight one: k times the passengers with the same tables (per vehicle) cost k times as much
    if r.random() < 0.4:
        k = r.choice([2, 3, 0.5, 7.25])
        V2 = {o: {d: q * k for d, q in P.V[o].items()} for o in P.V}
        g3 = UsersCost.resources_consumer(P.H, V2, P.A, P.S, P.xg, ins.pax.va, fl, zt, vt)
        for n, a, b in zip(("access", "waiting", "in-vehicle", "transfers"), g3, got):
            req_close(a, b * k, "%s of %s times the passengers is not %s times as large" % (n, k, k), 1e-8, 1e-9)
        cx.count("scaled")
    cx.count("accounts")
    cx.count("transfers", W.transfers > 0)
    cx.count("mode_changes", W.access_extra > 0)
    cx.count("through_dwell", len(W.through))
    used = {k[0] for k in W.load}
    for q in ins.net.routes:
        if q.id in used:
            cx.count("circular", q.circular)
            cx.count("different_return", not q.circular and (q.nr != q.ni[::-1] or q.sr != q.si[::-1]))
            cx.count("express", q.si != q.ni or q.sr != q.nr)
            cx.count("simultaneous" if ins.modes[q.m].bya == 1 else "sequential")
            cx.count("regularity_zero", ins.modes[q.m].theta == 0)
    cx.count("two_start_stops", sum(1 for t in P.trips if sum(1 for q in t[2].values() if q > 0) > 1))
