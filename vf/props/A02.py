from vf import gen
from vf.common import approx_map, close, fail, req_close, require
from vf.pipe import Pipe, table

gen.BIG_FAN = 0.15
CASES = {"quick": 4000, "thorough": 40000}
RULE = ("one loading per case of a generated instance's strategies, with the library's own or arbitrary splits and with the frequencies of the strategies or others "
        "(zeros included); tables compared with an independent node-flow propagation and with conservation at every stop, section, pair and route; distinct by routes, "
        "frequencies and trips; non-trivial: some passengers travel")
MUST_SEE = ["loadings", "stops_conserved", "sections", "transfers", "common_lines", "zero_frequency_routes", "other_frequencies", "circular", "two_start_stops",
            "most_loaded", "random_split", "mode_changes"]


def case(cx):
    from sidermit.optimization.optimizer import Optimizer
    from sidermit.optimization.preoptimization import Assignment
    r = cx.rng
    ins = gen.make_instance(r, 1, 4, max_routes=9, zeros=r.choice([0, 0.1, 0.3]))
    split = r.choice(["library", "library", "random"])
    P = Pipe(ins, width=r.uniform(0.05, 4) if r.random() < 0.5 else None, split=split, rng=r)
    obs, x = P.obs, ins.x
    cx.desc = dict(gen.describe(ins), split=split)
    cx.count("random_split", split == "random")
    cx.shape(tuple(ins.city.ref.order), repr([q.spec() for q in ins.net.routes]), repr(sorted(ins.f.items(), key=str)), repr(sorted(ins.trips.items())))
    last = None
    for rep in range(r.choice([1, 2, 3])):
        if rep and r.random() < 0.5 and last is not None:
            f = last[0]                                   # same question again
        else:
            f = dict(ins.f) if rep == 0 and r.random() < 0.6 else P.other_freq(r)
        cx.count("other_frequencies", f != ins.f)
        cx.count("zero_frequency_routes", any(v == 0 for v in f.values()))
        fl = gen.ddict(f)
        zt, vt, lt = Assignment.get_alighting_and_boarding(P.V, P.H, P.S, P.A, fl)
        require({k: v for k, v in fl.items() if v} == {k: v for k, v in f.items() if v}, "loading changed the frequencies")
        z, v, load = table(obs, zt), table(obs, vt), table(obs, lt)
        cx.desc["loaded_frequencies"] = f
        W = P.flows(f)
        zr, vr, lr = W.per_vehicle()
        scale = max(list(zr.values()) + list(vr.values()) + [1e-9])
        tol = 1e-9 * scale + 1e-12
        for t, n in ((z, "boardings"), (v, "alightings"), (load, "section load")):
            for k, q in t.items():
                require(q >= 0, "negative " + n, at=k, got=q)
        # conservation, from the library's tables alone
        tot = sum(ins.trips.values())
        Z = sum(q * f[k[0]] for k, q in z.items())
        Al = sum(q * f[k[0]] for k, q in v.items())
        req_close(Z, Al, "passengers boarding and alighting differ in total", 1e-8)
        short = Z - tot
        require(short >= -1e-8 * tot, "fewer boardings than trips", boardings=Z, trips=tot)
        at_stop = {}
        for k in set(z) | set(v) | set(load):
            m = x.rmode.get(("R",) + k)
            require(m is not None, "flow at a stop the route does not have", at=k)
        for q in ins.net.routes:
            for d, ns, ss in q.dirs():
                legs = list(zip(ss, ss[1:]))
                if q.circular:
                    for a, b in legs:
                        req_close(load.get((q.id, d, b), 0), load.get((q.id, d, a), 0) + z.get((q.id, d, b), 0) - v.get((q.id, d, b), 0),
                                  "load is not conserved at a stop", 1e-8, tol, route=q.id, direction=d, stop=b)
                        cx.count("stops_conserved")
                    cx.count("circular", any(load.get((q.id, d, a)) for a, b in legs))
                else:
                    cur = 0.0
                    for s in ss:
                        cur += z.get((q.id, d, s), 0) - v.get((q.id, d, s), 0)
                        req_close(load.get((q.id, d, s), 0), cur, "load is not conserved at a stop", 1e-8, tol * 10, route=q.id, direction=d, stop=s)
                        cx.count("stops_conserved")
                    req_close(cur, 0, "passengers remain on board at the end of the route", 1e-8, tol * 10, route=q.id, direction=d)
        # against the independent propagation
        approx_map(z, zr, "boardings per vehicle", 1e-8, tol)
        approx_map(v, vr, "alightings per vehicle", 1e-8, tol)
        approx_map(load, lr, "section load per vehicle", 1e-8, tol)
        req_close(W.arrived, tot, "trips lost or multiplied on the way", 1e-8)
        for p, q in ins.trips.items():
            req_close(W.per_od_arr.get(p, 0), q, "passengers of a pair do not all arrive", 1e-8, pair=p)
        req_close(short, W.transfers, "transfers board as often as they alight", 1e-6, 1e-6 * max(tot, 1))
        # most loaded section and vehicle size
        for fn in (Assignment.most_loaded_section, Optimizer.get_k):
            k = fn(lt)
            for q in ins.net.routes:
                want = max([val for key, val in lr.items() if key[0] == q.id] or [0])
                req_close(k[q.id], want, "most loaded section", 1e-8, tol, route=q.id, by=fn.__name__)
                cx.count("most_loaded")
        if last is not None and last[0] == f:
            require((z, v, load) == last[1:], "loading the same passengers twice gives different tables")
        last = (f, z, v, load)
        cx.count("loadings")
        cx.count("sections", len(lr))
        cx.count("transfers", W.transfers > 0)
        cx.count("mode_changes", W.access_extra > 0)
        cx.count("two_start_stops", sum(1 for t in P.trips if sum(1 for q in t[2].values() if q > 0) > 1))
        cx.count("common_lines", sum(1 for g in P.stops_boarded() if len(g) > 1))
    cx.nontrivial = bool(ins.trips)
