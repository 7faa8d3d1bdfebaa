from vf import gen
from vf.common import req_close, require
from vf.ref import mode_lengths

CASES = {"quick": 30000, "thorough": 300000}
RULE = ("infrastructure length and cost of one network per case under several frequency tables (zeros, tiny values, everything inactive), compared with the set of "
        "streets used; distinct by city ids, routes and frequencies; non-trivial: a mode is active")
MUST_SEE = ["hundreds_of_streets", "tables", "modes", "inactive_routes", "inactive_modes", "shared_streets", "both_modes_on_a_street", "only_return", "one_way", "circular", "tiny_frequency", "two_modes"]


def case(cx):
    from sidermit.optimization import InfrastructureCost
    r = cx.rng
    huge = r.random() < 0.003
    city = gen.make_city(r, 25, 60) if huge else gen.make_city(r, 1, 6)
    modes = gen.gen_modes(r)
    nt = gen.make_net(r, city, modes, max_routes=300 if huge else 14)
    cx.count("hundreds_of_streets", huge and len({e for q in nt.routes for s in (q.ni, q.nr) for e in zip(s, s[1:])}) > 100)
    cx.desc = {"city": city.desc, "modes": [tuple(m) for m in modes], "routes": [q.spec() for q in nt.routes], "f": []}
    cx.shape(tuple(city.ref.order), repr([q.spec() for q in nt.routes]))
    cx.nontrivial = False
    cx.count("two_modes", len({q.m for q in nt.routes}) == 2)
    for _ in range(r.randint(1, 4)):
        f = {q.id: r.choice([0, 0.0]) if r.random() < 0.4 else r.choice([1e-9, 0.01]) if r.random() < 0.15 else gen.num(r, 0.1, 100) for q in nt.routes}
        if r.random() < 0.1:
            f = {i: 0 for i in f}
        cx.desc["f"].append(f)
        cx.shape(repr(sorted(f.items(), key=str)))
        want = mode_lengths(city.ref, nt.routes, modes, f)
        fl = gen.ddict(f)
        got = InfrastructureCost.get_mode_network_distance(city.graph, nt.net, fl)
        names = {id(m): i for i, m in enumerate(nt.mode_objs)}
        g = {names[id(m)]: q for m, q in got.items()}
        for m in range(len(modes)):
            req_close(g.get(m, 0), want.get(m, 0), "infrastructure length of a mode", 1e-9, 1e-9, mode=m, frequencies=f)
            cx.count("modes", m in want)
        cost = InfrastructureCost.get_infrastruture_cost(city.graph, nt.net, fl)
        req_close(cost, sum(modes[m].c2 * q for m, q in want.items()), "infrastructure cost", 1e-9, 1e-9, frequencies=f)
        require({k: v for k, v in fl.items() if v} == {k: v for k, v in f.items() if v}, "computing the infrastructure changed the frequencies")
        req_close(InfrastructureCost.get_infrastruture_cost(city.graph, nt.net, fl), cost, "infrastructure cost asked again", 0, 0)
        cx.count("tables")
        cx.nontrivial |= bool(want)
        use = {}
        for q in nt.routes:
            if f[q.id] == 0:
                cx.count("inactive_routes")
                continue
            cx.count("circular", q.circular)
            cx.count("tiny_frequency", f[q.id] < 1)
            for d, s in (("I", q.ni), ("R", q.nr)):
                for a, b in zip(s, s[1:]):
                    use.setdefault(frozenset((a, b)), []).append((q.m, d, (a, b), q.id))
        cx.count("inactive_modes", sum(1 for m in range(len(modes)) if any(q.m == m for q in nt.routes) and m not in want))
        for e, us in use.items():
            cx.count("shared_streets", len({u[3] for u in us}) > 1)
            cx.count("both_modes_on_a_street", len({u[0] for u in us}) > 1)
            cx.count("only_return", {u[1] for u in us} == {"R"})
            cx.count("one_way", len({u[2] for u in us}) == 1)
