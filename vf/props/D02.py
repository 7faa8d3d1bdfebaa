from vf import gen
from vf.cityobs import expect_refusal, snapshot
from vf.common import req_close, require

CASES = {"quick": 20000, "thorough": 200000}
RULE = ("histories of 1-60, rarely 600, operations (cell edits valid and refused, new demands built empty / by parameters / by matrix on the same city) over up to 3 live "
        "demands; every demand's full matrix and total compared with a shadow after every step; distinct by city ids and operation sequence; "
        "non-trivial: at least one accepted edit")
MUST_SEE = ["edits", "overwrites", "refused_negative", "refused_origin", "refused_destination", "observations", "two_demands", "tiny_histories", "dozens_of_zones"]


def case(cx):
    from sidermit.city import Demand
    r = cx.rng
    huge = r.random() < 0.002
    city = gen.make_city(r, 12, 30) if huge else gen.make_city(r, 1, 4)
    cx.count("dozens_of_zones", huge)
    ref = city.ref
    ids = ref.order
    unknown = [max(ids) + 1, -1] + [u for u in (0, 1, 2, 99) if u not in ref.nodes]
    before = snapshot(city.graph)
    ops, demands = [], []      # demands: (lib, shadow, biggest value seen)

    def new():
        k = 0 if tiny else r.random()
        if k < 0.4:
            d, kind = Demand(city.graph), "empty"
            sh = {(a, b): 0 for a in ids for b in ids}
        elif k < 0.75:
            kind = ("parameters", r.randint(0, 5000), r.random(), 0.5 * r.random(), 0.4 * r.random())
            d = Demand.build_from_parameters(city.graph, *kind[1:])
            m = d.get_matrix()
            sh = {(a, b): m[a][b] for a in ids for b in ids}
        else:
            nodes = [int(x.id) for x in city.graph.get_nodes()]
            sh = {(a, b): (gen.num(r, 0, 100) if r.random() < 0.5 else 0) for a in ids for b in ids}
            d = Demand.build_from_content(city.graph, [[sh[(a, b)] for b in nodes] for a in nodes])
            kind = "matrix"
        demands.append([d, sh, max(list(sh.values()))])
        ops.append(("new", kind))

    def observe(what):
        for i, (d, sh, big) in enumerate(demands):
            m = d.get_matrix()
            got = {(int(a), int(b)): m[a][b] for a in m for b in m[a]}
            require({int(a) for a in m} == set(ids), "the matrix has other rows than the city's nodes after: %s" % what, demand=i, ops=ops[-6:],
                    rows=sorted(int(a) for a in m))
            require(got == sh, "matrix differs from the accepted edits after: %s" % what, demand=i, ops=ops[-6:],
                    wrong={k: (got.get(k), sh.get(k)) for k in set(got) | set(sh) if got.get(k) != sh.get(k)})
            req_close(d.get_total_trips(), sum(sh.values()), "total differs from the sum of the cells after: %s" % what, 1e-9, 1e-12 * big * (1 + len(ops)),
                      demand=i, ops=ops[-6:])
            cx.count("observations")

    tiny = 10 ** r.uniform(-12, -4) if r.random() < 0.06 else 0      # a history of tiny demands
    cx.count("tiny_histories", tiny > 0)
    new()
    observe("construction")
    for step in range(r.choice([1, 3, 8, 20, 60]) if huge or r.random() < 0.998 else 600):
        if len(demands) < 3 and r.random() < 0.1:
            new()
            cx.count("two_demands")
            observe("another demand was built")
            continue
        t = r.choice(demands)
        d, sh = t[0], t[1]
        o, e = r.choice(ids), r.choice(ids)
        k = r.random()
        if k < 0.6:
            v = gen.num(r, 0, 10) * tiny if tiny else gen.num(r, 0, r.choice([1, 1000, 1e7])) if r.random() < 0.9 else r.choice([0, 0.0, 1e-300, 5])
            if sh[(o, e)]:
                cx.count("overwrites")
            d.change_vij(o, e, v)
            sh[(o, e)] = v
            t[2] = max(t[2], v)
            ops.append(("set", o, e, v))
            cx.count("edits")
        elif k < 0.73:
            ops.append(("negative", o, e))
            expect_refusal(lambda: d.change_vij(o, e, -r.choice([1e-12, 0.5, 100, 1e-15, 5e-324, 1e9])), "negative trips")
            cx.count("refused_negative")
        elif k < 0.86:
            u = r.choice(unknown)
            ops.append(("origin?", u, e))
            expect_refusal(lambda: d.change_vij(u, e, r.choice([0, 3.5])), "edit of an unknown origin")
            cx.count("refused_origin")
        else:
            u = r.choice(unknown)
            ops.append(("destination?", o, u))
            expect_refusal(lambda: d.change_vij(o, u, r.choice([0, 3.5])), "edit of an unknown destination")
            cx.count("refused_destination")
        observe(repr(ops[-1]))
    require(snapshot(city.graph) == before, "editing the demand changed the city")
    cx.nontrivial = any(x[0] == "set" for x in ops)
    cx.shape(tuple(ids), repr(ops))
    cx.desc = {"city": city.desc, "operations": ops[:80]}
