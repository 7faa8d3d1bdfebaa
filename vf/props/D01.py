import math

from vf import gen
from vf.cityobs import expect_refusal, snapshot
from vf.common import fail, req_close, require

gen.SCALE, gen.SCALES = 0.03, (1e-3, 0.01, 20, 1e3, 1e6)
CASES = {"quick": 40000, "thorough": 400000}
RULE = ("(city, y, a, alpha, beta) over generated cities of 0-7, rarely 40, zones with boundary-biased shares, plus out-of-domain tuples; every cell of the "
        "matrix compared with the documented value; distinct by zones, ids and parameters; non-trivial: at least one zone and positive demand, or a refusal")
MUST_SEE = ["cells", "refused", "boundary", "one_zone", "many_zones", "zero_zones", "places_at_the_origin", "tiny_remainder", "dozens_of_zones"]


def share(r):
    k = r.random()
    if k < 0.15:
        return 0
    if k < 0.3:
        return r.choice([0.5, 0.25, 0.1, 0.2, 0.75])
    return r.random()


def expected(ref, y, a, alpha, beta):
    out = {}
    n = ref.n
    if n == 0:
        return out
    yz = y / n
    for p, s in ref.zones:
        if n == 1:
            out[(p, ref.cbd)] = alpha * a * yz
            out[(p, s)] = (1 - alpha) * a * yz
            out[(s, ref.cbd)] = (1 - a) * yz
            continue
        gamma = 1 - alpha - beta
        out[(p, ref.cbd)] = alpha * a * yz
        out[(p, s)] = beta * a * yz
        out[(s, ref.cbd)] = (1 - a) * yz * alpha / (1 - beta)
        for _, s2 in ref.zones:
            if s2 != s:
                out[(p, s2)] = gamma * a * yz / (n - 1)
                out[(s, s2)] = (1 - a) * yz * gamma / (1 - beta) / (n - 1)
    return out


def case(cx):
    from sidermit.city import Demand
    r = cx.rng
    city = gen.make_city(r, 0 if r.random() < 0.1 else 1, 7, origin=0.06) if r.random() < 0.996 else gen.make_city(r, 12, 40)
    at = [nd for nd in city.ref.nodes.values() if nd.kind != "CBD" and nd.x == 0 == nd.y]
    ref = city.ref
    if r.random() < 0.3:
        good = [float(r.randint(0, 1000)), 0.5, 0.3, 0.3]
        bad = r.choice([(0, -1e-9), (0, -5), (r.randint(0, 3), -r.choice([1e-15, 1e-300, 5e-324])), (r.choice([1, 2]), math.nextafter(1, 2)), (0, -1e9), (0, None), (0, "10"), (0, [1]), (1, -1e-12), (1, 1 + 1e-12), (1, 2), (1, None), (1, "0.5"),
                        (2, -1e-12), (2, 1 + 1e-9), (2, None), (2, "x"), (3, -1e-12), (3, 1), (3, 1.0), (3, 1.5), (3, None), (3, {}), ("sum", 0), ("beta1", r.choice([1, 1.0]))])
        if bad[0] == "sum":
            good[2] = r.uniform(0.3, 1)
            good[3] = min(1 - good[2] + r.choice([1e-9, 0.1, 0.2]), 0.9999)
            if good[2] + good[3] <= 1:
                good[2], good[3] = 0.7, 0.4
        elif bad[0] == "beta1":                  # the shares add up to one, but beta itself is outside [0, 1)
            good[2], good[3] = r.choice([0, 0.0]), bad[1]
        else:
            good[bad[0]] = bad[1]
        cx.desc = {"city": city.desc, "refused": repr(good)}
        cx.shape("refuse", ref.n, repr(good))
        before = snapshot(city.graph)
        expect_refusal(lambda: Demand.build_from_parameters(city.graph, *good), "demand with invalid parameters", parameters=repr(good))
        require(snapshot(city.graph) == before, "a refused demand changed the city")
        cx.count("refused")
        return
    y = gen.num(r, 0, 50000) if r.random() < 0.8 else r.randint(0, 10 ** 6)
    a, alpha = share(r), share(r)
    if r.random() < 0.1:
        a = r.choice([1, 1.0])
    if r.random() < 0.1:
        alpha = r.choice([1, 1.0])
    beta = share(r)
    if alpha + beta > 1 or r.random() < 0.15:
        beta = 1 - alpha
        while alpha + beta > 1:
            beta *= 1 - 1e-16 if beta * (1 - 1e-16) < beta else 0.999
        cx.count("boundary")
    if beta >= 1:
        beta = 0.999 if alpha == 0 else 0
    if r.random() < 0.05:
        beta, alpha = 0.999999, 0
    elif r.random() < 0.04 and alpha < 0.9999:          # hardly anything between the subcenters
        beta = max(0, 1 - alpha - 10 ** r.uniform(-10, -5))
        cx.count("tiny_remainder", beta > 0)
    args = (y, a, alpha, beta)
    cx.desc = {"city": city.desc, "y_a_alpha_beta": args}
    cx.shape(ref.n, tuple(ref.order), args)
    cx.count({0: "zero_zones", 1: "one_zone"}.get(ref.n, "many_zones"))
    cx.nontrivial = ref.n > 0 and y > 0
    cx.count("places_at_the_origin", len(at))
    cx.count("dozens_of_zones", ref.n > 20)
    before = snapshot(city.graph)
    dem = Demand.build_from_parameters(city.graph, *args)
    require(snapshot(city.graph) == before, "building the demand changed the city")
    m = dem.get_matrix()
    want = expected(ref, *args)
    ids = set(ref.nodes)
    require({int(k) for k in m} == ids, "matrix origins are not the city's nodes", got=sorted(m))
    s = 0
    for o in ref.order:
        require({int(k) for k in m[o]} == ids, "matrix destinations are not the city's nodes", origin=o, got=sorted(m[o]))
        for d in ref.order:
            req_close(m[o][d], want.get((o, d), 0), "demand cell differs from the documented value", 1e-9, 1e-12 * max(y, 1), origin=o, destination=d,
                      parameters=args, n=ref.n)
            require(m[o][d] >= 0 or m[o][d] > -1e-9 * max(y, 1), "negative demand cell", value=m[o][d])
            s += m[o][d]
            cx.count("cells")
    if ref.n:
        req_close(s, y, "demand does not add up to the requested total", 1e-9)
        req_close(dem.get_total_trips(), y, "reported total differs from the requested total", 1e-9)
    else:
        require(s == 0 and dem.get_total_trips() == 0, "a city without zones has demand", total=dem.get_total_trips())
