from vf import gen
from vf.cityobs import snapshot
from vf.common import close, fail, require
from vf.netobs import net_value, pax_value
from vf.ref import INF, RefX
from vf.xobs import XObs

CASES = {"quick": 4500, "thorough": 45000}
RULE = ("labels of up to 6 origin-destination pairs per generated network/frequency/passenger, every extended node compared with the fixed point of the "
        "optimality equations; repeated queries and permuted route lists must agree; distinct by city ids, routes and frequencies; non-trivial: some label finite at the origin")
MUST_SEE = ["labels", "finite", "infinite", "pairs", "common_lines", "transfers_used", "repeated", "permuted", "two_modes", "zero_frequency_lines", "long_lines"]
ASSUMPTIONS = ["pa > 0, pv > 0 and regularity theta >= 0.05 (a zero makes every order of lines equally good and is not generated)"]


def compare(cx, obs, labels, x, V, o, d, pax, tag=""):
    wa = pax.pa / pax.pv
    for k, v in V.items():
        got = labels[obs.node[k]]
        if k[0] == "S" and k[1] == o:
            v = v + x.modes[k[2]].tat / 60.0 * wa
        if not close(got, v, 1e-8, 1e-10):
            fail("label is not the minimum expected time" + tag, node=k, got=got, expected=v, origin=o, destination=d)
        cx.count("labels")
        cx.count("infinite" if v == INF else "finite")


def case(cx):
    from sidermit.optimization.preoptimization import ExtendedGraph, Hyperpath
    r = cx.rng
    nt = None
    while nt is None or not nt.routes:
        gen.LONG = r.random() < 0.01             # a line of dozens of stops
        city = gen.make_city(r, *((14, 26) if gen.LONG else (1, 4)))
        modes = gen.gen_modes(r)
        nt = gen.make_net(r, city, modes, max_routes=3, style=1.0) if gen.LONG else gen.make_net(r, city, modes, max_routes=10)
        cx.count("long_lines", gen.LONG and max(len(q.si) for q in nt.routes) >= 14)
        gen.LONG = False
    pax = gen.gen_pax(r)
    f = gen.gen_freq(r, nt.routes, zeros=r.choice([0, 0.1, 0.4])) if r.random() < 0.75 else None
    fr = f or {q.id: modes[q.m].fini * modes[q.m].d for q in nt.routes}
    x = RefX(city.ref, modes, nt.routes, fr, pax.pt)
    cx.desc = {"city": city.desc, "modes": [tuple(m) for m in modes], "routes": [q.spec() for q in nt.routes], "frequency": f, "passenger": tuple(pax)}
    cx.shape(tuple(city.ref.order), repr([q.spec() for q in nt.routes]), repr(sorted(fr.items(), key=str)))
    libs = list(nt.net.get_routes())
    lp = gen.lib_pax(pax)
    before = (snapshot(city.graph), net_value(nt.net), pax_value(lp))
    xg = ExtendedGraph(city.graph, libs, pax.pt, gen.ddict(f) if f else None)
    hp = Hyperpath(xg, lp)
    obs = XObs(xg, nt.mode_objs, nt.routes)
    served = sorted(k[1] for k in x.cities)
    pairs = [(a, b) for a in served for b in served if a != b]
    r.shuffle(pairs)
    pairs = pairs[:6]
    saved = {}
    alt = None
    if r.random() < 0.5:
        perm = list(libs)
        r.shuffle(perm)
        xg2 = ExtendedGraph(city.graph, perm, pax.pt, gen.ddict(f) if f else None)
        alt = (Hyperpath(xg2, lp), XObs(xg2, nt.mode_objs, nt.routes))
    some = False
    cx.count("two_modes", len({q.m for q in nt.routes}) == 2)
    cx.count("zero_frequency_lines", any(v == 0 for v in fr.values()))
    for o, d in pairs:
        V = x.labels(o, d, pax)
        suc, lab, fq = hp.build_hyperpath_graph(obs.node[("C", o)], obs.node[("C", d)])
        compare(cx, obs, lab, x, V, o, d, pax)
        saved[(o, d)] = {k: lab[obs.node[k]] for k in V}
        cx.count("pairs")
        reach = d in x.reachable(o)
        fin = any(v < INF for k, v in V.items() if k[0] == "S" and k[1] == o)
        require(fin == reach, "reference disagrees with itself about reachability", o=o, d=d)
        some |= fin
        for k, v in V.items():
            if v < INF and k[0] == "S":
                n = len(suc[obs.node[k]])
                cx.count("common_lines", n > 1)
                if k[1] not in (o, d) and n == 1 and suc[obs.node[k]][0].nodej is obs.node[("C", k[1])]:
                    cx.count("transfers_used")
        if alt:
            h2, o2 = alt
            _, l2, _ = h2.build_hyperpath_graph(o2.node[("C", o)], o2.node[("C", d)])
            compare(cx, o2, l2, x, V, o, d, pax, " when the routes are given in another order")
            cx.count("permuted")
    for o, d in r.sample(pairs, min(2, len(pairs))):
        if r.random() < 0.5:
            _, lab, _ = hp.build_hyperpath_graph(obs.node[("C", o)], obs.node[("C", d)])
        else:
            _, lab, _, _ = hp.get_hyperpath_OD(obs.node[("C", o)], obs.node[("C", d)])
        now = {k: lab[obs.node[k]] for k in saved[(o, d)]}
        require(now == saved[(o, d)], "asking again gives other labels", origin=o, destination=d)
        cx.count("repeated")
    require((snapshot(city.graph), net_value(nt.net), pax_value(lp)) == before, "computing labels changed its inputs")
    cx.nontrivial = some
