from vf import gen
from vf.cityobs import snapshot
from vf.common import close, require
from vf.netobs import mode_value, net_value
from vf.ref import RefX
from vf.xobs import XObs

CASES = {"quick": 25000, "thorough": 250000}
RULE = ("extended graphs of generated networks (predefined families, circular, express, custom routes over different paths each way, one or two modes) "
        "with given or default frequencies; node set and every link (kind, ends, time, frequency) compared with the reference; distinct by city ids, route "
        "sequences, lines per mode; non-trivial: at least two routes or a route with skipped nodes")
MUST_SEE = ["long_lines", "links", "default_frequency", "given_frequency", "circular_routes", "skipped_nodes", "unserved_nodes_on_path", "two_modes", "asymmetric_routes", "partial_table"]


def case(cx):
    from sidermit.optimization.preoptimization import ExtendedGraph
    r = cx.rng
    nt = None
    while nt is None or not nt.routes:
        gen.LONG = r.random() < 0.01
        city = gen.make_city(r, *((9, 24) if gen.LONG else (1, 6)))
        modes = gen.gen_modes(r)
        nt = gen.make_net(r, city, modes, max_routes=4, style=1.0) if gen.LONG else gen.make_net(r, city, modes, max_routes=12)
        cx.count("long_lines", gen.LONG and any(len(q.si) > 13 for q in nt.routes))
        gen.LONG = False
    routes = nt.routes
    libs = list(nt.net.get_routes())
    TP = gen.num(r, 0, 40)
    f = None
    if r.random() < 0.6:
        f = gen.gen_freq(r, routes)
        cx.count("given_frequency")
    else:
        cx.count("default_frequency")
    x = RefX(city.ref, modes, routes, f or {q.id: modes[q.m].fini * modes[q.m].d for q in routes}, TP)
    cx.desc = {"city": city.desc, "modes": [tuple(m) for m in modes], "routes": [q.spec() for q in routes], "frequency": f, "TP": TP}
    cx.shape(tuple(city.ref.order), repr([q.spec() for q in routes]), [m.d for m in modes])
    before = (snapshot(city.graph), net_value(nt.net), [mode_value(m) for m in nt.mode_objs])
    if f is not None:
        keep = r.random() < 0.6
        f2 = {k: v for k, v in f.items() if keep or v}               # lines without frequency may be left out
        cx.count("partial_table", len(f2) < len(f))
        given = gen.ddict(f2)
    else:
        given = None
    order = list(libs)
    if r.random() < 0.3:
        r.shuffle(order)
    if given is not None:
        xg = ExtendedGraph(city.graph, order, TP, given) if r.random() < 0.5 else ExtendedGraph(city.graph, order, TP, frequency_routes=given)
        require(dict(given) == f2, "building the extended graph changed the given frequencies")
    else:
        xg = ExtendedGraph(city.graph, order, TP) if r.random() < 0.5 else ExtendedGraph(city.graph, order, TP, None)
    require((snapshot(city.graph), net_value(nt.net), [mode_value(m) for m in nt.mode_objs]) == before, "building the extended graph changed its inputs")
    got = XObs(xg, nt.mode_objs, routes)
    want_nodes = x.cities | x.stops | set(x.rnodes)
    require(set(got.node) == want_nodes, "wrong set of extended nodes", missing=sorted(map(str, want_nodes - set(got.node))),
            extra=sorted(map(str, set(got.node) - want_nodes)))
    for k, nd in got.node.items():
        if k[0] == "R":
            p = nd.prev_route_node
            require((got.key[p] if p is not None else None) == x.prev.get(k), "route node has another previous stop", node=k,
                    got=got.key[p] if p is not None else None, expected=x.prev.get(k))
    want = x.edges()
    require(set(got.edges) == set(want), "wrong set of links", missing=sorted(map(str, set(want) - set(got.edges))), extra=sorted(map(str, set(got.edges) - set(want))))
    for k, (t, fr) in want.items():
        gt, gf = got.edges[k]
        require(close(gt, t, 1e-9, 1e-12), "link time is wrong", link=k, got=gt, expected=t)
        require(close(gf, fr, 1e-12, 1e-12), "link frequency is wrong", link=k, got=gf, expected=fr)
        cx.count("links")
        cx.count(k[0].lower())
    for q in routes:
        cx.count("circular_routes", q.circular)
        skip = [n for n in q.ni if n not in q.si] + [n for n in q.nr if n not in q.sr]
        cx.count("skipped_nodes", bool(skip))
        cx.count("unserved_nodes_on_path", any(("C", n) not in x.cities for n in skip))
        cx.count("asymmetric_routes", not q.circular and q.ni != q.nr[::-1])
    cx.count("two_modes", len({q.m for q in routes}) == 2)
    cx.nontrivial = len(routes) > 1 or any(len(q.si) < len(q.ni) for q in routes)
