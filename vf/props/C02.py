from vf import gen
from vf.cityobs import check_streets, check_structure
from vf.common import require
from vf.ref import RefCity

gen.SCALE, gen.SCALES = 0.05, (1e-3, 0.01, 0.1, 10, 50, 1e3, 1e6)
CASES = {"quick": 20000, "thorough": 200000}
RULE = ("cities from parameters (n 0..90, all asymmetries) and from rows with arbitrary ids and positions; streets, existence query for "
        "all node pairs and lengths compared; non-trivial: at least one zone; distinct by n, source, ids, coarse geometry")
MUST_SEE = ["streets", "from_parameters", "from_rows", "n1", "n2", "n3+", "dozens_of_zones"]


def case(cx):
    from sidermit.city import Graph
    r = cx.rng
    if r.random() < 0.6:
        k = r.random()
        kw = gen.city_params(r, 0, 8 if k < 0.95 else 14) if k < 0.993 else gen.city_params(r, 15, 90)
        cx.desc, ref = dict(kw), RefCity.from_params(**kw)
        g = Graph.build_from_parameters(**kw)
        by = check_structure(g, ref.n)
        idmap = {i: int(by[(nd.zone, nd.kind)].id) for i, nd in ref.nodes.items()}
        cx.count("from_parameters")
    else:
        rows = gen.city_rows(r, 1, 8) if r.random() < 0.993 else gen.city_rows(r, 15, 90)
        r.shuffle(rows)
        cx.desc, ref = {"rows": [tuple(x) for x in rows]}, RefCity(rows)
        g = Graph.build_from_content(gen.rows_text(rows))
        check_structure(g, ref.n)
        idmap = None
        cx.count("from_rows")
    cx.nontrivial = ref.n > 0
    cx.count("dozens_of_zones", ref.n > 20)
    cx.count("n%d" % ref.n if ref.n < 3 else "n3+")
    cx.shape(repr(cx.desc))
    cx.count("streets", check_streets(g, ref, idmap))
    t1, t2 = g.get_edges_distance(), g.get_edges_distance()
    require({a: dict(t1[a]) for a in t1} == {a: dict(t2[a]) for a in t2}, "asking for lengths twice gives different answers")
