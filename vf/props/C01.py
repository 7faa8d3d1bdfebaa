from vf import gen
from vf.cityobs import ang_diff, check_polar, check_structure, snapshot
from vf.common import close, req_close, require
from vf.ref import RefCity

gen.SCALE, gen.SCALES = 0.05, (1e-3, 0.01, 0.1, 10, 50, 1e3, 1e6)
CASES = {"quick": 60000, "thorough": 600000}
RULE = ("parameter tuples of Graph.build_from_parameters: n 0..150, each optional asymmetry present or absent, boundary values; "
        "non-trivial: at least one zone; distinct by (n, which options, coarse values)")
MUST_SEE = ["nodes_compared", "with_angles", "with_Gi", "with_Hi", "with_etha", "n0", "n1", "n2"]


def observe(cx, g, kw):
    ref = RefCity.from_params(**kw)
    by = check_structure(g, kw["n"])
    scale = max([1e-9] + [abs(v) for nd in ref.nodes.values() for v in (nd.x, nd.y)])
    for nd in ref.nodes.values():
        got = by[(nd.zone, nd.kind)]
        req_close(got.x, nd.x, "x coordinate is not the prescribed one", 1e-9, 1e-9 * scale, zone=nd.zone, kind=nd.kind)
        req_close(got.y, nd.y, "y coordinate is not the prescribed one", 1e-9, 1e-9 * scale, zone=nd.zone, kind=nd.kind)
        req_close(got.width, kw["p"], "width is not the prescribed one", 1e-12, 0, zone=nd.zone, kind=nd.kind)
        check_polar(got, scale)
        require(isinstance(got.name, str) and got.name and not got.name.split()[1:], "node has no usable name", name=got.name)
        if nd.kind != "CBD":
            a = kw["angles"][nd.zone - 1] if kw.get("angles") is not None else 360.0 / kw["n"] * (nd.zone - 1)
            require(ang_diff(got.angle, a) <= 1e-9, "reported angle is not the zone's angle", got=got.angle, expected=a)
        cx.count("nodes_compared")
    names = [nd.name for nd in g.get_nodes()]
    require(len(set(names)) == len(names), "node names are not unique", names=names)
    want = (kw["n"], kw["l"], kw["g"], kw["p"], kw.get("etha"), kw.get("etha_zone"), kw.get("angles"), kw.get("Gi"), kw.get("Hi"))
    got = tuple(g.get_parameters())
    require(len(got) == 9, "parameters accessor has the wrong form", got=repr(got))
    for nm, a, b in zip("n l g p etha etha_zone angles Gi Hi".split(), got, want):
        ok = (list(a) == list(b)) if isinstance(b, list) and a is not None else a == b
        require(ok, "reported parameter differs from the given one", name=nm, got=repr(a), expected=repr(b))


def case(cx):
    from sidermit.city import Graph
    r = cx.rng
    k = r.random()
    nmax = 8 if k < 0.9 else 40 if k < 0.998 else 150
    kw = gen.city_params(r, 0, nmax)
    if r.random() < 0.1:
        kw["n"] = min(kw["n"], 2)
        for k in ("angles", "Gi", "Hi"):
            if k in kw:
                kw[k] = kw[k][:kw["n"]]
        if kw.get("etha_zone", 0) > kw["n"]:
            kw["etha_zone"] = kw["n"]
        if kw["n"] == 0:
            kw.pop("etha", None), kw.pop("etha_zone", None)
    cx.desc = dict(kw)
    cx.nontrivial = kw["n"] > 0
    for k in ("angles", "Gi", "Hi", "etha"):
        if k in kw:
            cx.count("with_" + k)
    cx.count("n%d" % kw["n"] if kw["n"] < 3 else "n3+")
    cx.shape(sorted((k, repr(v)) for k, v in kw.items()))
    call = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    full = dict(kw)
    defaults = {"n": 2, "l": 10, "g": 0.5, "p": 2}
    if r.random() < 0.1 and not any(k in kw for k in ("angles", "Gi", "Hi", "etha")):
        for k in r.sample(sorted(defaults), r.randint(1, 4)):     # documented defaults
            call.pop(k), full.update({k: defaults[k]})
            cx.count("defaults")
    before = repr(call)
    g = Graph.build_from_parameters(**call)
    require(repr(call) == before, "the given lists were modified", before=before, after=repr(call))
    observe(cx, g, full)
    snap = snapshot(g)
    kw2 = gen.city_params(r, 0, 5)
    g2 = Graph.build_from_parameters(**kw2)
    require(snapshot(g) == snap, "building a second city changed the first one", second=kw2)
    observe(cx, g2, kw2)
