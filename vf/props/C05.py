from vf import gen
from vf.cityobs import expect_refusal
from vf.common import require

CASES = {"quick": 100000, "thorough": 1000000}
RULE = ("nodes, zones and streets constructed with valid values (boundaries, integers, floats, numpy numbers, nodes of real cities) and with every documented fault "
        "(missing id, zone or name, negative radius or width, angle outside 0-360, CBD outside zone 0, zone number not positive or not that of either node, node of another kind, "
        "periphery joined to periphery or CBD), with all earlier objects re-read afterwards; distinct by arguments; non-trivial: every case")
MUST_SEE = ["nodes", "zones", "edges", "refused_node", "refused_zone", "refused_edge", "boundary", "city_parts", "reread"]


def number(r, x):
    import numpy as np
    k = r.random()
    if k < 0.2:
        return int(x)
    if k < 0.3:
        return np.float64(x)
    return float(x)


def good(r, kind, zone=None):
    z = 0 if kind == "CBD" else (zone if zone is not None else r.randint(1, 12))
    rad = r.choice([0, 0.0, 1e-12, r.uniform(0, 50), 1e6])
    ang = r.choice([0, 0.0, 360, 360.0, 1e-9, 359.999, r.uniform(0, 360)])
    wid = r.choice([0, 0.0, 1e-12, r.uniform(0, 5), 1e6])
    return dict(node_id=r.choice([0, 1, r.randint(0, 10 ** 6)]), x=number(r, r.uniform(-50, 50)), y=number(r, r.uniform(-50, 50)), radius=rad if rad < 1e-6 else number(r, rad),
                angle=ang if not 1 < ang < 359 else number(r, ang), width=wid if wid < 1e-6 else number(r, wid), zone_id=z, name=r.choice(["CBD", "P_1", "n", "é", "a b", "0"]))


FIELDS = (("node_id", "id"), ("x", "x"), ("y", "y"), ("radius", "radius"), ("angle", "angle"), ("width", "width"), ("zone_id", "zone_id"), ("name", "name"))


def read(node):
    return tuple(getattr(node, a) for _, a in FIELDS)


def corrupt(r, kind, kw):
    kw = dict(kw)
    opts = ["node_id", "zone_id", "name", "radius", "angle_low", "angle_high", "width"] + (["cbd_zone"] * 2 if kind == "CBD" else [])
    ks = r.sample(opts, r.choice([1, 1, 1, 2]))
    for k in ks:
        if k in ("node_id", "zone_id", "name"):
            kw[k] = None
        elif k in ("radius", "width"):
            kw[k] = -r.choice([1e-12, 1e-6, 0.5, 1, 1e6, 5e-324])
        elif k == "angle_low":
            kw["angle"] = -r.choice([1e-12, 1e-3, 1, 90, 360, 5e-324])
        elif k == "angle_high":
            kw["angle"] = 360 + r.choice([1e-9, 0.001, 1, 90, 360, 1e-13])
        else:
            kw["zone_id"] = r.choice([1, 2, -1, 7])
    return ks, kw


def case(cx):
    from sidermit.city import CBD, Periphery, Subcenter
    from sidermit.city.graph import Edge, Node, Zone
    K = {"CBD": CBD, "P": Periphery, "SC": Subcenter}
    r = cx.rng
    made = []                                # (object, reader, value)

    def check_all():
        for o, rd, v in made:
            require(rd(o) == v, "a later construction changed an earlier object", got=repr(rd(o)), expected=repr(v))
            cx.count("reread")

    def node(kind, zone=None):
        kw = good(r, kind, zone)
        cls = K[kind]
        nd = cls(**kw) if r.random() < 0.6 else cls(*(kw[a] for a, _ in FIELDS))
        require(read(nd) == tuple(kw[a] for a, _ in FIELDS), "a node does not keep its values", got=repr(read(nd)), given=repr(kw))
        require([k for k in K if isinstance(nd, K[k])] == [kind] and isinstance(nd, Node), "a node is of another kind")
        cx.count("nodes")
        cx.count("boundary", kw["radius"] == 0 or kw["width"] == 0 or kw["angle"] in (0, 360))
        made.append((nd, read, read(nd)))
        return nd

    mode = r.random()
    cx.desc = {}
    if mode < 0.35:
        kind = r.choice(["CBD", "P", "SC"])
        node(kind)
        ks, kw = corrupt(r, kind, good(r, kind))
        cx.desc = {"kind": kind, "faults": ks, "values": repr(kw)}
        cx.shape("node", kind, repr(kw))
        expect_refusal(lambda: K[kind](**kw), "a %s node with %s" % (kind, "+".join(ks)), values=repr(kw))
        cx.count("refused_node")
    elif mode < 0.65:
        z = r.randint(1, 12)
        p, s = node("P", z), node("SC", z)
        zn = Zone(z, p, s)
        require(zn.id == z and zn.periphery is p and zn.subcenter is s, "a zone does not keep its id and nodes", id=zn.id)
        made.append((zn, lambda o: (o.id, o.periphery, o.subcenter), (z, p, s)))
        cx.count("zones")
        o = r.choice([x for x in range(1, 13) if x != z])
        faults = {"no id": lambda: Zone(None, p, s), "id 0": lambda: Zone(0, node("P", 0), node("SC", 0)), "a negative id": lambda: Zone(-z, node("P", -z), node("SC", -z)),
                  "another id": lambda: Zone(o, p, s), "a foreign periphery": lambda: Zone(z, node("P", o), s), "a foreign subcenter": lambda: Zone(z, p, node("SC", o)),
                  "exchanged nodes": lambda: Zone(z, s, p), "two peripheries": lambda: Zone(z, p, node("P", z)), "two subcenters": lambda: Zone(z, node("SC", z), s),
                  "the CBD as periphery": lambda: Zone(z, node("CBD"), s), "the CBD as subcenter": lambda: Zone(z, p, node("CBD")),
                  "a plain node as periphery": lambda: Zone(z, Node(**good(r, "P", z)), s), "a plain node as subcenter": lambda: Zone(z, p, Node(**good(r, "SC", z))),
                  "no periphery": lambda: Zone(z, None, s), "no subcenter": lambda: Zone(z, p, None)}
        for k in r.sample(sorted(faults), 3):
            expect_refusal(faults[k], "a zone with " + k)
            cx.count("refused_zone")
            cx.shape("zone", k)
        cx.shape(z, o, repr(read(p)), repr(read(s)))
    elif mode < 0.9:
        z, o = r.sample(range(1, 13), 2)
        p, s, s2, p2, c = node("P", z), node("SC", z), node("SC", o), node("P", o), node("CBD")
        for a, b in r.sample([(p, s), (s, p), (s, s2), (s2, s), (s, c), (c, s)], 4):
            i = r.choice([0, 1, r.randint(0, 999)])
            e = Edge(i, a, b)
            require(e.id == i and e.node1 is a and e.node2 is b, "a street does not keep its id and ends", id=e.id)
            made.append((e, lambda q: (q.id, q.node1, q.node2), (i, a, b)))
            cx.count("edges")
        faults = {"no id": lambda: Edge(None, *r.choice([(p, s), (s, s2), (s, c), (c, s)])), "two peripheries": lambda: Edge(1, p, p2), "periphery to CBD": lambda: Edge(1, p, c),
                  "CBD to periphery": lambda: Edge(1, c, p), "a periphery and itself": lambda: Edge(1, p, p)}
        for k in r.sample(sorted(faults), 3):
            expect_refusal(faults[k], "a street with " + k)
            cx.count("refused_edge")
            cx.shape("edge", k)
        cx.shape(z, o, repr(read(p)))
    else:
        g = gen.make_city(r, 1, 5).graph
        v = [read(n) for n in g.get_nodes()]
        zs = list(g.get_zones())
        for zn in zs:
            q = Zone(zn.id, zn.periphery, zn.subcenter)
            require(q.id == zn.id, "a zone of a city cannot be rebuilt")
            cx.count("zones")
            if len(zs) > 1:
                w = r.choice([x for x in zs if x.id != zn.id])
                expect_refusal(lambda: Zone(zn.id, zn.periphery, w.subcenter), "a zone with nodes of two zones")
                expect_refusal(lambda: Zone(zn.id, w.periphery, zn.subcenter), "a zone with nodes of two zones")
                expect_refusal(lambda: Edge(1, zn.periphery, w.periphery), "a street joining two peripheries")
                cx.count("refused_zone", 2)
                cx.count("refused_edge")
        for e in g.get_edges():
            Edge(e.id, e.node1, e.node2)
            cx.count("edges")
        for n in g.get_nodes():
            m = type(n)(n.id, n.x, n.y, n.radius, n.angle, n.width, n.zone_id, n.name)
            require(read(m) == read(n), "a node of a city cannot be rebuilt")
            cx.count("nodes")
        require([read(n) for n in g.get_nodes()] == v, "building parts changed a city")
        cx.count("city_parts")
        cx.shape("city", repr(v))
    check_all()
