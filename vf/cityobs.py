"""Observation of a library city, and comparison with a RefCity."""
import math

from vf.common import close, fail, req_close, require


def kind_of(node):
    from sidermit.city import CBD, Periphery, Subcenter
    ks = [k for k, c in (("CBD", CBD), ("P", Periphery), ("SC", Subcenter)) if isinstance(node, c)]
    require(len(ks) == 1, "node is not exactly one of CBD, periphery, subcenter", node=repr(node), kinds=ks)
    return ks[0]


def check_structure(g, n):
    """One CBD, one P and one SC per zone, unique ids, accessors agree. Returns {(zone, kind): node}."""
    nodes, zones = list(g.get_nodes()), list(g.get_zones())
    require(len(nodes) == 2 * n + 1, "wrong number of nodes", got=len(nodes), n=n)
    require(len(zones) == n, "wrong number of zones", got=len(zones), n=n)
    ids = [nd.id for nd in nodes]
    require(len(set(int(i) for i in ids)) == len(ids), "node ids are not unique", ids=[int(i) for i in ids])
    by = {}
    for nd in nodes:
        k = (nd.zone_id, kind_of(nd))
        require(k not in by, "two nodes of the same kind in a zone", key=k)
        by[k] = nd
    want = {(0, "CBD")} | {(z, k) for z in range(1, n + 1) for k in ("P", "SC")}
    require(set(by) == want, "wrong set of nodes", got=sorted(by), expected=sorted(want))
    cbd = g.get_cbd()
    require(cbd is not None and same_node(cbd, by[(0, "CBD")]), "CBD accessor disagrees with node list")
    require([z.id for z in zones] == list(range(1, n + 1)), "zones not numbered 1..n in order", got=[z.id for z in zones])
    for z in zones:
        require(same_node(z.periphery, by[(z.id, "P")]), "zone accessor and node list disagree about the periphery", zone=z.id)
        require(same_node(z.subcenter, by[(z.id, "SC")]), "zone accessor and node list disagree about the subcenter", zone=z.id)
    require(g.get_n() == n and g.get_parameters()[0] == n, "reported number of zones is wrong", got=g.get_n(), n=n)
    return by


def same_node(a, b):
    return (a.id, a.x, a.y, a.radius, a.angle, a.width, a.zone_id, a.name) == (
        b.id, b.x, b.y, b.radius, b.angle, b.width, b.zone_id, b.name) and kind_of(a) == kind_of(b)


def ang_diff(a, b):
    d = abs(a - b) % 360.0
    return min(d, 360.0 - d)


def check_polar(nd, scale, tol_deg=2e-5):
    require(close(nd.radius, math.hypot(nd.x, nd.y), 1e-9, 1e-9 * scale), "radius disagrees with coordinates",
            id=nd.id, x=nd.x, y=nd.y, radius=nd.radius)
    require(-1e-9 <= nd.angle <= 360 + 1e-9, "angle outside [0, 360]", angle=nd.angle)
    if math.hypot(nd.x, nd.y) > 1e-6 * scale:
        a = math.degrees(math.atan2(nd.y, nd.x)) % 360.0
        require(ang_diff(a, nd.angle) <= tol_deg, "angle disagrees with coordinates", id=nd.id, x=nd.x, y=nd.y, angle=nd.angle, expected=a)


def snapshot(g):
    """Full value of a city, for purity and round trips."""
    return ([(int(nd.id), nd.name, nd.x, nd.y, nd.radius, nd.angle, nd.width, nd.zone_id, kind_of(nd)) for nd in g.get_nodes()],
            [(int(z.id), int(z.periphery.id), int(z.subcenter.id)) for z in g.get_zones()],
            [(int(e.id), int(e.node1.id), int(e.node2.id)) for e in g.get_edges()], repr(g.get_parameters()))


def check_streets(g, ref, idmap=None):
    """Streets, existence query and lengths against the reference city (idmap: ref id -> library id)."""
    m = idmap or {i: i for i in ref.nodes}
    want = {(m[a], m[b]) for a, b in ref.streets}
    got = [(int(e.node1.id), int(e.node2.id)) for e in g.get_edges()]
    require(len(got) == len(set(got)), "a street is listed twice", streets=sorted(got))
    require(set(got) == want, "wrong set of streets", missing=sorted(want - set(got)), extra=sorted(set(got) - want))
    eids = [e.id for e in g.get_edges()]
    require(len(set(eids)) == len(eids) and None not in eids, "street ids are not unique", ids=eids)
    objs = {int(nd.id): nd for nd in g.get_nodes()}
    for e in g.get_edges():
        for nd in (e.node1, e.node2):
            require(same_node(nd, objs[int(nd.id)]), "street end differs from the city's node", id=nd.id)
    all_ids = [m[i] for i in ref.nodes]
    for a in all_ids:
        for b in all_ids:
            r = g.edge_exist(a, b)
            require(bool(r) == ((a, b) in want), "street existence query is wrong", a=a, b=b, got=r)
    bad = max(all_ids) + 1
    require(not g.edge_exist(bad, all_ids[0]) and not g.edge_exist(all_ids[0], bad), "street to an unknown node exists")
    table = g.get_edges_distance()
    flat = {(int(a), int(b)): table[a][b] for a in table for b in table[a]}
    require(set(flat) == want, "length table does not cover exactly the streets", missing=sorted(want - set(flat)), extra=sorted(set(flat) - want))
    inv = {v: k for k, v in m.items()}
    for (a, b), L in flat.items():
        req_close(L, ref.dist(inv[a], inv[b]), "street length is not the distance of its ends", 1e-7, 1e-10, street=(a, b))
        require(close(L, flat[(b, a)], 1e-12, 1e-12), "street length depends on the direction", street=(a, b))
    return len(want)


def expect_refusal(fn, what, **detail):
    """fn must raise one of the library's own exceptions."""
    from sidermit.exceptions import SIDERMITException
    try:
        res = fn()
    except SIDERMITException as e:
        return e
    except Exception as e:
        fail("%s was refused with %s instead of one of the library's exceptions" % (what, type(e).__name__), error=str(e), **detail)
    fail("%s was accepted" % what, result=repr(res)[:200], **detail)
