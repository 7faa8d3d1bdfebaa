"""Workload generators: cities, modes, passengers, networks, demands, frequencies. All driven by one RNG."""
import math
from collections import defaultdict

from vf.ref import INF, Node, RefCity, RefMode, RefPax, RefRoute, RefX


# ---------------------------------------------------------------- numbers
def num(r, lo, hi, nd=None):
    """A float that is sometimes round, sometimes a boundary."""
    k = r.random()
    if k < 0.08:
        return lo
    if k < 0.14:
        return hi
    x = r.uniform(lo, hi)
    if k < 0.5:
        x = round(x, r.choice([0, 1, 2]))
        return min(max(x, lo), hi)
    return x


def width(r):
    return round(r.uniform(0.1, 4), 3) if r.random() < 0.94 else round(10 ** r.uniform(-2, 2), 4)


# ---------------------------------------------------------------- cities
BIG = 0.03
SCALE, SCALES = 0.01, (0.01, 0.1, 20, 300)      # share of cities of an unusual size, and their sizes (a check may set its own)
DUP_NAMES = 0.06          # share of hand-written cities with nodes of one name (a check may set its own)
ROUTE_IDS = ["c%d_%d", "%d%d", "R_bus_%d_%d"]      # ids of custom routes (a check may set its own)
ODD_NAMES = ()            # further node names (a check may set its own)
FAR = 0.03                # share of mode and passenger parameters far from the usual
TINY = True               # frequencies between 0 and 1/24 too (an optimiser's answer rounds them to 0)
ZERO_WIDTH = 0.05         # share of nodes without width in hand-written cities whose widths differ
LONG_LINE = 0.02         # share of instances with a line of dozens of stops, demanded from end to end
LONG_ZONES = (15, 34)
LONG = False              # custom routes through as many nodes as possible
FAN = 0.03                # share of networks with many parallel lines on the same legs
BIG_FAN = 0               # share of those with hundreds of elementary paths (for checks that do not optimise)


def zones(r, nmin, nmax):
    """Number of zones; now and then more than nine, where ids and zone numbers have several digits."""
    if nmax >= 3 and r.random() < BIG:
        return r.randint(10, 13)
    return r.randint(nmin, nmax)


def city_params(r, nmin=0, nmax=8, sym=None, positive=False):
    """kwargs of Graph.build_from_parameters, all accepted. positive: no degenerate (zero) radii."""
    n = zones(r, nmin, nmax)
    lo = 0.5 if positive else 0
    kw = {"n": n, "l": num(r, max(lo, 0), 30), "g": num(r, 0.05 if positive else 0, 2), "p": num(r, 0.1 if positive else 0, 4)}
    if positive and kw["l"] < 0.5:
        kw["l"] = 0.5
    if r.random() < SCALE:
        kw["l"] *= r.choice(SCALES)
    if r.random() < SCALE:
        kw["g"] *= r.choice([0.01, 10, 100])
    sym = r.random() < 0.25 if sym is None else sym
    if n == 0 and r.random() < 0.4:
        kw.update({k: [] for k in ("angles", "Gi", "Hi") if r.random() < 0.6})
    if sym or n == 0:
        return kw
    if r.random() < 0.55:
        kw["angles"] = gen_angles(r, n)
    if r.random() < 0.55:
        kw["Gi"] = [num(r, 0.2 if positive else 0, 2.5) for _ in range(n)]
    if r.random() < 0.55:
        kw["Hi"] = [num(r, 0.2 if positive else 0, 2.5) for _ in range(n)]
    if r.random() < 0.5:
        kw["etha"] = num(r, 0, 1)
        kw["etha_zone"] = r.randint(1, n)
    return kw


def gen_angles(r, n):
    k = r.random()
    if k < 0.3:
        a = sorted(r.uniform(0, 360) for _ in range(n))
    elif k < 0.55:
        a = [r.uniform(0, 360) for _ in range(n)]
    elif k < 0.8:
        a = [float(r.choice([0, 30, 45, 60, 90, 120, 135, 180, 210, 225, 270, 300, 315, 330, 359.9, 360])) for _ in range(n)]
    else:
        off = r.uniform(0, 360 / max(n, 1))
        a = [off + 360.0 / n * i for i in range(n)]
        a = [min(x, 360.0) for x in a]
    return [x if r.random() < 0.8 else int(x) for x in a]


def ids_for(r, k):
    """k distinct non-negative ids in some style."""
    style = r.random()
    if style < 0.25:
        return list(range(k))
    if style < 0.45:
        ids = list(range(k))
        r.shuffle(ids)
        return ids
    if style < 0.65:
        return r.sample(range(0, 10 * k + 10), k)
    if style < 0.85:                      # prefixes of each other: 1, 11, 111 ...
        pool = [1, 11, 111, 1111, 2, 12, 21, 112, 121, 211, 10, 100, 101, 110, 20, 22, 3, 13, 31, 0, 5, 15, 51, 6, 16, 61]
        pool = pool + [x for x in range(300, 300 + 4 * k)]
        return r.sample(pool[:max(k + 3, 26)], k) if k <= 26 else r.sample(pool, k)
    return [x + 10 ** 6 for x in r.sample(range(0, 5 * k + 5), k)]


def city_rows(r, nmin=1, nmax=6, onray=None, widths=None):
    """Node rows of a valid hand-written city: arbitrary ids, positions, widths."""
    n = zones(r, nmin, nmax)
    ids = ids_for(r, 2 * n + 1)
    names = lambda kind, z: r.choice(["%s_%d" % (kind, z), "n%d" % r.randint(0, 10 ** 6), "%s%d-x" % (kind.lower(), z)])
    if ODD_NAMES and r.random() < 0.3:
        names = lambda kind, z: r.choice(ODD_NAMES)
    if r.random() < DUP_NAMES:
        pool = ["same"] if r.random() < 0.5 else ["x", "y", "z"]
        names = lambda kind, z: r.choice(pool)
    onray = r.random() < 0.5 if onray is None else onray
    w0 = width(r)
    same_w = r.random() < 0.5 if widths is None else not widths
    wd = lambda: w0 if same_w else 0.0 if r.random() < ZERO_WIDTH else width(r)
    step = 360.0 / max(n, 1)
    inner = r.random() < 0.08                # peripheries closer to the origin than subcenters
    rows, sc = [], []
    for z in range(n):
        a = math.radians((z + r.uniform(-0.3, 0.3)) * step + r.choice([0, 0, 7, 90]))
        if r.random() < 0.15:
            a = math.radians(90 * (z % 4))
        rs = r.uniform(1, 15)
        rp = rs * (r.uniform(0.3, 1) if inner else r.uniform(1.05, 2.5))
        x, y = rs * math.cos(a), rs * math.sin(a)
        k = rp / rs
        if onray:
            xp, yp = x * k, y * k
        else:
            b = a + r.uniform(-0.5, 0.5)
            xp, yp = rp * math.cos(b), rp * math.sin(b)
        if r.random() < 0.3:
            x, y, xp, yp = (round(v, 2) for v in (x, y, xp, yp))
        rows.append(Node(ids[1 + 2 * z], names("P", z + 1), xp, yp, "P", z + 1, wd()))
        rows.append(Node(ids[2 + 2 * z], names("SC", z + 1), x, y, "SC", z + 1, wd()))
        sc.append((x, y))
    k = r.random()
    if k < 0.4 or n == 0:
        cx = cy = 0.0
    elif k < 0.7:
        e = r.uniform(0.05, 0.95)
        i = r.randrange(n)
        cx, cy = e * sc[i][0], e * sc[i][1]
    else:
        cx, cy = r.uniform(-0.5, 0.5), r.uniform(-0.5, 0.5)
    rows.append(Node(ids[0], names("CBD", 0), cx, cy, "CBD", 0, wd()))
    if r.random() < SCALE:
        k = r.choice(SCALES)
        rows = [nd._replace(x=nd.x * k, y=nd.y * k) for nd in rows]
    return rows


def rows_text(rows, header=None, declared=None):
    head = header if header is not None else "a\nb\n\n"
    return head + "*vertices %d\n" % (len(rows) if declared is None else declared) + "".join(
        "%s %s %s %s %s %s %s\n" % (nd.id, nd.name, num_text(nd.x), num_text(nd.y), nd.kind, nd.zone, num_text(nd.width)) for nd in rows)


def num_text(x):
    return repr(float(x)) if isinstance(x, float) else str(x)


class City:
    """Library city plus its reference."""

    def __init__(self, graph, ref, desc):
        self.graph, self.ref, self.desc = graph, ref, desc


def at_origin(r, kw):
    """Some or all places of a parametric city moved to the origin."""
    n = kw["n"]
    k = r.choice(["l", "Gi", "Hi", "one_Gi", "one_Hi"])
    if k == "l":
        kw["l"] = r.choice([0, 0.0])
    elif k in ("Gi", "Hi"):
        kw[k] = [0] * n
    elif n:
        k = k[4:]
        kw[k] = list(kw.get(k) or [1.0] * n)
        kw[k][r.randrange(n)] = r.choice([0, 0.0])


def make_city(r, nmin=1, nmax=4, generic=None, origin=0.0):
    """A valid city of either kind. generic True: no symmetric ties. origin: share of cities with places on the origin."""
    from sidermit.city import Graph
    if r.random() < 0.55:
        kw = city_params(r, nmin, nmax, positive=True, sym=(False if generic else None))
        if origin and r.random() < origin:
            at_origin(r, kw)
        if generic:
            n = kw["n"]
            kw["Gi"] = [r.uniform(0.5, 2) for _ in range(n)]
            kw["Hi"] = [r.uniform(0.5, 2) for _ in range(n)]
        return City(Graph.build_from_parameters(**kw), RefCity.from_params(**kw), {"kind": "parameters", **kw})
    rows = city_rows(r, nmin, nmax)
    r.shuffle(rows)
    if origin and r.random() < origin:
        what = r.choice(["SC", "P", "P", "all"])
        rows = [nd._replace(x=0.0, y=0.0) if what in (nd.kind, "all") or (what == "SC" and nd.kind == "CBD") else nd for nd in rows]
    g = Graph.build_from_content(rows_text(rows))
    return City(g, RefCity(rows), {"kind": "rows", "rows": [tuple(x) for x in rows]})


# ---------------------------------------------------------------- modes / passenger
def gen_mode(r, name, d=None, theta_min=0.05, tat=None):
    d = d if d is not None else lines(r, [1, 1, 2, 3, 4, 5, 6])
    far = lambda usual, *others: r.choice(others) if r.random() < FAR else usual
    return RefMode(name, r.choice([0, 1]), far(num(r, 0, 100), 1e-3, 5e3, 1e5), far(num(r, 0, 1), 1e-4, 30), far(num(r, 0, 1000) if r.random() < 0.7 else 0, 1e-3, 1e6),
                   far(num(r, 5, 60), 0.7, 3, 120, 450), far(num(r, 0, 6), 0.01, 25, 60), far(num(r, 20, 200), 0, 0.02, 0.4, 3, 2000), far(num(r, 20, 1500), 0, 0.5, 4, 1e5),
                   max(theta_min, num(r, 0, 1)), far((num(r, 0, 5) if r.random() < 0.6 else 0) if tat is None else tat, 0.01, 20, 90) if tat is None else tat, d,
                   far(num(r, 3, 60), 0.06, 0.5, 150, 600))


def lines(r, usual):
    return r.choice(usual) if r.random() < 0.95 else r.randint(9, 24)


def gen_modes(r, k=None, theta_min=0.05):
    k = k or r.choice([1, 1, 2, 2, 2])
    nm = r.choice([("bus", "metro"), ("a", "ab"), ("m1", "m2"), ("metro", "bus")]) if r.random() < 0.95 else r.choice([("bus", "Bus"), ("METRO", "metro")])
    if k == 1:
        return [gen_mode(r, nm[0], None, theta_min)]
    ds = [1, lines(r, [1, 2, 3, 4, 5, 6, 4, 7, 8])]
    r.shuffle(ds)
    return [gen_mode(r, nm[0], ds[0], theta_min), gen_mode(r, nm[1], ds[1], theta_min)]


def lib_mode(m):
    from sidermit.publictransportsystem import TransportMode
    return TransportMode(*m)


def gen_pax(r):
    if r.random() < 0.2:
        return RefPax(4.0, 2.74, 5.48, 8.22, 16, 2.74, 5.48, 8.22, 16)
    pv = r.uniform(0.5, 5)
    spv = pv if r.random() < 0.4 else r.uniform(0.5, 5)
    far = lambda usual, *others: r.choice(others) if r.random() < FAR else usual
    return RefPax(far(r.uniform(1, 8), 0.2, 25), far(pv, 0.01, 60), pv * far(num(r, 0.2, 4), 0.01, 0.06, 15), pv * far(max(0.1, num(r, 0.1, 5)), 0.02, 12), far(num(r, 0, 40), 0.01, 200),
                  far(spv, 0, 0.01, 80), spv * far(num(r, 0.2, 4), 0, 0.01, 15), spv * far(num(r, 0.1, 5), 0, 0.01, 12), far(num(r, 0, 40), 0.01, 200))


def lib_pax(p):
    from sidermit.publictransportsystem import Passenger
    return Passenger(*p)


# ---------------------------------------------------------------- routes
def walk(r, ref, start, maxlen, stop=0.15, shun=()):
    """Self-avoiding walk along streets, entering the shunned nodes last."""
    adj = defaultdict(list)
    for a, b in sorted(ref.streets):
        adj[a].append(b)
    path = [start]
    while len(path) <= maxlen:
        nx = [b for b in adj[path[-1]] if b not in path]
        if not nx or (len(path) > 1 and r.random() < stop):
            break
        path.append(r.choice([b for b in nx if b not in shun] or nx))
    return path


def other_path(r, ref, a, b, tries=12):
    """A random self-avoiding street path from a to b (not necessarily the shortest)."""
    adj = defaultdict(list)
    for i, j in sorted(ref.streets):
        adj[i].append(j)
    best = None
    for _ in range(tries):
        path = [a]
        while path[-1] != b:
            nx = [k for k in adj[path[-1]] if k not in path]
            if not nx:
                break
            path.append(r.choice(nx))
        if path[-1] == b:
            best = path
            break
    return best


def sub_stops(r, seq):
    k = r.random()
    if k < 0.45 or len(seq) <= 2:
        return list(seq)
    if k < 0.65:
        return [seq[0], seq[-1]]
    return [seq[0]] + [x for x in seq[1:-1] if r.random() < 0.6] + [seq[-1]]


def custom_route(r, ref, rid, m):
    start = r.choice(ref.order)
    if LONG:
        ni = max((walk(r, ref, start, 40, 0) for _ in range(4)), key=len)
        if ref.n > 4 and r.random() < 0.8:      # along the ring of subcenters
            ni = max([ni] + [walk(r, ref, start, 60, 0, {q for q in ref.order if ref.nodes[q].kind != "SC"}) for _ in range(2)], key=len)
    else:
        ni = walk(r, ref, start, r.choice([1, 2, 3, 4, 6, 8, 12]))
    if len(ni) < 2:
        return None
    nr = ni[::-1]
    if r.random() < 0.55:
        nr = other_path(r, ref, ni[-1], ni[0]) or nr
    if LONG and len(ni) > 3 and r.random() < 0.4:            # as many streets each way, one corner cut differently
        nr = ni[::-1]
        i = r.randrange(1, len(nr) - 1)
        via = [q for q in ref.order if q not in nr and (nr[i - 1], q) in ref.streets and (q, nr[i + 1]) in ref.streets]
        if via:
            nr[i] = r.choice(via)
    si = sub_stops(r, ni)
    sr = sub_stops(r, nr) if (r.random() < 0.6 or nr != ni[::-1]) else si[::-1]
    return RefRoute(rid, m, ni, nr, si, sr)


def seq_text(s):
    return ",".join(str(x) for x in s)


def fan_routes(r, ref, m):
    """Many lines on the same two or three successive legs: strategies with dozens of elementary paths."""
    chain = r.random() < 0.35                # a ride of many transfers instead
    for _ in range(20):
        path = walk(r, ref, r.choice(ref.order), 9, 0 if chain else 0.15)
        if len(path) >= (min(7, ref.n + 3) if chain else 3):
            break
    else:
        return []
    if chain:
        out = []
        for i, (a, b) in enumerate(zip(path, path[1:])):
            for j in range(r.choice([1, 1, 2])):
                out.append(RefRoute("leg%d_%d" % (i, j), m, [a, b], [b, a], [a, b], [b, a]))
        return out
    legs = r.choice([2, 2, 3]) if len(path) >= 4 else 2
    big = len(path) >= 4 and r.random() < BIG_FAN
    legs = 3 if big else legs
    cuts = [0] + sorted(r.sample(range(1, len(path) - 1), legs - 1)) + [len(path) - 1]
    out = []
    for i, (a, b) in enumerate(zip(cuts, cuts[1:])):
        ns = path[a:b + 1]
        for j in range(r.randint(8, 12) if big else r.randint(5, 11) if legs == 2 else r.randint(3, 6)):
            out.append(RefRoute("fan%d_%d" % (i, j), m, ns, ns[::-1], list(ns), ns[::-1]))
    return out


def lib_route(rr, mode_obj):
    """Library route of a custom RefRoute."""
    from sidermit.publictransportsystem import Route
    return Route(rr.id, mode_obj, seq_text(rr.ni), seq_text(rr.nr), seq_text(rr.si), seq_text(rr.sr))


def family(r, net, mode_obj, n):
    k = r.choice(["feeder", "radial", "radial", "diametral", "tangencial", "circular"])
    short, express = r.random() < 0.3, r.random() < 0.35
    if k == "feeder":
        return k, net.get_feeder_routes(mode_obj)
    if k == "radial":
        return k, net.get_radial_routes(mode_obj, short, express)
    if n >= 2 and k in ("diametral", "tangencial"):
        jump = r.randint(1, n // 2)
        fn = net.get_diametral_routes if k == "diametral" else net.get_tangencial_routes
        return k, fn(mode_obj, jump, short, express)
    if n >= 2 and k == "circular":
        return k, net.get_circular_routes(mode_obj)
    return "radial", net.get_radial_routes(mode_obj, short, express)


def ref_of_lib(route, m, circular):
    ints = lambda s: [int(x) for x in s]
    return RefRoute(route.id, m, ints(route.nodes_sequence_i), ints(route.nodes_sequence_r),
                    ints(route.stops_sequence_i), ints(route.stops_sequence_r), circular)


class Net:
    def __init__(self, city, modes, mode_objs, net, routes):
        self.city, self.modes, self.mode_objs, self.net, self.routes = city, modes, mode_objs, net, routes

    @property
    def ref(self):
        return self.city.ref


def make_net(r, city, modes, max_routes=10, want_custom=True, circular_ok=True, stable=True, style=None):
    """Network over the city; stable: every used mode serves at least one route."""
    from sidermit.publictransportsystem import TransportNetwork
    objs = [lib_mode(m) for m in modes]
    net = TransportNetwork(city.graph)
    n = city.ref.n
    routes, used = [], set()

    def add(lib, m, circ):
        if lib.id in used or len(routes) >= max_routes:
            return
        net.add_route(lib)
        used.add(lib.id)
        routes.append(ref_of_lib(lib, m, circ))

    style = r.random() if style is None else style
    fan = fan_routes(r, city.ref, r.randrange(len(modes))) if want_custom and max_routes >= 7 and r.random() < FAN else []
    for rr in fan:
        net.add_route(lib_route(rr, objs[rr.m]))
        used.add(rr.id)
        routes.append(rr)
    if fan:
        style, max_routes = 1.0, len(fan) + (r.choice([0, 0, max_routes]) if fan[0].id.startswith("leg") else max_routes)
    for m in range(len(modes)):
        nf = r.choice([0, 1, 1, 2]) if style < 0.8 else 0
        for _ in range(nf):
            k, rs = family(r, net, objs[m], n)
            if k == "circular" and not circular_ok:
                continue
            if k == "circular" and r.random() < 0.3:
                rs = rs[:1] if r.random() < 0.5 else rs[1:]
            if r.random() < 0.2 and len(rs) > 1:
                rs = r.sample(rs, r.randint(1, len(rs)))
            for x in rs:
                add(x, m, k == "circular")
        nc = r.choice([0, 0, 1, 2]) if nf else r.choice([2, 3, 4])
        if want_custom:
            for i in range(nc):
                rr = custom_route(r, city.ref, r.choice(ROUTE_IDS) % (m, i), m)
                if rr is not None:
                    add(lib_route(rr, objs[m]), m, False)
        if stable and not any(q.m == m for q in routes):
            for x in net.get_radial_routes(objs[m]):
                add(x, m, False)
            if not any(q.m == m for q in routes):     # max_routes reached by the other mode
                rid, rr = "last_%d" % m, None
                while rr is None:
                    rr = custom_route(r, city.ref, rid, m)
                net.add_route(lib_route(rr, objs[m]))
                routes.append(rr)
    out = Net(city, modes, objs, net, routes)
    out.fan = (fan[0].ni[0], fan[-1].ni[-1]) if fan else None
    return out


def gen_freq(r, routes, zeros=0.12, lo=0.5, hi=80):
    f = {}
    for q in routes:
        f[q.id] = 0.0 if r.random() < zeros else num(r, lo, hi)
        if f[q.id] and r.random() < 0.05:
            f[q.id] = r.choice([0.045, 0.1, r.uniform(0.045, 0.5), r.uniform(hi, 6 * hi)] + [10 ** r.uniform(-9, -1.4)] * TINY)
    if routes and all(v == 0 for v in f.values()):
        f[r.choice(routes).id] = num(r, lo, hi)
    return f


def ddict(f):
    d = defaultdict(float)
    d.update(f)
    return d


class Instance:
    """City + network + frequencies + passenger + demand, with the reference extended graph."""
    pass


def make_instance(r, nmin=1, nmax=4, max_routes=10, zeros=0.1, generic=None, freq="given", max_pairs=8, full_demand=0.15,
                  kmodes=None, circular_ok=True, theta_min=0.05):
    from sidermit.city import Demand
    global LONG
    wide = max_routes >= 8 and r.random() < BIG
    long = nmax >= 4 and r.random() < LONG_LINE
    late = r.random() < 0.5                  # the fullest section of a long line is far from its start
    if long:
        (nmin, nmax), full_demand, max_pairs = LONG_ZONES, 0, 2
    for attempt in range(50):
        city = make_city(r, nmin, nmax, generic)
        modes = gen_modes(r, kmodes, theta_min)
        large = city.ref.n > 9
        was, LONG = LONG, LONG or long
        nt = make_net(r, city, modes, (r.choice([1, 1, 3]) if late else 3) if long else min(max_routes, 7) if large else 16 if wide and city.ref.n <= 4 else max_routes,
                      circular_ok=circular_ok, style=1.0 if long else None)
        LONG = was
        if not nt.routes:
            continue
        if long:
            q = max(nt.routes, key=lambda q: len(q.si))
            nt.fan = (q.ni[0], q.ni[-1])
            side = r.choice([q.si, q.sr])
            nt.late = None
            if late and len(side) > 8:
                nt.fan = (side[0], side[-1])
                i = r.randrange(len(side) // 2, len(side) - 1)
                nt.late = (side[i], side[r.randrange(i + 1, len(side))])
        # used modes only, in registration order of the network
        f = gen_freq(r, nt.routes, zeros) if freq == "given" else {q.id: modes[q.m].fini * modes[q.m].d for q in nt.routes}
        pax = gen_pax(r)
        x = RefX(city.ref, modes, nt.routes, f, pax.pt)
        pairs = []
        for o in city.ref.order:
            reach = x.reachable(o)
            pairs += [(o, d) for d in city.ref.order if d != o and d in reach and ("C", o) in x.cities]
        if not pairs:
            continue
        ins = Instance()
        ins.city, ins.net, ins.modes, ins.f, ins.pax, ins.x = city, nt, modes, f, pax, x
        ins.connected = pairs
        dem = Demand(city.graph)
        trips = {}
        if r.random() < full_demand * (0.3 if large else 1):
            a, alpha, beta = num(r, 0, 1), num(r, 0, 0.6), num(r, 0, 0.35)
            y = num(r, 100, 20000)
            D2 = Demand.build_from_parameters(city.graph, y, a, alpha, beta)
            mtx = D2.get_matrix()
            t2 = {(o, d): mtx[o][d] for o in city.ref.order for d in city.ref.order if mtx[o][d] > 0}
            if t2 and all(p in pairs for p in t2) and len(t2) * sum(len(q.si) + len(q.sr) for q in nt.routes) <= 10000:
                dem, trips = D2, t2
        if not trips:
            k = r.randint(1, min(max_pairs, len(pairs)))
            some = r.sample(pairs, k)
            if nt.fan in pairs:
                if long and nt.late in pairs:
                    some = [nt.fan, nt.late]
                elif r.random() < 0.3:
                    some = [nt.fan]
                elif nt.fan not in some:
                    some.append(nt.fan)
            for o, d in some:
                trips[(o, d)] = num(r, 0.5, 3000) if r.random() < 0.85 else r.choice([0.01, 0.1, 1, r.uniform(0.001, 0.5), r.uniform(3000, 60000), 10 ** r.uniform(-9, -3), 10 ** r.uniform(4.8, 6)])
                if long and (o, d) == nt.late and r.random() < 0.7:
                    trips[(o, d)] = num(r, 1000, 9000)
                dem.change_vij(o, d, trips[(o, d)])
        ins.demand, ins.trips = dem, trips
        return ins
    raise RuntimeError("could not generate an instance")


def describe(ins):
    return {"city": ins.city.desc, "modes": [tuple(m) for m in ins.modes], "routes": [q.spec() for q in ins.net.routes],
            "frequency": ins.f, "passenger": tuple(ins.pax), "trips": {str(k): v for k, v in ins.trips.items()}}
