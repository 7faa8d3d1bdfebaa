"""Independent reference model of the documented semantics. Shares no code with the library.

Plain data only:
  city   RefCity: nodes {id: Node}, zones [(pid, scid)], cbd id, streets set((i, j)), dist(i, j)
  mode   RefMode: the 13 parameters as given (per-line fmax/fini)
  route  RefRoute: id, mode index, node and stop sequences, circular flag
Extended-graph keys: ('C', city), ('S', city, mode), ('R', route, direction, city).
"""
import math
from collections import defaultdict, namedtuple

INF = float("inf")
Node = namedtuple("Node", "id name x y kind zone width")


class RefCity:
    def __init__(self, nodes):
        self.nodes = {}
        for nd in nodes:
            assert nd.id not in self.nodes
            self.nodes[nd.id] = nd
        self.cbd = [nd.id for nd in nodes if nd.kind == "CBD"][0]
        zs = sorted({nd.zone for nd in nodes if nd.kind != "CBD"})
        self.n = len(zs)
        assert zs == list(range(1, self.n + 1))
        per = {nd.zone: nd.id for nd in nodes if nd.kind == "P"}
        sub = {nd.zone: nd.id for nd in nodes if nd.kind == "SC"}
        self.zones = [(per[z], sub[z]) for z in zs]
        st = set()
        for i, (p, s) in enumerate(self.zones):
            st |= {(p, s), (s, p), (s, self.cbd), (self.cbd, s)}
            if self.n >= 2:
                s2 = self.zones[(i + 1) % self.n][1]
                st |= {(s, s2), (s2, s)}
        self.streets = st
        # canonical order: CBD, then zone by zone P, SC
        self.order = [self.cbd] + [x for z in self.zones for x in z]

    def dist(self, i, j):
        a, b = self.nodes[i], self.nodes[j]
        return math.hypot(a.x - b.x, a.y - b.y)

    def path_length(self, seq):
        return sum(self.dist(a, b) for a, b in zip(seq, seq[1:]))

    @staticmethod
    def from_params(n, l, g, p, etha=None, etha_zone=None, angles=None, Gi=None, Hi=None):
        nodes = []
        rsc, ang = [], []
        for z in range(n):
            a = angles[z] if angles is not None else 360.0 * z / n
            ang.append(a)
            rsc.append(l * (Gi[z] if Gi is not None else 1))
        cx = cy = 0.0
        if etha is not None:
            r = etha * rsc[etha_zone - 1]
            t = ang[etha_zone - 1] * math.pi / 180
            cx, cy = r * math.cos(t), r * math.sin(t)
        nodes.append(Node(0, "CBD", cx, cy, "CBD", 0, p))
        for z in range(n):
            rp = l * (1 + g) * (Hi[z] if Hi is not None else 1)
            t = ang[z] * math.pi / 180
            nodes.append(Node(2 * z + 1, "P_%d" % (z + 1), rp * math.cos(t), rp * math.sin(t), "P", z + 1, p))
            nodes.append(Node(2 * z + 2, "SC_%d" % (z + 1), rsc[z] * math.cos(t), rsc[z] * math.sin(t), "SC", z + 1, p))
        return RefCity(nodes)


RefMode = namedtuple("RefMode", "name bya co c1 c2 v t fmax kmax theta tat d fini")
RefPax = namedtuple("RefPax", "va pv pw pa pt spv spw spa spt")


class RefRoute:
    def __init__(self, rid, m, ni, nr, si, sr, circular=False):
        self.id, self.m, self.circular = rid, m, circular
        self.ni, self.nr, self.si, self.sr = list(ni), list(nr), list(si), list(sr)

    def dirs(self):
        for d, n, s in (("I", self.ni, self.si), ("R", self.nr, self.sr)):
            if s:
                yield d, n, s

    def spec(self):
        return {"id": self.id, "mode": self.m, "I": self.ni, "R": self.nr, "stops_I": self.si, "stops_R": self.sr,
                "circular": self.circular}


class RefX:
    """Extended graph."""

    def __init__(self, city, modes, routes, freq, TP):
        """freq: {route id: total frequency}. TP: minutes."""
        self.city, self.modes, self.routes, self.TP = city, modes, routes, TP
        self.cities, self.stops, self.rnodes = set(), set(), []
        self.board = defaultdict(list)      # stop -> [(rnode, f per line)]
        self.alight = {}                    # rnode -> stop
        self.ride = {}                      # rnode -> (next rnode, time)
        self.prev = {}
        self.rmode = {}
        for r in routes:
            md = modes[r.m]
            for d, ns, ss in r.dirs():
                visits = ss[1:] if r.circular else ss
                for k, c in enumerate(visits):
                    rk = ("R", r.id, d, c)
                    sk = ("S", c, r.m)
                    self.cities.add(("C", c))
                    self.stops.add(sk)
                    self.rnodes.append(rk)
                    self.rmode[rk] = r.m
                    if r.circular or c != ns[-1]:
                        self.board[sk].append((rk, freq[r.id] / md.d))
                    if r.circular or c != ns[0]:
                        self.alight[rk] = sk
                legs = list(zip(ss, ss[1:]))
                pos = -1
                for a, b in legs:
                    # positions along the route's own node sequence
                    ia = ns.index(a, max(pos, 0))
                    ib = ns.index(b, ia + 1)
                    pos = ib
                    t = city.path_length(ns[ia:ib + 1]) / md.v
                    ka, kb = ("R", r.id, d, a), ("R", r.id, d, b)
                    self.ride[ka] = (kb, t)
                    self.prev[kb] = ka

    def edges(self):
        """{(kind, from, to): (t, f)}"""
        out = {}
        for sk in self.stops:
            tat = self.modes[sk[2]].tat / 60.0
            c = ("C", sk[1])
            out[("ACCESS", c, sk)] = (tat, INF)
            out[("ACCESS", sk, c)] = (tat, INF)
            for rk, f in self.board[sk]:
                out[("BOARDING", sk, rk)] = (0.0, f)
        for rk, sk in self.alight.items():
            out[("ALIGHTING", rk, sk)] = (self.TP / 60.0, INF)
        for a, (b, t) in self.ride.items():
            out[("ROUTE", a, b)] = (t, INF)
        return out

    def reachable(self, o, positive_only=True):
        """Cities reachable by boarding lines with positive frequency from city o."""
        seen = set()
        work = [sk for sk in self.stops if sk[1] == o]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            if k[0] == "S":
                for rk, f in self.board[k]:
                    if f > 0 or not positive_only:
                        work.append(rk)
                if k[1] != o:
                    work.append(("C", k[1]))
            elif k[0] == "C":
                work += [sk for sk in self.stops if sk[1] == k[1]]
            else:
                if k in self.alight:
                    work.append(self.alight[k])
                if k in self.ride:
                    work.append(self.ride[k][0])
        return {k[1] for k in seen if k[0] == "S"}

    def labels(self, o, d, pax):
        """Least expected generalised time from every node to city d when the trip starts at city o
        (no walking through o). Fixed point from above of the optimality equations."""
        wa = pax.pa / pax.pv
        V = {}
        for k in self.cities:
            V[k] = INF
        for k in self.stops:
            V[k] = INF
        for k in self.rnodes:
            V[k] = INF
        if ("C", d) in V:
            V[("C", d)] = 0.0
        by_city = defaultdict(list)
        for sk in self.stops:
            by_city[sk[1]].append(sk)
        for it in range(100000):
            changed = False
            for k in self.rnodes:
                best = INF
                if k in self.alight:
                    sk = self.alight[k]
                    best = V[sk] + (0.0 if sk[1] == d else self.TP / 60.0)
                if k in self.ride:
                    nk, t = self.ride[k]
                    best = min(best, t + V[nk])
                if best < V[k]:
                    V[k] = best
                    changed = True
            for k in self.stops:
                md = self.modes[k[2]]
                best = INF
                if k[1] != o:
                    best = md.tat / 60.0 * wa + V[("C", k[1])]
                b = self.board_label(k, V, pax)
                best = min(best, b)
                if best < V[k]:
                    V[k] = best
                    changed = True
            for k in self.cities:
                if k[1] in (o, d):
                    continue
                best = min([self.modes[sk[2]].tat / 60.0 * wa + V[sk] for sk in by_city[k[1]]] or [INF])
                if best < V[k]:
                    V[k] = best
                    changed = True
            if not changed:
                break
        return V

    def board_label(self, sk, V, pax):
        md = self.modes[sk[2]]
        lines = sorted((V[rk], f) for rk, f in self.board[sk] if f > 0 and V[rk] < INF)
        num, F = md.theta * pax.pw / pax.pv, 0.0
        L = INF
        for t, f in lines:
            if t >= L:
                break
            num += f * t
            F += f
            L = num / F
        return L


def shares(l1, l2, d2, p, vp, pa, pv):
    """Percent given to (central single-line stop, other stop). All results a rounding of the indifference
    distance may produce: the exact one and, near a line position, the ones on either side."""
    out = []
    unit = vp / (pa / pv)
    scale = max(abs(unit * l1) if l1 < INF else 0, abs(unit * l2) if l2 < INF else 0, p, 1e-12)
    eps = 1e-9 * scale
    base = unit * (l2 - l1) if not (l1 == INF and l2 == INF) else 0.0
    for diff in ({base, base - eps, base + eps} if abs(base) < INF else {base}):
        if diff >= 0:
            s = _central_better(diff, d2, p)
        else:
            s = _other_better(-diff, d2, p)
        out.append(s)
    return out


def _central_better(dist, d2, p):
    """dist: walking distance at which the central stop and a stop of the other mode are worth the same."""
    if dist >= p / 2.0:
        return (100.0, 0.0)
    gap = p / d2
    for i in range(d2 // 2):
        pos = gap / 2 + i * gap
        if pos > dist:
            s = (dist + pos) / p * 100
            return (s, 100 - s)
    return (100.0, 0.0)


def _other_better(dist, d2, p):
    if d2 % 2 == 1:
        return (0.0, 100.0)
    pos = p / d2 / 2
    if dist >= pos:
        return (0.0, 100.0)
    s = (pos - dist) / p * 100
    return (s, 100 - s)


class Flows:
    """Passenger flows of given strategies, by node-flow propagation (not path enumeration).

    trips: [(o, d, {stop key: pax}, succ)] with succ {key: [key]} an acyclic strategy."""

    def __init__(self, x, f, trips):
        self.x, self.f = x, f
        self.z, self.v, self.load = defaultdict(float), defaultdict(float), defaultdict(float)
        self.trans = defaultdict(float)       # alightings short of the destination
        self.arrived = 0.0
        self.access_extra = 0.0               # pax hours of access at mode changes
        self.wait = 0.0
        self.ride_h = 0.0
        self.through = defaultdict(float)
        self.per_od_arr = {}
        modes = x.modes
        for o, d, start, succ in trips:
            flow = defaultdict(float)
            for sk, q in start.items():
                flow[sk] += q
            arc_in = defaultdict(float)
            for k in topo(start, succ, d):
                q = flow[k]
                if q == 0:
                    continue
                if k[0] == "S" and k[1] == d:
                    self.arrived += q
                    self.per_od_arr[(o, d)] = self.per_od_arr.get((o, d), 0) + q
                    continue
                nxt = succ.get(k, [])
                if k[0] == "S" and nxt and nxt[0][0] == "R":
                    md = modes[k[2]]
                    tot = sum(f[r[1]] for r in nxt)
                    self.wait += q * md.theta / (tot / md.d)
                    for r in nxt:
                        w = q * f[r[1]] / tot
                        self.z[(r[1], r[2], r[3])] += w
                        flow[r] += w
                elif k[0] == "S":
                    for c in nxt:
                        self.access_extra += q * modes[k[2]].tat / 60.0
                        flow[c] += q
                elif k[0] == "C":
                    for s in nxt:
                        self.access_extra += q * modes[s[2]].tat / 60.0
                        flow[s] += q
                else:
                    for nk in nxt:
                        if nk[0] == "R":
                            self.load[(k[1], k[2], k[3])] += q
                            self.ride_h += q * x.ride[k][1]
                            if arc_in[k]:
                                self.through[(k[1], k[2], k[3])] += arc_in[k]
                            arc_in[nk] += q
                        else:
                            self.v[(k[1], k[2], k[3])] += q
                            if nk[1] != d:
                                self.trans[(k[1], k[2], k[3])] += q
                        flow[nk] += q
        self.transfers = sum(self.trans.values())

    def per_vehicle(self):
        """z, v, load per vehicle."""
        def div(t):
            return {k: (q / self.f[k[0]] if self.f[k[0]] else q) for k, q in t.items()}
        return div(self.z), div(self.v), div(self.load)

    def dwell_hours(self, z, v):
        """In-vehicle hours due to dwell, with z, v per vehicle."""
        h = 0.0
        for k, q in self.through.items():
            md = self.x.modes[self.x.rmode[("R",) + k]]
            n = max(z.get(k, 0), v.get(k, 0)) if md.bya == 1 else z.get(k, 0) + v.get(k, 0)
            h += q * n * md.t / 3600.0
        for k, q in self.v.items():
            md = self.x.modes[self.x.rmode[("R",) + k]]
            h += q * 0.5 * v.get(k, 0) * md.t / 3600.0
        return h


def topo(start, succ, d):
    """Nodes reachable from start in topological order (strategies are acyclic); stops at stops of d."""
    order, state = [], {}
    for s in start:
        stack = [(s, 0)]
        while stack:
            k, i = stack.pop()
            if i == 0:
                if state.get(k):
                    continue
                state[k] = 1
            nx = [] if (k[0] == "S" and k[1] == d) else succ.get(k, [])
            if i < len(nx):
                stack.append((k, i + 1))
                c = nx[i]
                if state.get(c) == 1:
                    raise ValueError("strategy contains a cycle through %r" % (c,))
                if not state.get(c):
                    stack.append((c, 0))
            else:
                state[k] = 2
                order.append(k)
    return order[::-1]


def initial_access(trips, share_of, modes, width_of, va):
    """Access hours at the start. share_of[(o,d)][stop] in percent, pax in trips."""
    ta = 0.0
    for o, d, start, _ in trips:
        for sk, q in start.items():
            md = modes[sk[2]]
            ta += q * (md.tat / 60.0 + share_of[(o, d)][sk] / 100.0 * width_of[o] / (4.0 * va * md.d))
    return ta


def line_time(city, route, mode):
    return (city.path_length(route.ni) + city.path_length(route.nr)) / mode.v


def cycle_time(line_t, route, mode, z, v):
    """z, v: {(rid, dir, city): per vehicle}"""
    tc = line_t
    for d in ("I", "R"):
        keys = {k for k in z if k[0] == route.id and k[1] == d} | {k for k in v if k[0] == route.id and k[1] == d}
        for k in keys:
            a, b = z.get(k, 0), v.get(k, 0)
            tc += mode.t / 3600.0 * (max(a, b) if mode.bya == 1 else a + b)
    return tc


def mode_lengths(city, routes, modes, f):
    out = {}
    for m, md in enumerate(modes):
        used = set()
        for r in routes:
            if r.m == m and f[r.id] != 0:
                for seq in (r.ni, r.nr):
                    for a, b in zip(seq, seq[1:]):
                        used.add(frozenset((a, b)))
        tot = 0.0
        for e in used:
            a, b = tuple(e)
            tot += city.dist(a, b)
        if used:
            out[m] = tot * md.d
    return out


def street_excess(city, routes, modes, f):
    """{(i, j, mode): sum of per-line frequency - per-line maximum}"""
    out = {}
    for (i, j) in city.streets:
        for m, md in enumerate(modes):
            s = 0.0
            for r in routes:
                if r.m == m:
                    for seq in (r.ni, r.nr):
                        s += f[r.id] / md.d * sum(1 for a, b in zip(seq, seq[1:]) if (a, b) == (i, j))
            out[(i, j, m)] = s - md.fmax
    return out
