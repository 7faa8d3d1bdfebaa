import copy
import math
import random

from vf import gen
from vf.common import close, fail, req_close, require
from vf.optobs import optimised
from vf.ref import INF, Node, RefCity, RefRoute, RefX
from vf.xobs import XObs

gen.LONG_ZONES = (9, 16)  # each instance is solved many times
gen.TINY = False         # the final point of an optimisation is rounded below 1/24

CASES = {"quick": 1000, "thorough": 12000}
CASE_CPU = 200
RULE = ("each case solves one generated instance and 2-3 descriptions of the same problem (renamed ids, names, routes, modes; rotated, mirrored, shifted zone numbers; rows, routes "
        "and demand in another order; directions exchanged; circular lines started elsewhere; idle route added; other length, money or time-value units; objects reached through other histories: exported and imported, edited, with routes added and removed, used before) and compares labels, objective, "
        "constraints and overall results; an instance whose strategies contain a tie is only compared on labels; distinct by instance and transformations; non-trivial: a pair of runs compared")
MUST_SEE = ["compared", "objective", "constraints", "labels", "overall", "ids", "rotation", "mirror", "zones", "rows", "route_order", "route_names", "directions", "circular_start",
            "idle_route", "length_unit", "money_unit", "value_of_time", "demand_order", "mode_names", "two_modes", "circular",
            "past_city", "past_demand", "past_network", "past_use", "zero_left_out"]
ASSUMPTIONS = ["all nodes have the same width (the city-wide width is a single parameter)"]


class World:
    """One description of a problem, plain data."""

    def __init__(self, nodes, modes, routes, f, pax, trips, vecs):
        self.nodes, self.modes, self.routes, self.f, self.pax, self.trips, self.vecs = nodes, modes, routes, f, pax, trips, vecs
        self.cid = {n.id: n.id for n in nodes}           # original id -> id here
        self.rid = {q.id: q.id for q in routes}
        self.flip = {q.id: False for q in routes}        # directions exchanged
        self.mid = list(range(len(modes)))               # original mode index -> index here
        self.money, self.extra = 1.0, []
        self.past = {}                                   # how the objects came about: kind -> seed

    def copy(self):
        return copy.deepcopy(self)


class Solved:
    def __init__(self, w):
        from sidermit.city import Demand, Graph
        from sidermit.optimization.optimizer import Optimizer
        from sidermit.publictransportsystem import Route, TransportNetwork
        from sidermit.publictransportsystem.network import RouteType
        self.w = w
        self.ref = RefCity(w.nodes)
        self.g = Graph.build_from_content(gen.rows_text(w.nodes))
        past = {k: random.Random(v) for k, v in w.past.items()}
        if "past_city" in past:
            for _ in range(past["past_city"].randint(1, 3)):
                self.g = Graph.build_from_content(self.g.export_graph())
        self.dem = Demand(self.g)
        r = past.get("past_demand")
        if r:
            self.dem = self.edited(r)
        for (o, d), v in w.trips.items():
            self.dem.change_vij(o, d, v)
        if r and r.random() < 0.4:
            mtx, ids = self.dem.get_matrix(), [n.id for n in self.g.get_nodes()]
            self.dem = Demand.build_from_content(self.g, [[mtx[o][d] for d in ids] for o in ids])
        self.net = TransportNetwork(self.g)
        self.modes = [gen.lib_mode(m) for m in w.modes]
        r = past.get("past_network")
        for q in w.routes:
            kw = {"_type": RouteType.CIRCULAR} if q.circular else {}
            if r:
                self.come_and_go(r)
            self.net.add_route(Route(q.id, self.modes[q.m], gen.seq_text(q.ni), gen.seq_text(q.nr), gen.seq_text(q.si), gen.seq_text(q.sr), **kw))
        if r:
            self.come_and_go(r)
        r = past.get("past_use")
        if r:                                            # another analysis of the same objects
            other = Optimizer(self.g, self.dem, gen.lib_pax(w.pax), self.net, gen.ddict({q.id: gen.num(r, 1, 70) for q in w.routes}))
            other.VRC([gen.num(r, 1, 70) for _ in w.routes])
            other.get_constrains([gen.num(r, 1, 70) for _ in w.routes])
        self.opt = Optimizer(self.g, self.dem, gen.lib_pax(w.pax), self.net, gen.ddict(w.f))
        if r:
            for _ in range(r.randint(1, 3)):
                r.choice([self.opt.VRC, self.opt.get_constrains])([gen.num(r, 1, 70) for _ in w.routes])

    def edited(self, r):
        """A demand with cells that will be overwritten, and others cleared again, and refused edits."""
        from sidermit.city import Demand
        from sidermit.exceptions import SIDERMITException
        if r.random() < 0.4 and len(self.w.nodes) > 1:
            dem = Demand.build_from_parameters(self.g, 1000, 0.5, 0.3, 0.2)
            mtx = dem.get_matrix()
            clear = [(o, d) for o in self.ref.order for d in self.ref.order if mtx[o][d] > 0]
        else:
            dem, clear = Demand(self.g), []
        for _ in range(r.randint(1, 6)):
            o, d = r.choice(self.ref.order), r.choice(self.ref.order)
            dem.change_vij(o, d, gen.num(r, 1, 900))
            clear.append((o, d))
            try:
                dem.change_vij(o, d, -1)
                fail("a negative demand is accepted")
            except SIDERMITException:
                pass
        for o, d in clear:
            if (o, d) not in self.w.trips:
                dem.change_vij(o, d, 0)
        return dem

    def come_and_go(self, r):
        """Routes that are added and removed again, or refused; the modes stay."""
        from sidermit.exceptions import SIDERMITException
        from sidermit.publictransportsystem import Route
        have = [x.id for x in self.net.get_routes()]
        gone = []
        for i in range(r.choice([0, 1, 2])):
            q = gen.custom_route(r, self.ref, r.choice(["gone%d", "%d1", "R%d"]) % i, r.randrange(len(self.modes)))
            if q is None or q.id in have + gone:
                continue
            self.net.add_route(gen.lib_route(q, self.modes[q.m]))
            gone.append(q.id)
        if have and r.random() < 0.5:                    # the latest one leaves and comes back, or is offered twice
            x = self.net.get_routes()[len(have) - 1]
            if r.random() < 0.5 and not gone:
                self.net.remove_route(x.id)
            else:
                x = Route(x.id, x.mode, *(gen.seq_text(s) for s in (x.nodes_sequence_i, x.nodes_sequence_r, x.stops_sequence_i, x.stops_sequence_r)), _type=x._type)
            try:
                self.net.add_route(x)
            except SIDERMITException:
                pass
        for k in r.sample(gone, len(gone)):
            self.net.remove_route(k)
        require([x.id for x in self.net.get_routes()] == have, "routes left after adding and removing others", expected=have, got=[x.id for x in self.net.get_routes()])

    def labels(self):
        """In the original problem's names."""
        w, o = self.w, self.opt
        obs = XObs(o.extended_graph_obj, self.modes, w.routes)
        self.obs = obs
        ic = {v: k for k, v in w.cid.items()}
        ir = {v: k for k, v in w.rid.items()}
        im = {v: k for k, v in enumerate(w.mid)}

        def key(k):
            if k[0] == "C":
                return ("C", ic[k[1]])
            if k[0] == "S":
                return ("S", ic[k[1]], im[k[2]])
            if k[1] in w.extra:
                return None
            rid = ir[k[1]]
            d = {"I": "R", "R": "I"}[k[2]] if w.flip[rid] else k[2]
            return ("R", rid, d, ic[k[3]])
        out = {}
        for a in o.labels:
            for b in o.labels[a]:
                for n in o.labels[a][b]:
                    k = key(obs.key[n])
                    if k is not None:
                        out[(ic[obs.key[a][1]], ic[obs.key[b][1]], k)] = o.labels[a][b][n]
        return out

    def shares(self):
        w, o = self.w, self.opt
        ic = {v: k for k, v in w.cid.items()}
        im = {v: k for k, v in enumerate(w.mid)}
        k = self.obs.key
        return {(ic[k[a][1]], ic[k[b][1]], im[k[s][2]]): o.assignment[a][b][s] for a in o.assignment for b in o.assignment[a] for s in o.assignment[a][b]
                if o.assignment[a][b][s]}

    def vec(self, v):
        """Frequencies by original route id -> vector of this description."""
        inv = {x: k for k, x in self.w.rid.items()}
        return [v[inv[q.id]] if q.id in inv else 0.0 for q in self.w.routes]

    def value(self, v):
        return self.opt.VRC(self.vec(v)) / self.w.money

    def constraints(self, v):
        c = list(self.opt.get_constrains(self.vec(v)))
        n = len(self.w.routes)
        inv = {x: k for k, x in self.w.rid.items()}
        return {inv[q.id]: x for q, x in zip(self.w.routes, c) if q.id in inv}, sorted(c[n:])

    def overall(self, v):
        opt = optimised(self.g, self.dem, gen.lib_pax(self.w.pax), self.net, self.vec(v), f=gen.ddict(self.w.f))
        out = opt.get_overall_results()
        names = {m.name: i for i, m in enumerate(self.w.modes)}
        im = {v: k for k, v in enumerate(self.w.mid)}
        flat = {}
        for n, x in out.items():
            if hasattr(x, "items"):
                for m, y in x.items():
                    flat[(n, im[names[m.name]])] = y
            else:
                flat[n] = x / self.w.money if n in ("VRC", "operators_cost", "infrastructure_cost", "users_cost") else x
        return flat


# ------------------------------------------------------------------ descriptions of the same problem
def t_ids(r, w):
    new = gen.ids_for(r, len(w.nodes))
    m = {n.id: i for n, i in zip(w.nodes, new)}
    w.nodes = [n._replace(id=m[n.id], name="x%d" % r.randint(0, 10 ** 6)) for n in w.nodes]
    for q in w.routes:
        q.ni, q.nr, q.si, q.sr = ([m[i] for i in s] for s in (q.ni, q.nr, q.si, q.sr))
    w.trips = {(m[a], m[b]): v for (a, b), v in w.trips.items()}
    w.cid = {k: m[v] for k, v in w.cid.items()}


def t_rotation(r, w):
    a = r.choice([90, 180, 270, r.uniform(0, 360)])
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    w.nodes = [n._replace(x=n.x * c - n.y * s, y=n.x * s + n.y * c) for n in w.nodes]


def t_mirror(r, w):
    w.nodes = [n._replace(x=-n.x) for n in w.nodes]


def t_zones(r, w):
    n = max(x.zone for x in w.nodes)
    k, back = r.randrange(n), r.random() < 0.5
    f = lambda z: 0 if z == 0 else (((n - z) if back else (z - 1)) + k) % n + 1
    w.nodes = [x._replace(zone=f(x.zone)) for x in w.nodes]


def t_rows(r, w):
    r.shuffle(w.nodes)


def t_route_order(r, w):
    r.shuffle(w.routes)


def t_route_names(r, w):
    new = r.sample(["a", "b", "aa", "1", "11", "R", "R1", "10", "x_1", "x_11", "c", "d", "e", "2", "22"] + ["r%d" % i for i in range(3, max(4, len(w.routes)))], len(w.routes))
    m = {q.id: i for q, i in zip(w.routes, new)}
    for q in w.routes:
        q.id = m[q.id]
    w.f = {m[k]: v for k, v in w.f.items()}
    w.rid = {k: m[v] for k, v in w.rid.items()}


def t_directions(r, w):
    for q in w.routes:
        if r.random() < 0.7:
            q.ni, q.nr, q.si, q.sr = q.nr, q.ni, q.sr, q.si
            orig = [k for k, v in w.rid.items() if v == q.id][0]
            w.flip[orig] = not w.flip[orig]


def t_circular_start(r, w):
    for q in w.routes:
        if q.circular:
            start = r.choice((q.ni or q.nr)[:-1])
            for a, b in (("ni", "si"), ("nr", "sr")):
                s = getattr(q, a)
                if s and s == getattr(q, b):
                    k = s[:-1].index(start)
                    s = s[k:-1] + s[:k] + [s[k]]
                    setattr(q, a, s)
                    setattr(q, b, list(s))


def t_idle_route(r, w):
    ref = RefCity(w.nodes)
    used = {q.m for q in w.routes}
    q = gen.custom_route(r, ref, "idle", r.choice(sorted(used)))
    if q is not None:
        # only at nodes that are served anyway by the mode: an idle route may otherwise add (useless) stops, which is equally fine
        w.routes.insert(r.randint(0, len(w.routes)), q)
        w.f["idle"] = 0.0
        w.extra.append("idle")


def t_length_unit(r, w):
    s = r.choice([0.5, 2.0, 4.0, 1000.0, r.uniform(0.2, 5)])
    w.nodes = [n._replace(x=n.x * s, y=n.y * s, width=n.width * s) for n in w.nodes]
    w.modes = [m._replace(v=m.v * s, c2=m.c2 / s) for m in w.modes]
    w.pax = w.pax._replace(va=w.pax.va * s)


def t_money_unit(r, w):
    s = r.choice([0.5, 2.0, 700.0, r.uniform(0.2, 5)])
    w.modes = [m._replace(co=m.co * s, c1=m.c1 * s, c2=m.c2 * s) for m in w.modes]
    w.pax = w.pax._replace(spv=w.pax.spv * s, spw=w.pax.spw * s, spa=w.pax.spa * s)
    w.money *= s


def t_value_of_time(r, w):
    s = r.choice([0.5, 2.0, 10.0, r.uniform(0.2, 5)])
    w.pax = w.pax._replace(pv=w.pax.pv * s, pw=w.pax.pw * s, pa=w.pax.pa * s)


def t_demand_order(r, w):
    k = list(w.trips.items())
    r.shuffle(k)
    w.trips = dict(k)


def t_mode_names(r, w):
    new = r.sample(["m", "mm", "bus", "metro", "1", "tram"], len(w.modes))
    w.modes = [m._replace(name=n) for m, n in zip(w.modes, new)]
    if len(w.modes) == 2 and r.random() < 0.5:
        w.modes.reverse()
        for q in w.routes:
            q.m = 1 - q.m
        w.mid = [1 - i for i in w.mid]


def past(kind):
    def t(r, w):
        w.past[kind] = r.randrange(10 ** 9)
    return t


t_past_city, t_past_demand, t_past_network, t_past_use = (past(k) for k in ("past_city", "past_demand", "past_network", "past_use"))

def t_zero_left_out(r, w):
    w.f = {k: v for k, v in w.f.items() if v}


ALL = ["ids", "rotation", "mirror", "zones", "rows", "route_order", "route_names", "directions", "circular_start", "idle_route", "length_unit", "money_unit", "value_of_time",
       "demand_order", "mode_names", "past_city", "past_demand", "past_network", "past_use", "zero_left_out"]


def has_tie(ins, labels):
    """Some node a passenger may visit has two (nearly) equally good successors, or two starts are equally good."""
    x, pax = ins.x, ins.pax
    wa = pax.pa / pax.pv
    near = lambda a, b: a < INF and b < INF and abs(a - b) <= 1e-6 * (1 + abs(a))
    for (o, d) in ins.trips:
        V = x.labels(o, d, pax)
        seen, work = set(), [sk for sk in x.stops if sk[1] == o and V[sk] < INF]
        if len(work) == 2:
            l = [V[k] + x.modes[k[2]].tat / 60 * wa for k in work]
            if near(*l):
                return True
        while work:
            k = work.pop()
            if k in seen or k == ("C", d):
                continue
            seen.add(k)
            if k[0] == "C":
                opts = [(x.modes[s[2]].tat / 60 * wa + V[s], s) for s in x.stops if s[1] == k[1]]
            elif k[0] == "R":
                opts = []
                if k in x.alight:
                    s = x.alight[k]
                    opts.append((V[s] + (0 if s[1] == d else x.TP / 60), s))
                if k in x.ride:
                    opts.append((x.ride[k][1] + V[x.ride[k][0]], x.ride[k][0]))
            else:
                lab = x.board_label(k, V, pax)
                acc = x.modes[k[2]].tat / 60 * wa + V[("C", k[1])] if k[1] != o else INF
                if near(lab, acc):
                    return True
                if lab < acc:
                    for rk, f in x.board[k]:
                        if f > 0 and near(V[rk], lab):
                            return True
                        if f > 0 and V[rk] < lab:
                            work.append(rk)
                else:
                    work.append(("C", k[1]))
                continue
            opts = sorted((q for q in opts if q[0] < INF), key=lambda q: q[0])
            if len(opts) > 1 and near(opts[0][0], opts[1][0]):
                return True
            if opts:
                work.append(opts[0][1])
    return False


def same(cx, a, b, what, scale, kinds, **detail):
    require(set(a) == set(b), what + ": other entries", only_first=[k for k in a if k not in b][:4], only_second=[k for k in b if k not in a][:4], descriptions=kinds)
    for k in a:
        require(close(a[k], b[k], 1e-6, 1e-8 * (1 + scale)), what + " depends on how the problem is described", entry=k, first=a[k], second=b[k], descriptions=kinds, **detail)


def case(cx):
    r = cx.rng
    ins = gen.make_instance(r, 1, 4, max_routes=7, zeros=r.choice([0, 0, 0.15]), generic=True, max_pairs=6, full_demand=0.1)
    ref = ins.city.ref
    width = list(ref.nodes.values())[0].width
    nodes = [n._replace(width=width) for n in ref.nodes.values()]
    f = dict(ins.f)
    vecs = [f] + [{k: (gen.num(r, 1, 70)) for k in f} for _ in range(2)]
    base = World(nodes, ins.modes, [RefRoute(q.id, q.m, q.ni, q.nr, q.si, q.sr, q.circular) for q in ins.net.routes], f, ins.pax, dict(ins.trips), vecs)
    used = sorted({q.m for q in base.routes})
    if len(used) < len(base.modes):
        base.modes = [base.modes[m] for m in used]
        for q in base.routes:
            q.m = used.index(q.m)
        ins.modes = base.modes
        base.mid = list(range(len(base.modes)))
    ins.x = RefX(RefCity(nodes), base.modes, base.routes, f, ins.pax.pt)
    cx.desc = dict(gen.describe(ins), width=width, descriptions=[])
    cx.shape(tuple(ref.order), repr([q.spec() for q in base.routes]), repr(sorted(f.items(), key=str)), repr(sorted(ins.trips.items())))
    A = Solved(base)
    la = A.labels()
    tie = has_tie(ins, la)
    cx.count("ties", tie)
    cx.count("two_modes", len(base.modes) == 2)
    cx.count("circular", any(q.circular for q in base.routes))
    sa = A.shares()
    res = []
    if not tie:
        for v in base.vecs:
            res.append((A.value(v), A.constraints(v)))
        served = all(d in ins.x.reachable(o) for o, d in ins.trips)
        oa = A.overall(f)
    for _ in range(r.choice([2, 3])):
        kinds = [r.choice(ALL)] if r.random() < 0.6 else r.sample(ALL, r.randint(2, 6))
        if any(q.circular for q in base.routes) and r.random() < 0.3:
            kinds = list(dict.fromkeys(kinds + ["circular_start"]))
        kinds.sort(key=lambda k: k == "idle_route")          # the others only know the original routes
        w = base.copy()
        for k in kinds:
            globals()["t_" + k](r, w)
        cx.desc["descriptions"].append(kinds)
        cx.shape(repr(kinds))
        B = Solved(w)
        lb = B.labels()
        if w.extra:                                   # an idle route may add stops nobody can use
            new = [k for k in lb if k not in la]
            require(all(lb[k] == INF or k[2][0] in "SC" for k in new), "an idle route makes something reachable", entries=new[:3])
            lb = {k: v for k, v in lb.items() if k in la}
        same(cx, la, lb, "a label", 0, kinds)
        cx.count("labels", len(la))
        for k in kinds:
            cx.count(k)
        if tie:
            continue
        same(cx, sa, B.shares(), "the split of a pair", 100, kinds)
        for v, (val, con) in zip(base.vecs, res):
            vb = B.value(v)
            require(close(val, vb, 1e-6, 1e-6), "the objective depends on how the problem is described", first=val, second=vb, descriptions=kinds)
            cx.count("objective")
            c2 = B.constraints(v)
            same(cx, con[0], c2[0], "a capacity constraint", 1, kinds)
            require(len(con[1]) == len(c2[1]) and all(close(p, q, 1e-6, 1e-7) for p, q in zip(con[1], c2[1])), "the frequency constraints depend on how the problem is described",
                    first=con[1][:6], second=c2[1][:6], descriptions=kinds)
            cx.count("constraints")
        same(cx, oa, B.overall(f), "an overall result", 1, kinds)
        cx.count("overall")
        cx.count("compared")
    cx.nontrivial = not tie
