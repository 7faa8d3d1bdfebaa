"""The library's pre-optimisation pipeline on a generated instance, with its results as reference keys."""
from collections import defaultdict

from vf import gen
from vf.ref import Flows
from vf.xobs import XObs


class Pipe:
    """xg/H/L/S/F/V/A as the library computed them; trips: [(o, d, {stop key: pax}, succ)] for ref.Flows."""

    def __init__(self, ins, width=None, split="library", rng=None):
        from sidermit.optimization.preoptimization import Assignment, ExtendedGraph, Hyperpath
        self.ins, self.pax = ins, ins.pax
        self.lib_pax = gen.lib_pax(ins.pax)
        self.routes = list(ins.net.net.get_routes())
        self.xg = ExtendedGraph(ins.city.graph, self.routes, ins.pax.pt, gen.ddict(ins.f))
        self.obs = XObs(self.xg, ins.net.mode_objs, ins.net.routes)
        self.H, self.L, self.S, self.F, self.V = Hyperpath(self.xg, self.lib_pax).get_all_hyperpaths(ins.demand.get_matrix())
        self.width = width if width is not None else ins.city.graph.get_parameters()[3]
        self.A = Assignment.get_assignment(self.H, self.L, self.width, ins.pax.va, ins.pax.pa, ins.pax.pv)
        if split == "random":
            A = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
            for o in self.H:
                for d in self.H[o]:
                    use = [s for s in self.H[o][d] if len(self.H[o][d][s])]
                    w = [rng.choice([0, 1, 1, rng.random()]) for _ in use]
                    if not sum(w):
                        w[0] = 1
                    for s, q in zip(use, w):
                        A[o][d][s] = 100.0 * q / sum(w)
            self.A = A
        self.read()

    def read(self):
        self.trips, self.share = read_strategies(self.obs, self.H, self.S, self.A, self.V)

    def stops_boarded(self):
        """[[route ids]] boarded together somewhere."""
        out = set()
        for o, d, start, succ in self.trips:
            for k, ns in succ.items():
                if k[0] == "S" and k[1] != d and ns and ns[0][0] == "R":
                    out.add(tuple(sorted({n[1] for n in ns}, key=str)))
        return out

    def other_freq(self, r):
        """A frequency table differing from the one of the strategies, every boarded stop still served."""
        f = gen.gen_freq(r, self.ins.net.routes, zeros=0.35, lo=0.1, hi=120)
        for q in self.ins.net.routes:
            if r.random() < 0.3:
                f[q.id] = self.ins.f[q.id]
        for grp in sorted(self.stops_boarded(), key=str):
            if sum(f[i] for i in grp) <= 0:
                f[r.choice(grp)] = gen.num(r, 0.5, 60)
        if r.random() < 0.01:                # hardly any service at all
            c = 10 ** r.uniform(-13, -5)
            f = {i: v * c for i, v in f.items()}
        return f

    def flows(self, f):
        return Flows(self.ins.x, f, self.trips)


def read_strategies(obs, H, S, A, V):
    trips, share = [], {}
    for o in H:
        for d in H[o]:
            ko, kd = obs.key[o][1], obs.key[d][1]
            succ = {obs.key[n]: [obs.key[e.nodej] for e in S[o][d][n]] for n in S[o][d]}
            start = {obs.key[s]: V[o][d] * A[o][d][s] / 100.0 for s in H[o][d]}
            share[(ko, kd)] = {obs.key[s]: A[o][d][s] for s in H[o][d]}
            trips.append((ko, kd, start, succ))
    return trips, share


def table(obs, t):
    """dic[route][dir][StopNode] -> {(rid, dir, city): value}"""
    out = {}
    for rid in t:
        for d in t[rid]:
            for s in t[rid][d]:
                out[(rid, d, obs.key[s][1])] = t[rid][d][s]
    return out


def lib_table(obs, t, modeof):
    """The reverse: a library table from plain keys."""
    out = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    for (rid, d, c), q in t.items():
        out[rid][d][obs.node[("S", c, modeof[rid])]] = q
    return out


class Costs:
    """Reference costs of given strategies at frequencies f."""

    def __init__(self, ins, trips, share, f):
        from vf.ref import cycle_time, initial_access, line_time, mode_lengths
        modes, ref, px, routes = ins.modes, ins.city.ref, ins.pax, ins.net.routes
        W = self.W = Flows(ins.x, f, trips)
        self.z, self.v, self.load = W.per_vehicle()
        self.k = {q.id: max([n for key, n in self.load.items() if key[0] == q.id] or [0.0]) for q in routes}
        self.line = {q.id: line_time(ref, q, modes[q.m]) for q in routes}
        self.tc = {q.id: cycle_time(self.line[q.id], q, modes[q.m], self.z, self.v) for q in routes}
        self.op = {q.id: (modes[q.m].co + modes[q.m].c1 * self.k[q.id]) * f[q.id] * self.tc[q.id] for q in routes}
        self.CO = sum(self.op.values())
        self.lengths = mode_lengths(ref, routes, modes, f)
        self.CI = sum(modes[m].c2 * n for m, n in self.lengths.items())
        width = {c: nd.width for c, nd in ref.nodes.items()}
        self.ta = initial_access(trips, share, modes, width, px.va) + W.access_extra
        self.te = W.wait
        self.tv = W.ride_h + W.dwell_hours(self.z, self.v)
        self.t = W.transfers
        self.CU = self.ta * px.spa + self.te * px.spw + self.tv * px.spv + self.t * px.spt / 60 * px.spv
        self.vrc = self.CO + self.CI + self.CU
