from collections import Counter

from vf import gen
from vf.cityobs import expect_refusal, snapshot
from vf.common import close, fail, require
from vf.ref import INF, RefX
from vf.xobs import XObs

CASES = {"quick": 4500, "thorough": 45000}
RULE = ("all strategies of a demanded instance: successors of every extended node checked against the optimality equations, elementary paths against their own "
        "unfolding, coverage against the demand; plus refusals (unserved or disconnected pair, trips from a place to itself, invalid modes) asked repeatedly; "
        "distinct by city ids, routes, frequencies and trips; non-trivial: a demanded pair was answered or refused")
MUST_SEE = ["strategies", "stop_boards", "stop_transfers", "paths", "covered_pairs", "common_lines", "refused_unserved", "refused_disconnected", "refused_modes",
            "refused_self", "asked_again"]
MAXPATHS = 4000


def check_strategy(cx, x, obs, V, o, d, pax, suc, lab, fq):
    wa = pax.pa / pax.pv
    scale = max([v for v in V.values() if v < INF] + [1e-9])
    eps = 1e-8 * scale + 1e-11
    out = {}
    for k in V:
        nd = obs.node[k]
        es = list(suc[nd])
        require(all(e.nodei is nd for e in es), "a successor starts at another node", node=k)
        tgt = [obs.key[e.nodej] for e in es]
        require(len(set(tgt)) == len(tgt), "the same successor twice", node=k, successors=tgt)
        if k == ("C", d) or k == ("C", o):
            require(not tgt, "origin or destination city node has successors", node=k, successors=tgt)
            out[k] = []
            continue
        if V[k] == INF:
            require(not tgt, "a node that cannot reach the destination has successors", node=k, successors=tgt)
            out[k] = []
            continue
        require(tgt, "a node that can reach the destination has no successor", node=k, label=V[k], origin=o, destination=d)
        if k[0] == "S":
            L = x.board_label(k, V, pax)
            A = (x.modes[k[2]].tat / 60.0 * wa + V[("C", k[1])]) if k[1] != o else INF
            if tgt[0][0] == "R":
                require(L <= A + eps, "a stop boards although a transfer is faster", node=k, board=L, transfer=A)
                lines = {rk: f for rk, f in x.board[k]}
                require(set(tgt) <= set(lines), "a stop boards a line that does not serve it", node=k, successors=tgt)
                must = {rk for rk, f in lines.items() if f > 0 and V[rk] < L - eps}
                may = {rk for rk, f in lines.items() if f > 0 and V[rk] <= L + eps}
                require(must <= set(tgt), "an attractive line is not boarded", node=k, missing=sorted(map(str, must - set(tgt))), label=L)
                require(set(tgt) <= may, "an unattractive line is boarded", node=k, extra=sorted(map(str, set(tgt) - may)), label=L)
                require(close(fq[nd], sum(lines[t] for t in tgt), 1e-9, 1e-12), "frequency at a stop is not the sum over its attractive lines", node=k,
                        got=fq[nd], expected=sum(lines[t] for t in tgt))
                cx.count("stop_boards")
                cx.count("common_lines", len(tgt) > 1)
            else:
                require(A <= L + eps, "a stop transfers although boarding is faster", node=k, board=L, transfer=A)
                require(tgt == [("C", k[1])], "a stop transfers elsewhere than to its city node", node=k, successors=tgt)
                cx.count("stop_transfers")
        else:
            require(len(tgt) == 1, "a city or route node has several successors", node=k, successors=tgt)
            t = tgt[0]
            if k[0] == "C":
                require(t[0] == "S" and t[1] == k[1], "a city node is left elsewhere than to its stops", node=k, successor=t)
                c = x.modes[t[2]].tat / 60.0 * wa
            elif t[0] == "S":
                require(x.alight.get(k) == t, "alighting at another stop", node=k, successor=t)
                c = 0.0 if t[1] == d else x.TP / 60.0
            else:
                require(k in x.ride and x.ride[k][0] == t, "riding to another node than the next stop", node=k, successor=t)
                c = x.ride[k][1]
            require(c + V[t] <= V[k] + eps, "the successor does not realise the label", node=k, successor=t, got=c + V[t], label=V[k])
        out[k] = tgt
        cx.count("strategies")
    return out


def unfold(succ, start, dest):
    """All paths start..dest following succ; None if too many."""
    paths, work = [], [(start,)]
    while work:
        p = work.pop()
        if p[-1] == dest:
            paths.append(p)
            continue
        for k in succ[p[-1]]:
            require(k not in p, "a strategy returns to a node", path=p, node=k)
            work.append(p + (k,))
        if len(paths) + len(work) > MAXPATHS:
            return None
    return paths


def refusal_case(cx):
    from sidermit.city import Demand
    from sidermit.optimization.preoptimization import ExtendedGraph, Hyperpath
    r = cx.rng
    kind = r.choice(["unserved", "disconnected", "self", "modes"])
    for _ in range(300):
        city = gen.make_city(r, 2, 4)
        modes = gen.gen_modes(r)
        nt = gen.make_net(r, city, modes, max_routes=r.choice([1, 2, 3, 8]))
        if not nt.routes:
            continue
        f = gen.gen_freq(r, nt.routes, zeros=0.3)
        pax = gen.gen_pax(r)
        x = RefX(city.ref, modes, nt.routes, f, pax.pt)
        served = {k[1] for k in x.cities}
        ok = [(a, b) for a in served for b in x.reachable(a) if a != b]
        if kind == "unserved":
            bad = [(a, b) for a in city.ref.order for b in city.ref.order if a != b and (a not in served or b not in served)]
        elif kind == "disconnected":
            bad = [(a, b) for a in served for b in served if a != b and b not in x.reachable(a)]
        else:
            bad = [(a, a) for a in city.ref.order]
        if kind == "modes":
            bad = [None]
        if bad and (kind != "modes" or ok):
            break
    else:
        cx.nontrivial = False
        return
    libs = list(nt.net.get_routes())
    if kind == "modes":
        # routes handed to the extended graph directly, so that an invalid set of modes reaches the strategy step
        how = r.choice(["three", "no_single"])
        # of three or more modes one may well be single; of two, none is
        ds = [r.choice([1, 1, 2, 3, r.randint(2, 9)]) for _ in range(r.choice([3, 3, 3, 4]))] if how == "three" else [r.randint(2, 5), r.randint(2, 9)]
        extra = [gen.gen_mode(r, "x%d" % (i + 1), v) for i, v in enumerate(ds)]
        from sidermit.publictransportsystem import TransportNetwork
        net2 = TransportNetwork(city.graph)
        if how == "three":
            libs = [y for m in extra for y in net2.get_radial_routes(gen.lib_mode(m))]
        else:
            libs = [y for m in extra for y in net2.get_radial_routes(gen.lib_mode(m))]
        r.shuffle(libs)
        f = {y.id: 10.0 for y in libs}
        ok = [(city.ref.zones[0][0], city.ref.cbd)]
    dem = Demand(city.graph)
    trips = {}
    for o, d in r.sample(sorted(ok), min(len(ok), r.randint(0, 3)) if kind != "modes" else 1):
        trips[(o, d)] = 10.0
    if kind != "modes":
        o, d = r.choice(sorted(bad))
        trips[(o, d)] = gen.num(r, 0.5, 100) if r.random() < 0.6 else 10 ** r.uniform(-12, -0.3) if r.random() < 0.7 else 10 ** r.uniform(2, 7)
    for (a, b), v in trips.items():
        dem.change_vij(a, b, v)
    cx.desc = {"kind": kind, "city": city.desc, "routes": [y.id for y in libs], "trips": {str(k): v for k, v in trips.items()}}
    cx.shape(kind, tuple(city.ref.order), [y.id for y in libs], repr(sorted(trips.items())))
    xg = ExtendedGraph(city.graph, libs, pax.pt, gen.ddict(f))
    hp = Hyperpath(xg, gen.lib_pax(pax))
    before = dict((k, dict(v)) for k, v in dem.get_matrix().items())
    for i in range(3):
        fn = hp.get_all_hyperpaths if r.random() < 0.6 else hp.network_validator
        expect_refusal(lambda: fn(dem.get_matrix()), "a demand that cannot be served (%s), asked for the %d. time" % (kind, i + 1), trips=trips)
        cx.count("refused_" + kind)
        cx.count("asked_again", i > 0)
    require(dict((k, dict(v)) for k, v in dem.get_matrix().items()) == before, "a refused query changed the demand")
    if kind != "modes" and ok:
        # the served pairs are still answered afterwards
        o, d = r.choice(sorted(ok))
        d2 = Demand(city.graph)
        d2.change_vij(o, d, 5)
        hp.get_all_hyperpaths(d2.get_matrix())


def case(cx):
    from sidermit.optimization.preoptimization import ExtendedGraph, Hyperpath
    r = cx.rng
    if r.random() < 0.3:
        refusal_case(cx)
        return
    ins = gen.make_instance(r, 1, 4, max_routes=9, zeros=r.choice([0, 0.1, 0.3]))
    x, pax, city = ins.x, ins.pax, ins.city
    cx.desc = gen.describe(ins)
    cx.shape(tuple(city.ref.order), repr([q.spec() for q in ins.net.routes]), repr(sorted(ins.f.items(), key=str)), repr(sorted(ins.trips.items())))
    xg = ExtendedGraph(city.graph, list(ins.net.net.get_routes()), pax.pt, gen.ddict(ins.f))
    hp = Hyperpath(xg, gen.lib_pax(pax))
    obs = XObs(xg, ins.net.mode_objs, ins.net.routes)
    m = ins.demand.get_matrix()
    before = {a: dict(m[a]) for a in m}
    if r.random() < 0.3:
        require(hp.network_validator(m) is True, "a valid demand is reported invalid")
    for again in range(1 + (r.random() < 0.3)):
        H, L, S, F, Vij = hp.get_all_hyperpaths(m)
        require({a: dict(m[a]) for a in m} == before, "computing strategies changed the demand")
        got = {(obs.key[o][1], obs.key[d][1]): Vij[o][d] for o in Vij for d in Vij[o]}
        require(got == ins.trips, "covered pairs differ from the demanded ones", got=sorted(got.items()), expected=sorted(ins.trips.items()))
        for name, T in (("hyperpaths", H), ("labels", L), ("successors", S), ("frequencies", F)):
            g = {(obs.key[o][1], obs.key[d][1]) for o in T for d in T[o] if len(T[o][d])}
            require(g == set(ins.trips), "%s do not cover exactly the demanded pairs" % name, got=sorted(g), expected=sorted(ins.trips))
        for (o, d) in ins.trips:
            co, cd = obs.node[("C", o)], obs.node[("C", d)]
            V = x.labels(o, d, pax)
            wa = pax.pa / pax.pv
            for k, v in V.items():
                if k[0] == "S" and k[1] == o:
                    v = v + x.modes[k[2]].tat / 60.0 * wa
                require(close(L[co][cd][obs.node[k]], v, 1e-8, 1e-10), "label of a demanded pair is wrong", node=k, got=L[co][cd][obs.node[k]], expected=v)
            succ = check_strategy(cx, x, obs, V, o, d, pax, S[co][cd], L[co][cd], F[co][cd])
            H2, L2, S2, F2 = hp.get_hyperpath_OD(co, cd)
            for k in V:
                require(L2[obs.node[k]] == L[co][cd][obs.node[k]], "single-pair query gives another label", node=k)
            starts = [k for k in V if k[0] == "S" and k[1] == o]
            for table, nm in ((H[co][cd], "all pairs"), (H2, "one pair")):
                gk = {obs.key[s] for s in table if len(table[s])}
                wk = {k for k in starts if V[k] < INF}
                require(gk == wk, "elementary paths given for the wrong start stops (%s)" % nm, got=sorted(map(str, gk)), expected=sorted(map(str, wk)))
                for k in wk:
                    want = unfold(succ, k, ("C", d))
                    paths = [tuple(obs.key[n] for n in p) for p in table[obs.node[k]]]
                    for p in paths:
                        require(p[0] == ("C", o) and p[1] == k and p[-1] == ("C", d), "a path does not lead from origin through its stop to the destination", path=p)
                        require(len(set(p)) == len(p), "a path repeats a node", path=p)
                        for a, b in zip(p[1:], p[2:]):
                            require(b in succ[a], "a path uses a link that is no successor", path=p, link=(a, b))
                    cx.count("paths", len(paths))
                    require(len(set(paths)) == len(paths), "the same path twice", origin=o, destination=d)
                    if want is not None:
                        require(set(paths) == {(("C", o),) + p for p in want}, "paths are not all unfoldings of the strategy (%s)" % nm, start=k,
                                got=len(paths), expected=len(want))
            cx.count("covered_pairs")
        if again:
            cx.count("asked_again")
