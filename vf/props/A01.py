from vf import gen
from vf.common import close, fail, req_close, require
from vf.ref import shares
from vf.xobs import XObs

CASES = {"quick": 20000, "thorough": 200000}
RULE = ("splits of up to 12 origin-destination pairs per case, either with arbitrary labels (ties, indifference distance exactly on a line's position or on half the "
        "width, one or two stops) or with the labels of a generated network; every share compared with the indifference rule; distinct by labels, lines and widths; "
        "non-trivial: some pair has two start stops")
MUST_SEE = ["pairs", "one_stop", "two_stops", "equal_labels", "on_a_position", "split", "all_central", "all_other", "odd_lines", "even_lines", "two_single_lines", "real"]


def check(cx, l, md, got, p, vp, pa, pv, where):
    """l: labels of the stops, md: their lines, got: their shares, in one order."""
    cx.count("pairs")
    for g in got:
        require(-1e-9 <= g <= 100 + 1e-9, "share outside 0..100", shares=got, labels=l, lines=md, width=p, **where)
    req_close(sum(got), 100, "shares do not add up to 100", 1e-9, shares=got, labels=l, lines=md, width=p, walking=vp, value=pa / pv, **where)
    if len(l) == 1:
        cx.count("one_stop")
        return
    cx.count("two_stops")
    if md[0] == 1 and md[1] == 1:
        cx.count("two_single_lines")
        opts = [x for x in shares(l[0], l[1], 1, p, vp, pa, pv)] + [x[::-1] for x in shares(l[1], l[0], 1, p, vp, pa, pv)]
        g = tuple(got)
    else:
        c = 0 if md[0] == 1 else 1
        g = (got[c], got[1 - c])
        cx.count("odd_lines" if md[1 - c] % 2 else "even_lines")
        opts = shares(l[c], l[1 - c], md[1 - c], p, vp, pa, pv)
    if not any(close(g[0], w[0], 1e-6, 1e-5) and close(g[1], w[1], 1e-6, 1e-5) for w in opts):
        fail("shares differ from the indifference rule", got=g, expected=sorted(set(opts)), labels=l, lines=md, width=p, walking=vp, value=pa / pv, **where)
    cx.count("split" if 1e-9 < g[0] < 100 - 1e-9 else "all_central" if g[0] > 50 else "all_other")


def synthetic(cx):
    from collections import defaultdict
    from sidermit.optimization.preoptimization import Assignment, CityNode, StopNode
    r = cx.rng
    city = gen.make_city(r, 1, 3)
    nodes = list(city.graph.get_nodes())
    exact = r.random() < 0.5
    if exact:
        vp, pv = r.choice([1, 2, 4, 4.0]), r.choice([1.0, 2.0, 2.5])
        pa = pv * r.choice([0.5, 1, 2, 4])
        p = r.choice([0.5, 1, 2, 4, 3.0, 16, 64])
    else:
        px = gen.gen_pax(r)
        vp, pa, pv, p = px.va, px.pa, px.pv, r.uniform(0.1, 4) if r.random() < 0.9 else 10 ** r.uniform(-3, 3)
    ds = r.choice([[1], [3], [1, r.randint(2, 9)], [1, r.randint(2, 9)], [1, r.randint(10, 40)], [1, 2], [1, 4], [1, 1], [1, 3]])
    modes = [gen.lib_mode(gen.gen_mode(r, "m%d" % i, d)) for i, d in enumerate(ds)]
    cities = [CityNode(i, nd) for i, nd in enumerate(nodes)]
    stops = {c: [StopNode(10 * i + j, m, c) for j, m in enumerate(modes)] for i, c in enumerate(cities)}
    H = defaultdict(lambda: defaultdict(lambda: defaultdict(list)))
    L = defaultdict(lambda: defaultdict(lambda: defaultdict(float)))
    cases = []
    scale = p * (pa / pv) / vp
    for _ in range(r.randint(1, 12)):
        o, d = r.sample(cities, 2)
        if d in H[o]:
            continue
        use = [s for s in stops[o] if r.random() < 0.9] or [stops[o][0]]
        r.shuffle(use)
        base = r.choice([0.5, 1.0, 2.0, 0.25]) if exact else r.uniform(0.05, 3)
        ls = [base] * len(use)
        if len(use) == 2:
            k = r.random()
            if k < 0.15:
                cx.count("equal_labels")
            elif k < 0.55 and exact or k < 0.25:
                d2 = max(s.mode.d for s in use)
                pos = r.choice([(i + 0.5) / d2 for i in range(max(1, d2 // 2 + 1))] + [0.5])     # as a fraction of the width
                ls[r.randrange(2)] = base + pos * scale
                cx.count("on_a_position")
            else:
                ls[r.randrange(2)] = base + r.uniform(0, 0.8) * scale * r.choice([0.1, 1])
        for s, v in zip(use, ls):
            H[o][d][s] = [[o, s, d]]
            L[o][d][s] = v
        cases.append((o, d, use, ls))
    kw = r.random() < 0.5
    A = Assignment.get_assignment(hyperpaths=H, labels=L, p=p, vp=vp, spa=pa, spv=pv) if kw else Assignment.get_assignment(H, L, p, vp, pa, pv)
    cx.desc = {"width": p, "walking": vp, "pa": pa, "pv": pv, "lines": ds, "labels": [c[3] for c in cases]}
    cx.shape("synthetic", ds, p, vp, pa, pv, [c[3] for c in cases])
    cx.nontrivial = any(len(c[2]) == 2 for c in cases)
    for o, d, use, ls in cases:
        t = A[o][d]
        extra = [s for s in t if s not in use and t[s]]
        require(not extra, "a stop without a path gets passengers")
        check(cx, ls, [s.mode.d for s in use], [t.get(s, 0) for s in use], p, vp, pa, pv, {"pair": (int(o.graph_node.id), int(d.graph_node.id))})
    got = {(o, d) for o in A for d in A[o]}
    require(got == {(o, d) for o, d, _, _ in cases}, "split covers other pairs than the demanded ones")


def real(cx):
    from sidermit.optimization.preoptimization import Assignment, ExtendedGraph, Hyperpath
    r = cx.rng
    ins = gen.make_instance(r, 1, 4, max_routes=8, kmodes=2, full_demand=0.05)
    pax = ins.pax
    p = r.uniform(0.05, 4) if r.random() < 0.9 else 10 ** r.uniform(-2, 2)
    cx.desc = dict(gen.describe(ins), width=p)
    cx.shape("real", repr([q.spec() for q in ins.net.routes]), repr(sorted(ins.f.items(), key=str)), p)
    xg = ExtendedGraph(ins.city.graph, list(ins.net.net.get_routes()), pax.pt, gen.ddict(ins.f))
    obs = XObs(xg, ins.net.mode_objs, ins.net.routes)
    H, L, S, F, V = Hyperpath(xg, gen.lib_pax(pax)).get_all_hyperpaths(ins.demand.get_matrix())
    A = Assignment.get_assignment(H, L, p, pax.va, pax.pa, pax.pv)
    cx.nontrivial = False
    for (o, d) in ins.trips:
        co, cd = obs.node[("C", o)], obs.node[("C", d)]
        use = [s for s in H[co][cd] if len(H[co][cd][s])]
        t = A[co][cd]
        require(not [s for s in t if s not in use and t[s]], "a stop without a path gets passengers", pair=(o, d))
        check(cx, [L[co][cd][s] for s in use], [s.mode.d for s in use], [t.get(s, 0) for s in use], p, pax.va, pax.pa, pax.pv, {"pair": (o, d)})
        cx.nontrivial |= len(use) == 2
        cx.count("real")


def case(cx):
    if cx.rng.random() < 0.8:
        synthetic(cx)
    else:
        real(cx)
