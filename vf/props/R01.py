import re
from collections import Counter

from vf import gen
from vf.common import close, fail, require
from vf.pipe import Pipe

CASES = {"quick": 5000, "thorough": 50000}
RULE = ("printed strategies (one pair, whole graph, all pairs), extended graph and boarding tables of generated instances with arbitrary names, parsed back line by line and "
        "compared with the data they were given; printed solver and optimisation results; distinct by routes, frequencies, trips; non-trivial: at least one path printed")
MUST_SEE = ["graph_blocks", "successors_printed", "unreachable_printed", "paths_printed", "path_nodes", "pairs_printed", "boardings_printed", "alightings_printed",
            "extended_stops", "extended_routes", "first_stops", "solver_text", "result_text", "two_directions", "two_modes"]


def near(text, x, dec):
    try:
        v = float(text)
    except ValueError:
        return False
    if x in (float("inf"), float("-inf")):
        return v == x
    return abs(v - x) <= 0.500001 * 10 ** -dec + 1e-9 * abs(x)


def same_multiset(got, want, dec, what, **detail):
    """got/want: [(identity, [numbers as text], [numbers])] compared per identity."""
    def group(rows):
        out = {}
        for ident, nums in rows:
            out.setdefault(ident, []).append(nums)
        return out
    g, w = group(got), group(want)
    require({k: len(v) for k, v in g.items()} == {k: len(v) for k, v in w.items()}, what + ": the printed entries are not those of the data",
            missing=[k for k in w if len(w[k]) != len(g.get(k, []))][:4], extra=[k for k in g if len(g[k]) != len(w.get(k, []))][:4], **detail)
    for k in w:
        rows = g[k]
        ok = [[j for j, x in enumerate(w[k]) if len(x) == len(nums) and all(near(a, b, dec) for a, b in zip(nums, x))] for nums in rows]
        taken = {}                                          # entries of one identity: a matching of printed rows and data
        for i in range(len(rows)):
            prev, queue, end = {}, [i], None
            while queue and end is None:
                a = queue.pop()
                for j in ok[a]:
                    if j not in prev:
                        prev[j] = a
                        if j not in taken:
                            end = j
                            break
                        queue.append(taken[j])
            require(end is not None, what + ": a printed number differs from the data", entry=k, got=rows[i], expected=w[k], **detail)
            while True:
                a = prev[end]
                back = next((j for j, b in taken.items() if b == a), None)
                taken[end] = a
                if a == i:
                    break
                del taken[back]
                end = back


def names(obs, ins):
    nm = {i: nd.name for i, nd in ins.city.ref.nodes.items()}
    return {"node": nm, "mode": [m.name for m in ins.modes]}


def short(k, N):
    if k[0] == "C":
        return "Citynode: %s" % N["node"][k[1]]
    if k[0] == "S":
        return "Stopnode %s: %s" % (N["mode"][k[2]], N["node"][k[1]])
    return "Routenode %s %s: %s" % (k[1], k[2], N["node"][k[3]])


def check_graph_text(cx, P, N, text, S, L, F):
    obs = P.obs
    require(text.startswith("HyperPath Graph\n"), "printed strategy graph has no title", text=text[:100])
    got = []
    block = None
    for ln in text.split("\n")[1:]:
        if ln in ("City_node", "Stop_node", "Route_node"):
            block = [ln, {}]
            got.append(block)
        elif ln.strip():
            m = re.match(r"\t-([A-Za-z_]+): (.*)$", ln)
            require(m and block is not None, "a printed line belongs to no node", line=ln)
            block[1][m.group(1)] = m.group(2)
    rows, want = [], []
    for kind, d in got:
        need = {"City_node": ("Graph_node_name",), "Stop_node": ("Mode_name", "Graph_node_name"), "Route_node": ("route_id", "direction", "Graph_node_name")}[kind]
        require(set(d) == set(need) | {"label", "Successor", "Frequencies"}, "a printed node has other fields", got=sorted(d), kind=kind)
        suc = tuple(sorted(re.findall(r"\[(.*?)\] ", d["Successor"] + " ")))
        require(len(re.findall(r"\[", d["Successor"])) == len(suc), "printed successors are malformed", got=d["Successor"])
        rows.append(((kind, tuple(d[x] for x in need), suc), [d["label"], d["Frequencies"]]))
    for nd, k in obs.key.items():
        ident = {"C": lambda: (N["node"][k[1]],), "S": lambda: (N["mode"][k[2]], N["node"][k[1]]), "R": lambda: (str(k[1]), k[2], N["node"][k[3]])}[k[0]]()
        kind = {"C": "City_node", "S": "Stop_node", "R": "Route_node"}[k[0]]
        suc = tuple(sorted("%s: %s - %s" % (e.type, short(obs.key[e.nodei], N), short(obs.key[e.nodej], N)) for e in S.get(nd, [])))
        want.append(((kind, ident, suc), [L[nd], F[nd]]))
        cx.count("successors_printed", len(suc))
        cx.count("unreachable_printed", L[nd] == float("inf"))
    cx.count("graph_blocks", len(rows))
    same_multiset(rows, want, 2, "printed strategy graph")


def check_paths_text(cx, P, N, text, H, L):
    obs = P.obs
    cur, got = None, []
    for ln in text.split("\n"):
        s = ln.strip()
        if not s:
            continue
        if s == "New Path:":
            require(cur is not None, "a printed path belongs to no stop")
            got.append([cur, []])
        elif s.startswith("[") and s.endswith("]"):
            require(got and got[-1][0] == cur, "a printed node belongs to no path", line=ln)
            a, b = s[1:-1].rsplit(": ", 1)
            got[-1][1].append((a, b))
        else:
            require(s.endswith(" stop"), "unexpected printed line", line=ln)
            cur = s[:-5]
    rows = [((mode, tuple(a for a, _ in p)), [b for _, b in p]) for mode, p in got]
    want = []
    for stop in H:
        for path in H[stop]:
            ident, nums = [], []
            for nd in path:
                k = obs.key[nd]
                ident.append({"C": lambda: "City_node %s" % N["node"][k[1]], "S": lambda: "Stop_node %s - %s" % (N["mode"][k[2]], N["node"][k[1]]),
                              "R": lambda: "Route_node %s %s - %s" % (k[1], k[2], N["node"][k[3]])}[k[0]]())
                nums.append(L[nd])
            want.append(((stop.mode.name, tuple(ident)), nums))
            cx.count("path_nodes", len(path))
    cx.count("paths_printed", len(rows))
    same_multiset(rows, want, 4, "printed paths")


def check_all_text(cx, P, N, text):
    obs, lines = P.obs, [x for x in text.split("\n") if x.strip()]
    require(len(lines) % 2 == 0, "printed summary is malformed", text=text[:300])
    rows, want = [], []
    for a, b in zip(lines[::2], lines[1::2]):
        m = re.match(r"origin: (.*), destination: (.*), vij: ([^,]*)$", a)
        n = re.match(r"\s*mode: (.*), label: (\S+) \[EIV\], n. elemental paths: (\d+), n. elemental paths \(successors\): (\d+)$", b)
        require(m and n, "printed summary is malformed", lines=(a, b))
        rows.append(((m.group(1), m.group(2), n.group(1), int(n.group(3)), int(n.group(4))), [m.group(3), n.group(2)]))
    for o in P.H:
        for d in P.H[o]:
            for s in P.H[o][d]:
                want.append(((o.graph_node.name, d.graph_node.name, s.mode.name, len(P.H[o][d][s]), len(P.S[o][d].get(s, []))), [P.V[o][d], P.L[o][d][s]]))
    cx.count("pairs_printed", len(rows))
    same_multiset(rows, want, 2, "printed summary of all pairs")


def check_boarding_text(cx, P, N, text, z, v):
    rows = {"Boarding": [], "Alighting": []}
    route = kind = direction = None
    seen = []
    for ln in text.split("\n"):
        s = ln.strip()
        if not s or s.startswith("Boarding and Alighting"):
            continue
        if s.startswith("New route: "):
            route, kind, direction = s[11:], None, None
            seen.append(route)
        elif s in ("Boarding:", "Alighting:"):
            kind = s[:-1]
        elif s.startswith("Direction: "):
            direction = s[11:]
        else:
            m = re.match(r"Stop (.*): (\S+)\[pax/veh\]$", s)
            require(m and route is not None and kind and direction, "unexpected printed line", line=ln)
            rows[kind].append(((route, direction, m.group(1)), [m.group(2)]))
    require(sorted(seen) == sorted(str(x) for x in z), "printed routes are not those with boardings", got=seen, expected=list(z))
    for kind, t, ev in (("Boarding", z, "boardings_printed"), ("Alighting", v, "alightings_printed")):
        want = [((str(a), d, "%s-%s" % (s.mode.name, s.city_node.graph_node.name)), [t[a][d][s]]) for a in t for d in t[a] for s in t[a][d]]
        same_multiset(rows[kind], want, 2, "printed " + kind.lower() + "s")
        cx.count(ev, len(want))


def check_extended_text(cx, P, N, text):
    """str(ExtendedGraph): per city node its stops, per stop its route visits with the links."""
    x, tree = P.ins.x, []
    for ln in text.split("\n"):
        if not ln.strip():
            continue
        depth, s = len(ln) - len(ln.lstrip("\t")), ln.strip()
        tree.append((depth, s))
    got, city, stop, node, pend = [], None, None, None, {}
    for depth, s in tree:
        if s in ("City node", "Stop node", "Route node", "Access edge", "Boarding edge", "Alighting edge"):
            ctx = s
            if s == "Route node":
                got.append([city, stop, pend, {}])
                pend = {}
            continue
        m = re.match(r"-([^:]+): (.*)$", s)
        require(m, "unexpected printed line", line=s)
        k, val = m.groups()
        if ctx == "City node":
            city, stop, access = val, None, None
        elif ctx == "Access edge":
            access = val.split()[0]
        elif ctx == "Stop node":
            require(access is not None, "a printed stop has no access link", line=s)
            stop = (val, access)
            access = None
        elif ctx in ("Boarding edge", "Alighting edge"):
            require(ctx not in pend, "a printed visit has two %ss" % ctx.lower(), line=s)
            pend[ctx] = val.split()[0]
        else:
            got[-1][3][k] = val
    rows, want = [], []
    for c, st, links, f in got:
        require(set(f) == {"Route_id", "Direction", "Previous stop", "Time to previous stop"}, "a printed visit has other fields", got=sorted(f))
        rows.append(((c, st[0], f["Route_id"], f["Direction"], f["Previous stop"], "Boarding edge" in links, "Alighting edge" in links),
                     [st[1], links.get("Boarding edge", "0"), links.get("Alighting edge", "0"), f["Time to previous stop"].split()[0]]))
    fr = {rk: q for sk in x.stops for rk, q in x.board[sk]}
    for rk in x.rnodes:
        pk = x.prev.get(rk)
        md = [q.m for q in P.ins.net.routes if q.id == rk[1]][0]
        if pk is None:
            cx.count("first_stops")
        want.append(((N["node"][rk[3]], N["mode"][md], str(rk[1]), rk[2], "no data" if pk is None else N["node"][pk[3]], rk in fr, rk in x.alight),
                     [x.modes[md].tat, fr.get(rk, 0.0), x.TP if rk in x.alight else 0.0, x.ride[pk][1] if pk is not None else 0.0]))
    cx.count("extended_routes", len(rows))
    cx.count("extended_stops", len({(r[0][0], r[0][1]) for r in rows}))
    same_multiset(rows, want, 2, "printed extended graph")


def check_solver_text(cx, r):
    import numpy as np
    from scipy.optimize import OptimizeResult
    from sidermit.optimization.optimizer import Optimizer
    vals = dict(success=r.random() < 0.5, status=r.choice([0, 1, 2, 3]), message=r.choice(["done", "limit: reached", "x"]), x=np.array([r.uniform(0, 90) for _ in range(r.randint(1, 4))]),
                constr_violation=r.uniform(0, 2), fun=r.uniform(1, 1e6))
    text = Optimizer.string_information_internal_optimization(OptimizeResult(**vals))
    got = dict(ln.strip().split(": ", 1) for ln in text.split("\n")[1:] if ": " in ln)
    for k, n in (("Success", "success"), ("Status", "status"), ("Message", "message"), ("Constrain violation", "constr_violation"), ("VRC", "fun")):
        require(got.get(k) == str(vals[n]), "printed outcome of the solver differs", field=k, got=got.get(k), expected=str(vals[n]))
    nums = re.findall(r"[-+0-9.e]+", got.get("new_f", ""))
    require(len(nums) == len(vals["x"]) and all(close(float(a), b, 1e-6, 1e-6) for a, b in zip(nums, vals["x"])), "printed frequencies of the solver differ", got=got.get("new_f"))
    cx.count("solver_text")


def check_result_text(cx, r, ins):
    from sidermit.optimization.optimizer import Optimizer
    opt = Optimizer(ins.city.graph, ins.demand, gen.lib_pax(ins.pax), ins.net.net, gen.ddict(dict(ins.f)))
    x = [gen.num(r, 0, 90) for _ in ins.net.routes]
    res = (x, r.random() < 0.5, r.choice([1, 2]), "some message", r.uniform(0, 1e-3), r.uniform(1, 1e6))
    text = opt.string_network_optimization(res)
    head, _, tail = text.partition("Frequency information")
    got = dict(ln.split(": ", 1) for ln in head.split("\n") if ": " in ln)
    for k, w in (("Success", res[1]), ("Status", res[2]), ("Message", res[3]), ("Max constrain violation", res[4]), ("VRC", res[5])):
        require(got.get(k) == str(w), "printed optimisation result differs", field=k, got=got.get(k), expected=str(w))
    rows = [(ln.strip().rsplit(": ", 1)[0], [ln.strip().rsplit(": ", 1)[1]]) for ln in tail.split("\n")[1:] if ln.strip()]
    same_multiset(rows, [(str(q.id), [v]) for q, v in zip(ins.net.routes, x)], 2, "printed optimisation result")
    cx.count("result_text")


def freeze(P):
    """The data reports are given, empty entries ignored."""
    k = P.obs.key
    return ({(k[o], k[d], k[s]): [tuple(k[n] for n in p) for p in P.H[o][d][s]] for o in P.H for d in P.H[o] for s in P.H[o][d]},
            {(k[o], k[d], k[n]): P.L[o][d][n] for o in P.L for d in P.L[o] for n in P.L[o][d]},
            {(k[o], k[d], k[n]): [e.id for e in P.S[o][d][n]] for o in P.S for d in P.S[o] for n in P.S[o][d] if P.S[o][d][n]},
            {(k[o], k[d]): P.V[o][d] for o in P.V for d in P.V[o]})


def case(cx):
    from sidermit.optimization.preoptimization import Assignment, Hyperpath
    r = cx.rng
    ins = gen.make_instance(r, 1, 4, max_routes=7, zeros=r.choice([0, 0.1, 0.3]))
    cx.desc = gen.describe(ins)
    cx.shape(tuple(ins.city.ref.order), repr([q.spec() for q in ins.net.routes]), repr(sorted(ins.f.items(), key=str)), repr(sorted(ins.trips.items())))
    P = Pipe(ins)
    N = {"node": {int(nd.id): nd.name for nd in ins.city.graph.get_nodes()}, "mode": [m.name for m in ins.modes]}
    hp = Hyperpath(P.xg, P.lib_pax)
    before = freeze(P)
    o, d = r.choice([(a, b) for a in P.H for b in P.H[a]])
    H2, L2, S2, F2 = hp.get_hyperpath_OD(o, d)
    check_graph_text(cx, P, N, hp.string_hyperpath_graph(S2, L2, F2), {k: list(x) for k, x in S2.items()}, dict(L2), {n: F2[n] for n in P.obs.key})
    check_paths_text(cx, P, N, hp.string_hyperpaths_OD(H2, L2), H2, L2)
    check_paths_text(cx, P, N, Hyperpath.string_hyperpaths_OD(P.H[o][d], P.L[o][d]), P.H[o][d], P.L[o][d])
    check_all_text(cx, P, N, hp.string_all_hyperpaths(P.H, P.L, P.S, P.V))
    cx.count("two_modes", len({s.mode.name for s in H2}) > 1)
    f = gen.ddict(ins.f)
    z, v, load = Assignment.get_alighting_and_boarding(P.V, P.H, P.S, P.A, f)
    zf = {a: {b: dict(z[a][b]) for b in z[a]} for a in z}
    vf = {a: {b: dict(v[a][b]) for b in v[a]} for a in v if v[a]}
    text = Assignment.str_boarding_alighting(z, v)
    check_boarding_text(cx, P, N, text, zf, vf)
    cx.count("two_directions", any(len(t) > 1 for t in zf.values()))
    require({a: {b: dict(z[a][b]) for b in z[a]} for a in z} == zf and {a: {b: dict(v[a][b]) for b in v[a]} for a in v if v[a]} == vf, "printing changed the boarding tables")
    check_extended_text(cx, P, N, str(P.xg))
    require(freeze(P) == before, "printing changed the strategies")
    if r.random() < 0.2:
        check_solver_text(cx, r)
    if r.random() < 0.15:
        check_result_text(cx, r, ins)
