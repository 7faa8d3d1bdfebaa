import contextlib
import os

from vf import gen
from vf.cityobs import expect_refusal, snapshot
from vf.common import close, fail, require
from vf.netobs import mode_value, net_value

CASES = {"quick": 550, "thorough": 5500}
RULE = ("sequences of 2-5 saved plots of up to two cities and networks in one process (whole network, chosen routes, one direction, no route, unknown route, city only); "
        "the circles, labels and links present in each saved figure are read from the figure at the moment it is saved and compared with the reference; plots of strategies likewise at the moment they are shown; distinct by ids, "
        "routes and plot requests; non-trivial: at least two plots")
MUST_SEE = ["city_plots", "network_plots", "links", "circles", "labels", "one_direction", "chosen_routes", "no_routes", "unknown_route", "after_another", "no_zones", "files",
            "express", "paths_differ", "equal_to_smaller_network", "strategy_plots"]


@contextlib.contextmanager
def recording():
    """Reads every figure at the moment it is written to a file."""
    from matplotlib.figure import Figure
    out, orig = [], Figure.savefig

    def savefig(self, fname, *a, **k):
        res = orig(self, fname, *a, **k)
        out.append((str(fname), read(self)))
        return res
    Figure.savefig = savefig
    try:
        yield out
    finally:
        Figure.savefig = orig


def read(fig):
    """{colour: [positions]}, [(label, position)], {colour: [(from, to)]} of all axes."""
    from matplotlib.collections import PathCollection
    from matplotlib.colors import to_hex
    from matplotlib.patches import FancyArrowPatch
    circles, labels, links = {}, [], {}
    for ax in fig.axes:
        for c in ax.collections:
            if isinstance(c, PathCollection):
                cols = [to_hex(x) for x in c.get_facecolor()]
                for i, p in enumerate(c.get_offsets()):
                    circles.setdefault(cols[i % len(cols)], []).append((float(p[0]), float(p[1])))
        for t in ax.texts:
            labels.append((t.get_text(), tuple(float(q) for q in t.get_position())))
        for p in ax.patches:
            if isinstance(p, FancyArrowPatch):
                a, b = p._posA_posB
                links.setdefault(to_hex(p.get_edgecolor()), []).append((tuple(map(float, a)), tuple(map(float, b))))
    return circles, labels, links


def check(cx, ref, seen, kinds, want_stops, want_links, what):
    """seen: what read() returned; kinds: colour by role, filled in and compared over the whole case."""
    circles, labels, links = seen

    def node(p, tag):
        hit = [i for i, nd in ref.nodes.items() if close(p[0], nd.x, 1e-9, 1e-9) and close(p[1], nd.y, 1e-9, 1e-9)]
        require(len(hit) == 1, "the plot shows %s where the city has no node" % tag, plot=what, position=p)
        return hit[0]
    got = {}
    for col, ps in circles.items():
        got[col] = frozenset(node(p, "a circle") for p in ps)
        cx.count("circles", len(ps))
    role = {"CBD": frozenset(i for i, nd in ref.nodes.items() if nd.kind == "CBD"), "P": frozenset(i for i, nd in ref.nodes.items() if nd.kind == "P"),
            "SC": frozenset(i for i, nd in ref.nodes.items() if nd.kind == "SC"), "stop": frozenset(want_stops)}
    role = {k: v for k, v in role.items() if v}
    require(sorted(map(sorted, got.values())) == sorted(map(sorted, role.values())), "the circles of a plot are not the nodes by kind and the stops", plot=what,
            got={k: sorted(v) for k, v in got.items()}, expected={k: sorted(v) for k, v in role.items()})
    for k, v in role.items():
        cols = {c for c in got if got[c] == v}
        kinds.setdefault(k, cols)
        kinds[k] = kinds[k] & cols
        require(kinds[k], "one kind of node is drawn in different colours", plot=what, kind=k)
    cx.count("labels", len(labels))
    require(sorted((t, node(p, "a label")) for t, p in labels) == sorted((str(i), i) for i in ref.nodes), "the labels of a plot are not the node ids, each at its node",
            plot=what, got=labels)
    gl = {}
    for col, ps in links.items():
        gl[col] = frozenset((node(a, "a link"), node(b, "a link")) for a, b in ps)
        cx.count("links", len(ps))
    wl = {k: frozenset(v) for k, v in want_links.items() if v}
    require(sorted(map(sorted, gl.values())) == sorted(map(sorted, wl.values())), "the links of a plot are not the streets and the paths of the chosen routes", plot=what,
            got={k: sorted(v) for k, v in gl.items()}, expected={k: sorted(v) for k, v in wl.items()})
    for k, v in wl.items():
        cols = {c for c in gl if gl[c] == v}
        kinds.setdefault(k, cols)
        kinds[k] = kinds[k] & cols
        require(kinds[k], "one kind of link is drawn in different colours", plot=what, kind=k)


def want(routes, direction, ref):
    stops, links = [], {"street": set(ref.streets)}
    for q in routes:
        for d, ns, ss in (("I", q.ni, q.si), ("R", q.nr, q.sr)):
            if direction in (None, d):
                stops += ss
                links.setdefault(d, set()).update(zip(ns, ns[1:]))
    return stops, links


def strategy_plots(cx):
    """Plots of strategies, shown instead of saved."""
    import matplotlib.pyplot as plt
    from sidermit.optimization.preoptimization import Hyperpath
    from vf.pipe import Pipe
    r = cx.rng
    ins = gen.make_instance(r, 1, 3, max_routes=5, zeros=0.1)
    nm = {i: nd.name for i, nd in ins.city.ref.nodes.items()}
    if len(set(nm.values())) < len(nm):
        cx.nontrivial = False
        return
    cx.desc = gen.describe(ins)
    cx.shape("strategy", tuple(ins.city.ref.order), repr([q.spec() for q in ins.net.routes]), repr(sorted(ins.trips)))
    P = Pipe(ins)
    name = {"C": lambda k: nm[k[1]], "S": lambda k: "%s - %s" % (ins.modes[k[2]].name, nm[k[1]]), "R": lambda k: "%s %s - %s" % (k[1], k[2], nm[k[3]])}
    if r.random() < 0.5:
        ins.net.net.plot(os.path.join(cx.tmp, "before.png"))
    for o, d in [(o, d) for o in P.H for d in P.H[o]][:2]:
        paths = [[P.obs.key[n] for n in p] for s in P.H[o][d] for p in P.H[o][d][s]]
        shown, orig = [], plt.show
        plt.show = lambda *a, **k: shown.append(read(plt.gcf()))
        try:
            Hyperpath.plot(P.H[o][d])
        finally:
            plt.show = orig
        require(len(shown) == 1, "plotting a strategy shows no figure", shown=len(shown))
        circles, labels, links = shown[0]
        at = {p: t for t, p in labels}
        require(len(at) == len(labels), "two labels of a strategy plot are at the same place", got=labels)
        keys = {k for p in paths for k in p}
        require(sorted(at.values()) == sorted(name[k[0]](k) for k in keys), "the labels of a strategy plot are not the nodes of its paths", got=sorted(at.values()))
        got = sorted(sorted(at[p] for p in set(ps)) for ps in circles.values())
        require(got == sorted(sorted(name[t](k) for k in keys if k[0] == t) for t in {k[0] for k in keys}), "the circles of a strategy plot are not its nodes by kind", got=got)
        gl = {(at[a], at[b]) for ps in links.values() for a, b in ps}
        wl = {(name[a[0]](a), name[b[0]](b)) for p in paths for a, b in zip(p, p[1:])}
        require(gl == wl, "the links of a strategy plot are not those of its paths", missing=sorted(wl - gl), extra=sorted(gl - wl))
        cx.count("strategy_plots")
    plt.close("all")


def case(cx):
    if cx.rng.random() < 0.15:
        import matplotlib.pyplot as plt
        plt.close("all")
        strategy_plots(cx)
    else:
        saved_plots(cx)


def saved_plots(cx):
    import matplotlib.pyplot as plt
    from sidermit.publictransportsystem import TransportNetwork
    r = cx.rng
    plt.close("all")                      # figures of earlier cases of this process
    worlds = []
    for _ in range(r.choice([1, 1, 2])):
        city = gen.make_city(r, r.choice([0, 1, 1, 1]), 4, generic=True)
        nt = gen.make_net(r, city, gen.gen_modes(r), max_routes=7) if city.ref.n else None
        worlds.append((city, nt))
    cx.desc = {"worlds": [(c.desc, [q.spec() for q in n.routes] if n else None) for c, n in worlds], "plots": []}
    cx.shape(repr([(tuple(c.ref.order), [q.spec() for q in n.routes] if n else None) for c, n in worlds]))
    done, kinds = 0, {}
    for step in range(r.choice([2, 2, 3, 4, 5])):
        city, nt = r.choice(worlds)
        ref = city.ref
        pos = [(round(nd.x, 6), round(nd.y, 6)) for nd in ref.nodes.values()]
        if len(set(pos)) < len(pos):
            cx.count("coincident_nodes")
            continue
        path = os.path.join(cx.tmp, "plot%d.%s" % (step, r.choice(["png", "png", "svg"])))
        if os.path.exists(path):
            os.remove(path)
        c0 = snapshot(city.graph)
        n0 = net_value(nt.net) if nt else None
        m0 = [mode_value(m) for m in nt.mode_objs] if nt else None
        with recording() as rec:
            if nt is None or r.random() < 0.3:
                cx.shape("city")
                cx.desc["plots"].append("city")
                city.graph.plot(path)
                stops, links, what = [], {"street": set(ref.streets)}, "city"
                cx.count("city_plots")
                cx.count("no_zones", ref.n == 0)
            else:
                direction = r.choice([None, None, "I", "R"])
                k = r.random()
                if k < 0.3:
                    ids, chosen = None, nt.routes
                elif k < 0.4:
                    ids, chosen = [], []
                    cx.count("no_routes")
                else:
                    chosen = r.sample(nt.routes, r.randint(1, len(nt.routes)))
                    ids = [q.id for q in chosen]
                    cx.count("chosen_routes")
                what = "network, routes %s, direction %s" % (ids, direction)
                cx.shape(what)
                cx.desc["plots"].append(what)
                if ids is not None and r.random() < 0.2:
                    bad = ids + ["no such route"]
                    r.shuffle(bad)
                    expect_refusal(lambda: nt.net.plot(path, bad, direction), "plotting an unknown route", routes=bad)
                    require(not os.path.exists(path), "a refused plot left a file")
                    cx.count("unknown_route")
                arg = list(ids) if ids is not None else None
                if arg is None and r.random() < 0.5 and direction is None:
                    nt.net.plot(path)
                elif direction is None and r.random() < 0.5:
                    nt.net.plot(path, arg)
                else:
                    nt.net.plot(path, list_routes=arg, direction=direction)
                require(arg == ids, "plotting changed the list of routes it was given", got=arg, expected=ids)
                stops, links = want(chosen, direction, ref)
                cx.count("network_plots")
                cx.count("one_direction", direction is not None)
                cx.count("express", any(q.si != q.ni for q in chosen))
                cx.count("paths_differ", any(q.nr != q.ni[::-1] for q in chosen))
                if ids and r.random() < 0.3:
                    net2 = TransportNetwork(city.graph)
                    for i in ids:
                        net2.add_route(nt.net.get_route(i))
                    net2.plot(path, None, direction)
                    cx.count("equal_to_smaller_network")
        require(os.path.exists(path) and os.path.getsize(path) > 200, "plotting left no picture", plot=what)
        with open(path, "rb") as fh:
            head = fh.read(200)
        require(head.startswith(b"\x89PNG") if path.endswith("png") else b"<?xml" in head, "the saved picture has another format", plot=what, head=repr(head[:20]))
        require(len(rec) >= 1 and all(p == path for p, _ in rec), "the figure was not saved at the given path", plot=what, saved=[p for p, _ in rec])
        cx.count("files")
        for _, seen in rec:
            check(cx, ref, seen, kinds, stops, links, what)
        if len(rec) == 2:
            require(rec[0][1][1] == rec[1][1][1] and {k: set(v) for k, v in rec[0][1][2].items()} == {k: set(v) for k, v in rec[1][1][2].items()},
                    "choosing routes gives another plot than a network of just these routes", plot=what)
        require(snapshot(city.graph) == c0, "plotting changed the city")
        if nt:
            require(net_value(nt.net) == n0 and [mode_value(m) for m in nt.mode_objs] == m0, "plotting changed the network")
        done += 1
        cx.count("after_another", done > 1)
    cx.nontrivial = done > 1
