import csv
import os

from vf import gen
from vf.cityobs import snapshot
from vf.common import require
from vf.netobs import mode_value, net_value, on_streets, seqs

gen.ROUTE_IDS = ["c%d_%d", "%d%d", "R_bus_%d_%d", " %d_%d", "%d_%d ", "%d;%d", 'q"%d"%d', "%d,%d", "línea %d·%d", "None%d%d", "%d.%d", "-%d%d", "0%d%d", "'%d'%d", "#%d %d", "%d\t%d",
                 "%d\n%d", "nan%d%d", "=%d+%d", "1e%d%d", "R %d  %d"]
CASES = {"quick": 15000, "thorough": 150000}
RULE = ("networks mixing predefined families (circular included) and custom routes of one or two modes, some routes removed again, saved, parsed with an "
        "independent reader, rebuilt and saved again; sequence texts converted both ways; distinct by ids and sequences of all routes; non-trivial: at least two routes")
MUST_SEE = ["files", "rows", "circular_rows", "custom_rows", "rebuilt", "texts", "after_removal", "empty_networks", "hundreds_of_lines"]
HEAD = ["route_id", "mode", "nodes_sequence_i", "nodes_sequence_r", "stops_sequence_i", "stops_sequence_r"]


def case(cx):
    from sidermit.publictransportsystem import Route, TransportNetwork
    from sidermit.publictransportsystem.network import RouteType
    r = cx.rng
    city = gen.make_city(r, 1, 6)
    modes = gen.gen_modes(r)
    if r.random() < 0.3:
        modes = [m._replace(name=nm) for m, nm in zip(modes, r.choice([["a;b", 'say "x"'], [" bus", "bus "], ["None", "nan"], ["0", "1.0"], ["a,b", "tranvía"], ["a", "A"], ["x\ny", "x y"], ["'", "#"], ["True", "-1"]]))]
    nt = gen.make_net(r, city, modes, max_routes=14)
    if r.random() < 0.01:                      # a network of more than a hundred lines
        for i in range(r.randint(100, 260)):
            rr = gen.custom_route(r, city.ref, "more%d" % i, r.choice([q.m for q in nt.routes]))
            if rr is not None:
                nt.net.add_route(gen.lib_route(rr, nt.mode_objs[rr.m]))
                nt.routes.append(rr)
        cx.count("hundreds_of_lines")
    net = nt.net
    if r.random() < 0.3 and len(nt.routes) > 1:
        k = r.randrange(len(nt.routes))
        net.remove_route(nt.routes[k].id)
        del nt.routes[k]
        cx.count("after_removal")
    cx.desc = {"city": city.desc, "routes": [q.spec() for q in nt.routes]}
    cx.shape(tuple(city.ref.order), repr([q.spec() for q in nt.routes]))
    cx.nontrivial = len(nt.routes) > 1
    v0, c0, m0 = net_value(net), snapshot(city.graph), [mode_value(m) for m in nt.mode_objs]

    def save(n, name):
        p = os.path.join(cx.tmp, name)
        n.routes_to_file(p)
        with open(p, newline="", encoding="utf-8") as fh:
            raw = fh.read()
        rows = list(csv.reader(raw.splitlines(True), delimiter=";"))
        cx.count("files")
        return raw, rows

    if r.random() < 0.03:
        raw, rows = save(TransportNetwork(city.graph), "empty.csv")
        require(rows == [HEAD], "the file of a network without routes is not just the header", got=raw[:200])
        cx.count("empty_networks")
    raw, rows = save(net, "routes.csv")
    require(net_value(net) == v0 and snapshot(city.graph) == c0 and [mode_value(m) for m in nt.mode_objs] == m0, "saving changed the network")
    require(rows and rows[0] == HEAD, "wrong header", got=rows[:1])
    require(len(rows) == len(nt.routes) + 1, "file does not have one row per route", rows=len(rows) - 1, routes=len(nt.routes))
    ints = lambda t: [int(x) for x in t.split(",")] if t else []
    net2 = TransportNetwork(city.graph)
    byname = {m.name: m for m in nt.mode_objs}
    for row, q in zip(rows[1:], nt.routes):
        require(len(row) == 6, "row has the wrong number of columns", row=row)
        require(row[0] == str(q.id) and row[1] == modes[q.m].name, "row has another route id or mode", row=row, id=q.id, mode=modes[q.m].name)
        require([ints(t) for t in row[2:]] == [q.ni, q.nr, q.si, q.sr], "row does not give back the route's sequences", row=row, route=q.spec())
        cx.count("rows")
        cx.count("circular_rows" if q.circular else "custom_rows")
        lib = Route(row[0], byname[row[1]], *row[2:], **({"_type": RouteType.CIRCULAR} if q.circular else {}))
        require(seqs(lib) == (q.ni, q.nr, q.si, q.sr), "rebuilding a route from its row changed the sequences", row=row, got=seqs(lib))
        net2.add_route(lib)
    raw2, _ = save(net2, "again.csv")
    require(raw2 == raw, "the rebuilt network is saved differently", first=raw[:800], second=raw2[:800])
    cx.count("rebuilt")
    lib = net.get_routes()[0] if nt.routes else None
    for _ in range(5):
        s = [r.choice([0, 1, 7, 11, 111, 10 ** 6, r.randint(0, 10 ** 9)]) for _ in range(r.randint(0, 9))]
        for q in (Route, lib):
            if q is not None:
                t = q.sequences_to_string(s)
                require(isinstance(t, str) and list(q.sequences_to_list(t)) == s, "sequence does not survive conversion to text", sequence=s, text=t)
                require(q.sequences_to_list(t + "\n" if s else t) == s, "sequence text with line end is read differently", sequence=s)
                cx.count("texts")
