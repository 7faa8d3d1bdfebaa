import contextlib
import csv
import json
import os
import pathlib
import resource
import subprocess
import sys
import zlib

from vf import gen
from vf.cityobs import snapshot
from vf.common import fail, require
from vf.netobs import net_value
from vf.optobs import optimised
from vf.runner import repo_path

gen.TINY = False         # the final point of an optimisation is rounded below 1/24

CASES = {"quick": 2400, "thorough": 24000}
CASE_CPU = 200
LOCALE_EVERY = 50
RULE = ("a city, demand, route table or optimisation report with plain and non-ASCII names saved several times in a row to fresh, existing (longer or shorter), linked, relative "
        "and pathlib paths, with faults in between (missing directory, directory as target, full device, file size limit at a random byte), reading what is missing; every 50th case "
        "saves and reads in a child process under an ASCII locale; distinct by object, circumstances and fault position; non-trivial: every case")
MUST_SEE = ["fresh", "longer_existing", "shorter_existing", "pathlike", "relative", "link", "missing_directory", "directory_target", "full_device", "size_limit",
            "fault_surfaced", "saved_after_fault", "missing_input", "non_ascii", "locale_children", "city", "demand", "routes", "results", "second_object"]
LETTERS = ["é", "ñ", "ü", "中", "Ж", "ø", "𝛼", "İ", "ß"]


def funny(r, s):
    return s + r.choice(LETTERS) if r.random() < 0.6 else s


def subject(cx, r, kind):
    """(save(path), observe(), expected text or None, loader(path) or None)"""
    if kind == "city":
        rows = gen.city_rows(r, 1, 5)
        rows = [nd._replace(name=funny(r, nd.name)) for nd in rows]
        cx.count("non_ascii", any(not nd.name.isascii() for nd in rows))
        from sidermit.city import Graph
        g = Graph.build_from_content(gen.rows_text(rows))
        back = lambda p: require(sorted(snapshot(Graph.build_from_file(p))[0]) == sorted(snapshot(g)[0]), "reading the saved city back gives other nodes")
        save = g.graph_to_pajek_file
        if r.random() < 0.4:
            from sidermit.city.graph import GraphContentFormat
            save = lambda p: g.graph_to_pajek_file(p, GraphContentFormat.PAJEK)
        return save, lambda: snapshot(g), g.export_graph(), back
    city = gen.make_city(r, 1, 4)
    if kind == "demand":
        from sidermit.city import Demand
        D = Demand.build_from_parameters(city.graph, gen.num(r, 1, 9999), r.random(), 0.5 * r.random(), 0.4 * r.random())
        for _ in range(r.randint(0, 4)):
            D.change_vij(r.choice(city.ref.order), r.choice(city.ref.order), gen.num(r, 0, 1e6))
        cells = lambda d: {(int(a), int(b)): q for a, row in d.get_matrix().items() for b, q in row.items()}
        back = lambda p: require(cells(Demand.build_from_file(city.graph, p)) == cells(D), "reading the saved demand back gives other trips")
        return D.matrix_to_file, lambda: (cells(D), D.get_total_trips()), None, back
    if kind == "routes":
        modes = [m._replace(name=funny(r, m.name)) for m in gen.gen_modes(r)]
        nt = gen.make_net(r, city, modes, max_routes=8)
        for i in range(2):
            q = gen.custom_route(r, city.ref, funny(r, "línea%d" % i), 0)
            if q is not None and any(x.m == 0 for x in nt.routes):
                nt.net.add_route(gen.lib_route(q, nt.mode_objs[0]))
                cx.count("non_ascii")

        def back(p):
            with open(p, encoding="utf-8", newline="") as h:
                rows = list(csv.reader(h, delimiter=";"))
            require([x[0] for x in rows[1:]] == [str(x.id) for x in nt.net.get_routes()], "the saved table lists other routes", got=[x[0] for x in rows[1:]])
        return nt.net.routes_to_file, lambda: net_value(nt.net), None, back
    ins = gen.make_instance(r, 1, 2, max_routes=4, zeros=0.1, max_pairs=4, full_demand=0.1)
    opt = optimised(ins.city.graph, ins.demand, gen.lib_pax(ins.pax), ins.net.net, [ins.f[q.id] for q in ins.net.routes])
    return opt.write_file_network_results, lambda: (opt.string_network_results(), snapshot(ins.city.graph), net_value(ins.net.net)), opt.string_network_results(), None


@contextlib.contextmanager
def size_limit(n):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def read(p):
    with open(p, "rb") as h:
        return h.read()


def tree(d):
    out = {}
    for base, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(base, x), d)] = "dir"
        for x in fs:
            p = os.path.join(base, x)
            out[os.path.relpath(p, d)] = read(p) if os.path.isfile(p) else "special"
    return out


CIRC = ["fresh", "longer_existing", "shorter_existing", "pathlike", "relative", "link", "missing_directory", "directory_target", "full_device", "size_limit", "size_limit"]


def one(cx, r, save, want, d, c, what):
    """One save under circumstance c; want: the bytes a complete file has."""
    name = r.choice(["out.csv", "a b.net", "ünï.txt", "noext", ".hidden", "x" * 60 + ".csv"]) + str(r.randint(0, 2))
    p = os.path.join(d, name)
    arg = p
    for q in (p,):
        if os.path.islink(q) or os.path.isfile(q):
            os.remove(q)
    limit = None
    if c == "longer_existing":
        with open(p, "wb") as h:
            h.write(r.choice([want, b"", b"\n", b"old;row\n"]) + b"left over\n" * r.randint(50, 400) + want)
    elif c == "shorter_existing":
        with open(p, "wb") as h:
            h.write(r.choice([b"", want[:len(want) // 2], want[:-1], b"x"]))
    elif c == "pathlike":
        arg = pathlib.Path(p)
    elif c == "relative":
        arg = os.path.relpath(p)
    elif c == "link":
        with open(os.path.join(d, "target"), "wb") as h:
            h.write(b"old" * 1000)
        os.symlink(os.path.join(d, "target"), p)
    elif c == "missing_directory":
        arg = p = os.path.join(d, "not", "there", name)
    elif c == "directory_target":
        arg = p = os.path.join(d, "folder")
        os.makedirs(p, exist_ok=True)
    elif c == "full_device":
        os.symlink("/dev/full", p)
    elif c == "size_limit":
        limit = r.choice([0, 1, len(want) - 1, r.randrange(max(1, len(want)))])
    before = tree(d)
    exc = None
    try:
        if limit is not None and limit < len(want):
            with size_limit(limit):
                save(arg)
        else:
            save(arg)
    except Exception as e:
        exc = e
    cx.count(c)
    fault = c in ("missing_directory", "directory_target", "full_device", "size_limit")
    rel = os.path.relpath(p, d)
    if exc is None:
        # success is only reported for a complete file
        require(os.path.isfile(p), "saving reported success but left no file", circumstance=c, object=what)
        got = read(p)
        require(got == want, "saving reported success but the file is not the complete %s" % what, circumstance=c, got=got[:200], length=len(got), expected_length=len(want),
                limit=limit)
    else:
        require(fault, "saving failed without reason", circumstance=c, error=repr(exc), object=what)
        require(isinstance(exc, OSError) or type(exc).__module__.startswith("sidermit"), "a failed save surfaces as an unrelated error", error=repr(exc), circumstance=c)
        cx.count("fault_surfaced")
    after = tree(d)
    for k in set(before) | set(after):
        if k == rel or (c == "link" and k == "target") or (c == "missing_directory" and exc is None and rel.startswith(k)):
            continue
        require(before.get(k) == after.get(k), "saving to one path changed another file", other=k, circumstance=c, object=what)
    if os.path.islink(p) or os.path.isfile(p):
        if r.random() < 0.7 or os.path.islink(p):
            os.remove(p)
    if fault:
        q = os.path.join(d, "again")
        save(q)
        require(read(q) == want, "saving after a failed save gives another file", circumstance=c, object=what, got=read(q)[:200])
        cx.count("saved_after_fault")


def missing_input(cx, r, d):
    from sidermit.city import Demand, Graph
    p = os.path.join(d, "absent.net")
    if os.path.exists(p):
        os.remove(p)
    g = gen.make_city(r, 1, 2).graph
    for fn, what in ((lambda: Graph.build_from_file(p), "city"), (lambda: Demand.build_from_file(g, p), "demand"),
                     (lambda: Graph.build_from_file(d), "city"), (lambda: Demand.build_from_file(g, d), "demand")):
        try:
            res = fn()
        except Exception:
            cx.count("missing_input")
            continue
        fail("reading a %s from a path that holds no file gives a result" % what, got=repr(res))
    require(not os.path.exists(p), "reading a missing file created it")


CHILD = r"""
import json, os, sys, locale
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import logging; logging.disable(logging.CRITICAL)
import warnings; warnings.filterwarnings("ignore")
spec = json.load(open(sys.argv[3], encoding="ascii"))
d = sys.argv[4]
from sidermit.city import Graph, Demand
from sidermit.publictransportsystem import TransportMode, TransportNetwork, Route
from vf.cityobs import snapshot
out = {"encoding": open(os.devnull, "w").encoding, "items": []}
for i, s in enumerate(spec):
    it = {}
    try:
        g = Graph.build_from_content(s["text"])
        it["direct"] = snapshot(g)[0]
        p = os.path.join(d, "c%d.net" % i)
        g.graph_to_pajek_file(p)
        it["back"] = snapshot(Graph.build_from_file(p))[0]
        it["parent"] = snapshot(Graph.build_from_file(s["file"]))[0]
        ids = [n.id for n in g.get_nodes()]
        D = Demand.build_from_content(g, [[float(a != b) for b in ids] for a in ids])
        D.matrix_to_file(os.path.join(d, "d%d.csv" % i))
        it["total"] = Demand.build_from_file(g, os.path.join(d, "d%d.csv" % i)).get_total_trips()
        net = TransportNetwork(g)
        m = TransportMode(s["mode"], *s["mode_values"])
        for rt in net.get_radial_routes(m):
            net.add_route(rt)
        q = s["route"]
        if q:
            net.add_route(Route(s["route_id"], m, *q))
        net.routes_to_file(os.path.join(d, "r%d.csv" % i))
        it["routes"] = [str(x.id) for x in net.get_routes()]
        z = g.get_zones()[0]
        D2 = Demand(g)
        D2.change_vij(z.periphery.id, g.get_cbd().id, 100)
        from sidermit.publictransportsystem import Passenger
        from vf.optobs import optimised
        o = optimised(g, D2, Passenger.get_default_passenger(), net, [20.0] * len(net.get_routes()))
        o.write_file_network_results(os.path.join(d, "o%d.csv" % i))
        it["report"] = o.string_network_results()
    except Exception as e:
        it["error"] = type(e).__name__ + ": " + ascii(str(e))
    out["items"].append(it)
json.dump(out, open(sys.argv[5], "w", encoding="ascii"))
"""


def locale_case(cx):
    from sidermit.city import Graph
    r = cx.rng
    d = os.path.join(cx.tmp, "loc")
    os.makedirs(d, exist_ok=True)
    spec, want = [], []
    for i in range(8):
        rows = [nd._replace(name=funny(r, nd.name)) for nd in gen.city_rows(r, 1, 5)]
        text = gen.rows_text(rows)
        g = Graph.build_from_content(text)
        p = os.path.join(d, "parent%d.net" % i)
        g.graph_to_pajek_file(p)
        from vf.ref import RefCity
        q = gen.custom_route(r, RefCity(rows), "x", 0)
        m = gen.gen_mode(r, funny(r, "metró"))
        spec.append({"text": text, "file": p, "mode": m.name, "mode_values": list(m)[1:], "route_id": funny(r, "línea"),
                     "route": [gen.seq_text(x) for x in (q.ni, q.nr, q.si, q.sr)] if q else None})
        want.append(snapshot(g)[0])
        cx.count("non_ascii", not text.isascii())
    sp, op = os.path.join(d, "spec.json"), os.path.join(d, "out.json")
    with open(sp, "w", encoding="ascii") as h:
        json.dump(spec, h)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON"))}
    env.update(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(r.randint(0, 999)))
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    res = subprocess.run([sys.executable, "-c", CHILD, repo_path(), root, sp, d, op], env=env, capture_output=True, timeout=200)
    require(res.returncode == 0 and os.path.exists(op), "child process under an ASCII locale died", code=res.returncode, stderr=res.stderr[-2000:])
    with open(op, encoding="ascii") as h:
        out = json.load(h)
    cx.count("locale_children")
    cx.count("ascii_locale", out["encoding"].lower() not in ("utf-8", "utf8"))
    J = lambda x: json.loads(json.dumps(x))
    for i, (it, w, s) in enumerate(zip(out["items"], want, spec)):
        require("error" not in it, "saving or reading fails under an ASCII locale", error=it.get("error"), names=[x[1] for x in w])
        for k in ("direct", "back", "parent"):
            require(sorted(it[k]) == sorted(J(w)), "a city differs under an ASCII locale (%s)" % k, got=it[k], expected=w)
        n = len(w)
        require(it["total"] == n * (n - 1), "a demand differs under an ASCII locale", got=it["total"])
        # files written by the child are read here
        require(sorted(snapshot(Graph.build_from_file(os.path.join(d, "c%d.net" % i)))[0]) == sorted(w), "a city saved under an ASCII locale reads differently under UTF-8")
        with open(os.path.join(d, "r%d.csv" % i), encoding="utf-8", newline="") as h:
            rows = list(csv.reader(h, delimiter=";"))
        require([x[0] for x in rows[1:]] == it["routes"] and {x[1] for x in rows[1:]} == {s["mode"]}, "a route table saved under an ASCII locale reads differently", got=rows)
        with open(os.path.join(d, "o%d.csv" % i), encoding="utf-8", newline="") as h:
            require(h.read() == it["report"], "a report saved under an ASCII locale reads differently")
        require([x.split(";")[0] for x in it["report"].split("\n")[1:]] == it["routes"], "a report lists other routes under an ASCII locale")
        require(not s["route"] or it["routes"][-1] == s["route_id"], "a route id changed under an ASCII locale", got=it["routes"])
    cx.shape("locale", repr(spec)[:4000])
    cx.desc = {"locale": spec[0]}


def case(cx):
    if cx.index % LOCALE_EVERY == 0:
        return locale_case(cx)
    r = cx.rng
    kind = r.choice(["city", "city", "demand", "routes", "results"])
    d = os.path.join(cx.tmp, "case%d" % cx.index)
    os.makedirs(d)
    save, observe, text, back = subject(cx, r, kind)
    cx.count(kind)
    base = os.path.join(d, "base")
    v0 = observe()
    save(base)
    want = read(base)
    require(want, "saving gives an empty file", object=kind)
    if text is not None:
        require(want.decode("utf-8") == text, "the saved file is not the exported text", object=kind, got=want[:300], expected=text[:300])
    circs = [r.choice(CIRC) for _ in range(r.randint(2, 5))]
    cx.desc = {"object": kind, "circumstances": circs}
    cx.shape(kind, tuple(circs), zlib.crc32(want))
    other = None
    if r.random() < 0.25:                    # a second object of the same kind saved in between
        save2, observe2, text2, back2 = subject(cx, r, kind)
        p2 = os.path.join(d, "second")
        save2(p2)
        require(text2 is None or read(p2).decode("utf-8") == text2, "the saved file is not the exported text of the second object", object=kind)
        other = (save2, read(p2))
        cx.count("second_object")
    for c in circs:
        one(cx, r, save, want, d, c, kind)
        require(read(base) == want, "a later save changed an earlier file", circumstance=c, object=kind)
        if other and r.random() < 0.5:
            one(cx, r, other[0], other[1], d, r.choice(CIRC[:6]), "second " + kind)
    require(observe() == v0, "saving changed the saved %s" % kind, circumstances=circs)
    if back is not None:
        p = os.path.join(d, "again2")
        save(p)
        back(r.choice([p, pathlib.Path(p)]))
    if r.random() < 0.15:
        missing_input(cx, r, d)
    import shutil
    shutil.rmtree(d, ignore_errors=True)
