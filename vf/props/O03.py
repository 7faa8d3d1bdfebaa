import ast
import os

from vf import gen
from vf.common import close, fail, req_close, require
from vf.optobs import optimised
from vf.pipe import Costs, Pipe

gen.LONG_ZONES = (9, 16)  # each instance is solved many times
gen.TINY = False         # the final point of an optimisation is rounded below 1/24

CASES = {"quick": 1200, "thorough": 16000}
CASE_CPU = 240
RULE = ("all reports of one optimised network per case (the solver ending at given frequencies, or the real solver on small networks), every number recomputed independently "
        "with strategies of the final frequencies; text and file reports parsed back; distinct by routes, frequencies and trips; non-trivial: a route is reported")
MUST_SEE = ["long_lines", "route_reports", "inactive", "empty_active", "circular", "express", "sections", "unserved_sections", "alight_only_stops", "overall_reports", "text_reports",
            "file_reports", "refused", "asked_again", "real", "mode_reports", "parallel_lines",
            "started_near", "started_far"]


def expected_routes(ins, C, f):
    out = []
    for q in ins.net.routes:
        md = ins.modes[q.m]
        k = C.k[q.id]
        subs = []
        for d, ns, ss in (("I", q.ni, q.si), ("R", q.nr, q.sr)):
            sub, cur = [], 0.0
            for a, b in zip(ns, ns[1:]):
                if a in ss:
                    cur = C.load.get((q.id, d, a), 0.0)
                sub.append((a, b, cur / k if k > 0 and f[q.id] > 0 else 0.0))
            subs.append(sub)
        if f[q.id] <= 0:
            out.append((q.id, 0, 0, 0, 0, 0, 0, 0, subs[0], subs[1]))
            continue
        tb = sum(n for key, n in C.z.items() if key[0] == q.id)
        tc = C.tc[q.id]
        co = (md.co + md.c1 * k) * tc / tb if tb > 0 else 0.0
        out.append((q.id, f[q.id], f[q.id] / md.d, k, tc * f[q.id], tc * 60, co, min(x[2] for s in subs for x in s), subs[0], subs[1]))
    return out


NAMES = ("route", "frequency", "frequency per line", "vehicle size", "fleet", "cycle time", "operator cost per boarding", "smallest load ratio")


def check_rows(cx, ins, C, f, rows):
    want = expected_routes(ins, C, f)
    require([x[0] for x in rows] == [x[0] for x in want], "reported routes or their order", got=[x[0] for x in rows], expected=[x[0] for x in want])
    scale = max([1.0] + list(C.k.values()))
    for g, w, q in zip(rows, want, ins.net.routes):
        require(len(g) == 10, "a route's report has another form", got=repr(g))
        for n, a, b in list(zip(NAMES, g, w))[1:]:
            req_close(a, b, n + " of a route", 1e-7, 1e-9, route=q.id, circular=q.circular)
        for n, a, b in (("there", g[8], w[8]), ("back", g[9], w[9])):
            require([(int(x), int(y)) for x, y, _ in a] == [(x, y) for x, y, _ in b], "sections of a route (%s)" % n, route=q.id, got=a, expected=b)
            for x, y in zip(a, b):
                req_close(x[2], y[2], "load ratio of a section (%s)" % n, 1e-7, 1e-9, route=q.id, section=x[:2], circular=q.circular)
                require(-1e-9 <= x[2] <= 1 + 1e-9, "load ratio outside 0..1", route=q.id, section=x)
                cx.count("sections")
        cx.count("route_reports")
        cx.count("inactive", f[q.id] <= 0)
        cx.count("empty_active", f[q.id] > 0 and C.k[q.id] == 0)
        act = f[q.id] > 0 and C.k[q.id] > 0
        cx.count("circular", act and q.circular)
        cx.count("express", act and (q.si != q.ni or q.sr != q.nr))
        cx.count("unserved_sections", act and any(x not in s for s, n in ((q.si, q.ni), (q.sr, q.nr)) for x in n[:-1]))
        cx.count("alight_only_stops", act and any(C.v.get(key, 0) > 0 and not C.z.get(key, 0) for key in C.v if key[0] == q.id))
        cx.count("parallel_lines", act and ins.modes[q.m].d > 1)


def check_text(cx, rows, text):
    lines = text.split("\n")
    require(lines[0].split(";") == "route_id;F[veh/hr];f[veh/hr-line];k[pax/veh];B[veh];tc[min];CO[US$/hr-pax];load_min;sub_table_i;sub_table_r".split(";"),
            "header of the printed routes", got=lines[0])
    require(len(lines) == 1 + len(rows), "number of printed routes", got=len(lines) - 1, expected=len(rows))
    for ln, row in zip(lines[1:], rows):
        c = ln.split(";")
        require(len(c) == 10 and c[0] == str(row[0]), "a printed route", got=ln)
        for a, b in zip(c[1:8], row[1:8]):
            require(abs(float(a) - float(b)) <= 0.005001 + 1e-9 * abs(b), "a printed number differs from the result", line=ln, got=a, expected=b)
        for a, b in zip(c[8:], row[8:]):
            try:
                t = ast.literal_eval(a)
            except (ValueError, SyntaxError):
                require(a == str(b), "a printed section table differs from the result", got=a, expected=str(b))
                continue
            require(len(t) == len(b) and all(int(x[0]) == int(y[0]) and int(x[1]) == int(y[1]) and close(x[2], y[2], 1e-6, 1e-6) for x, y in zip(t, b)),
                    "a printed section table differs from the result", got=a, expected=str(b))
    cx.count("text_reports")


def check_overall(cx, ins, C, f, out, text):
    tot = sum(ins.trips.values())
    want = {"VRC": C.vrc / tot, "operators_cost": C.CO / tot, "infrastructure_cost": C.CI / tot, "users_cost": C.CU / tot, "travel_time_on_board": C.tv / tot * 60,
            "waiting_time": C.te / tot * 60, "access_time": C.ta / tot * 60, "transfers": C.t / tot}
    for n, w in want.items():
        require(n in out, "an overall result is missing", name=n, got=sorted(out))
        req_close(out[n], w, "overall result " + n, 1e-7, 1e-9)
    names = {id(m): i for i, m in enumerate(ins.net.mode_objs)}
    act = [q for q in ins.net.routes if f[q.id] > 0]
    for n, fn in (("vehicles_mode", lambda qs: sum(f[q.id] * C.tc[q.id] for q in qs)),
                  ("vehicle_capacity_mode", lambda qs: sum(C.k[q.id] for q in qs) / len(qs)),
                  ("lines_mode", lambda qs: sum(ins.modes[q.m].d for q in qs))):
        t = {names[id(m)]: x for m, x in out[n].items()}
        require(set(t) == {q.m for q in act}, "overall result %s covers other modes than the active ones" % n, got=sorted(t))
        for m in t:
            req_close(t[m], fn([q for q in act if q.m == m]), "overall result %s of a mode" % n, 1e-7, 1e-9, mode=m)
            cx.count("mode_reports")
    # printed
    vals = {}
    lines = [x.strip() for x in text.split("\n")]
    for ln in lines:
        if ":" in ln:
            a, b = ln.split(":", 1)
            vals.setdefault(a.strip(), []).append(b.strip())
    w2 = {"Objective function VRC [USD$/hr-pax]": out["VRC"], "Operators cost [USD$/hr-pax]": out["operators_cost"],
          "Infrastructure cost [USD$/hr-pax]": out["infrastructure_cost"], "Users cost [USD$/hr-pax]": out["users_cost"],
          "Time on board vehicle [min/pax]": out["travel_time_on_board"], "Waiting time [min/pax]": out["waiting_time"], "Access time [min/pax]": out["access_time"],
          "total travel time [min/pax]": out["travel_time_on_board"] + out["waiting_time"] + out["access_time"], "Transfers [transfers/pax]": out["transfers"]}
    for n, x in w2.items():
        require(n in vals and len(vals[n]) == 1, "a printed overall result is missing", name=n, text=text)
        require(abs(float(vals[n][0]) - x) <= 0.005001 + 1e-9 * abs(x), "a printed overall result differs", name=n, got=vals[n][0], expected=x)
    ms = list(out["vehicles_mode"])
    require(vals.get("Transport mode information") == [str(len(ms))], "printed number of modes", text=text)
    require(sorted(vals.get("Mode name", [])) == sorted(m.name for m in ms), "printed modes", text=text)
    for i, nm in enumerate(vals.get("Mode name", [])):
        m = [x for x in ms if x.name == nm][0]
        for lab, tab in (("B [veh]", "vehicles_mode"), ("K [pax/veh]", "vehicle_capacity_mode"), ("L [lines]", "lines_mode")):
            x = out[tab][m]
            require(abs(float(vals[lab][i]) - x) <= 0.005001 + 1e-9 * abs(x), "a printed result of a mode differs", mode=nm, name=lab, got=vals[lab][i], expected=x)
    cx.count("overall_reports")


def case(cx):
    from sidermit.exceptions import NoOptimalSolutionFoundException, SIDERMITException
    from sidermit.optimization.optimizer import Optimizer
    r = cx.rng
    is_real = r.random() < 0.03
    if is_real:
        ins = gen.make_instance(r, 1, 2, max_routes=r.choice([1, 2, 3]), zeros=0, freq="default", max_pairs=4, full_demand=0.1)
        try:
            opt = Optimizer.network_optimization(ins.city.graph, ins.demand, gen.lib_pax(ins.pax), ins.net.net, max_number_of_iteration=1)
        except SIDERMITException:
            cx.nontrivial = False
            return
        final = {q.id: float(x) for q, x in zip(ins.net.routes, opt.get_optimization_value()[0])}
        from vf.ref import RefX
        ins.f = final
        ins.x = RefX(ins.city.ref, ins.modes, ins.net.routes, final, ins.pax.pt)
        if not all(d in ins.x.reachable(o) for o, d in ins.trips):
            cx.nontrivial = False
            return
        cx.count("real")
    else:
        if r.random() < 0.12:       # few, long lines
            gen.LONG = True
            try:
                ins = gen.make_instance(r, 4, 9, max_routes=2, zeros=0, max_pairs=r.choice([6, 30, 80]), kmodes=1)
            finally:
                gen.LONG = False
            cx.count("long_lines")
        else:
            was = gen.FAN
            gen.FAN = 0.09           # rides of many transfers
            try:
                ins = gen.make_instance(r, 1, 4, max_routes=8, zeros=r.choice([0, 0.1, 0.3]))
            finally:
                gen.FAN = was
        how = r.choice(["default", "default", "same", "near", "near", "far"])    # what the optimisation was started with
        start = None if how == "default" else gen.ddict({
            i: v if how == "same" else v * r.uniform(0.97, 1.03) if how == "near" else max(v, 0.5) * r.uniform(0.2, 5) for i, v in ins.f.items()})
        cx.count("started_" + how)
        if start is not None:
            opt = Optimizer(ins.city.graph, ins.demand, gen.lib_pax(ins.pax), ins.net.net, start)
        else:
            opt = Optimizer(ins.city.graph, ins.demand, gen.lib_pax(ins.pax), ins.net.net)
        path = os.path.join(cx.tmp, "none.csv")
        for fn in (opt.get_network_results, opt.get_overall_results, opt.string_network_results, opt.string_overall_results, lambda: opt.write_file_network_results(path)):
            try:
                ans = fn()
            except NoOptimalSolutionFoundException:
                cx.count("refused")
                continue
            fail("results are given although nothing was optimised", got=repr(ans)[:300])
        vec = [ins.f[q.id] for q in ins.net.routes]
        opt = optimised(ins.city.graph, ins.demand, gen.lib_pax(ins.pax), ins.net.net, vec, r.choice([1, 2]), r.uniform(1, 1000), start)
    cx.desc = gen.describe(ins)
    cx.shape(tuple(ins.city.ref.order), repr([q.spec() for q in ins.net.routes]), repr(sorted(ins.f.items(), key=str)), repr(sorted(ins.trips.items())))
    f = ins.f
    P = Pipe(ins)
    C = Costs(ins, P.trips, P.share, f)
    rows = opt.get_network_results()
    check_rows(cx, ins, C, f, rows)
    out = opt.get_overall_results()
    check_overall(cx, ins, C, f, out, opt.string_overall_results())
    text = opt.string_network_results()
    check_text(cx, rows, text)
    if r.random() < 0.5:
        path = os.path.join(cx.tmp, "res.csv")
        if r.random() < 0.5:
            with open(path, "w") as h:
                h.write("old content\n" * 1000)
        opt.write_file_network_results(path)
        with open(path, encoding="utf-8", newline="") as h:
            require(h.read() == text, "the saved report differs from the printed one")
        os.remove(path)
        cx.count("file_reports")
    if r.random() < 0.3:
        require(str(opt.get_network_results()) == str(rows), "asking again gives other results")
        req_close(opt.get_overall_results()["VRC"], out["VRC"], "asking again gives another overall result", 1e-12, 0)
        cx.count("asked_again")
