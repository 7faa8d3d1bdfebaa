import math
import os

from vf import gen
from vf.cityobs import ang_diff, check_polar, check_streets, check_structure, kind_of
from vf.common import close, fail, req_close, require

gen.ODD_NAMES = ("P", "SC", "CBD", "sc", "p", "1", "0", "-1", "007", "1.50", "nan", "NaN", "None", "NA", "inf", "1e5", "True", "ñandú", "東京", '"q"', "'s'", "a,b", "a;b", "%s", "{}", "*vertices",
                 "#x", "\\n", "a/b", "a:b", "_", "-", "Xsc", "CBDx", "x" * 60)
gen.SCALE, gen.SCALES = 0.05, (1e-3, 0.01, 0.1, 10, 50, 1e3, 1e6)
CASES = {"quick": 12000, "thorough": 120000}
RULE = ("export -> (permute rows, reformat) -> import chains over parametric cities and hand-written rows with arbitrary ids, names, widths "
        "and positions, through text and files; non-trivial: at least one zone; distinct by full row content")
MUST_SEE = ["round_trips", "permuted", "via_file", "etha_cases", "regenerated_positions", "hand_rows", "inner_peripheries", "no_distance", "crlf", "exponents", "large_cities"]
ASSUMPTIONS = ["a city whose subcenters all stand at the origin and whose peripheries do not cannot be expressed by the parameters: only its nodes and streets are required to survive"]


def parse(text):
    """Own reading of the exported text."""
    lines = text.split("\n")
    i = [k for k, l in enumerate(lines) if l.lower().startswith("*vertices")]
    require(len(i) == 1, "export has no vertex header", text=text[:300])
    cnt = int(lines[i[0]].split()[1])
    rows = [l.split() for l in lines[i[0] + 1:] if l.strip()]
    require(cnt == len(rows) and all(len(x) == 7 for x in rows), "export rows do not match the declared count", text=text[:600])
    return [(int(a), b, float(x), float(y), t, int(z), float(w)) for a, b, x, y, t, z, w in rows]


def rows_of(g):
    return [(int(nd.id), nd.name, float(nd.x), float(nd.y), kind_of(nd), int(nd.zone_id), float(nd.width)) for nd in g.get_nodes()]


def check_inferred(cx, g, rows):
    """Parameters inferred on import regenerate the positions."""
    n, L, gg, p, etha, ez, angles, Gi, Hi = g.get_parameters()
    P = {z: (x, y) for _, _, x, y, t, z, _ in rows if t == "P"}
    S = {z: (x, y) for _, _, x, y, t, z, _ in rows if t == "SC"}
    C = [(x, y) for _, _, x, y, t, _, _ in rows if t == "CBD"][0]
    require(n == len(S), "inferred number of zones is wrong", got=n)
    if n == 0:
        return
    rs = {z: math.hypot(*S[z]) for z in S}
    rp = {z: math.hypot(*P[z]) for z in P}
    req_close(L, sum(rs.values()) / n, "inferred L is not the mean subcenter distance", 1e-9)
    require(gg >= 0, "inferred g is outside its domain", got=gg)
    if sum(rp.values()) >= sum(rs.values()) > 0:
        req_close(L * (1 + gg), sum(rp.values()) / n, "inferred g does not give the mean periphery distance", 1e-9)
    cx.count("inner_peripheries", sum(rp.values()) < sum(rs.values()))
    cx.count("no_distance", sum(rs.values()) == 0)
    require(len(angles) == n and len(Gi) == n and len(Hi) == n, "inferred lists have the wrong length")
    scale = max(max(rs.values()), max(rp.values()), 1e-9)
    for z in range(1, n + 1):
        a = math.radians(angles[z - 1])
        x, y = L * Gi[z - 1] * math.cos(a), L * Gi[z - 1] * math.sin(a)
        tol = 2e-6 * scale
        require(math.hypot(x - S[z][0], y - S[z][1]) <= tol, "inferred parameters do not regenerate the subcenter", zone=z, got=(x, y), expected=S[z])
        if sum(rs.values()) == 0 < sum(rp.values()):
            continue
        req_close(L * (1 + gg) * Hi[z - 1], rp[z], "inferred parameters do not regenerate the periphery distance", 1e-9, 1e-9, zone=z)
        cx.count("regenerated_positions")
    require(any(close(p, w, 1e-12) for *_, w in rows), "inferred width is no node's width", p=p)
    widths = {w for *_, w in rows}
    if len(widths) == 1:
        req_close(p, widths.pop(), "inferred width is wrong", 1e-12)
    # eccentricity
    rc = math.hypot(*C)
    if rc > 1e-3 * scale:
        ac = math.degrees(math.atan2(C[1], C[0])) % 360
        on = [z for z in S if rs[z] > 1e-6 * scale and abs(ac - math.degrees(math.atan2(S[z][1], S[z][0])) % 360) < 5e-4 and rc <= rs[z]]
        near = [z for z in S if rs[z] < 1e-6 * scale or ang_diff(ac, math.degrees(math.atan2(S[z][1], S[z][0]))) < 2e-3]
        if on:
            cx.count("etha_cases")
            require(etha is not None and ez in near, "CBD on a subcenter's ray but its eccentricity was not inferred", etha=etha, zone=ez, candidates=on)
            req_close(etha * rs[ez], rc, "inferred eccentricity does not give the CBD distance", 1e-6)
        elif not near:
            require(etha is None and ez is None, "eccentricity inferred although the CBD is on no subcenter's ray", etha=etha, zone=ez)


def large(cx):
    """A city of hundreds of zones survives the exchange."""
    from sidermit.city import Graph
    r = cx.rng
    kw = gen.city_params(r, 0, 7, positive=True)
    kw["n"] = n = r.choice([r.randint(100, 250), r.randint(200, 520)])
    for k in ("angles", "Gi", "Hi"):
        if k in kw:
            kw[k] = [r.uniform(0, 360) if k == "angles" else r.uniform(0.3, 2) for _ in range(n)]
    if "etha_zone" in kw:
        kw["etha_zone"] = r.randint(1, n)
    cx.desc = {"large": n}
    cx.shape("large", n)
    g = Graph.build_from_parameters(**kw)
    base = rows_of(g)
    body = g.export_graph()
    rows = parse(body)
    require(sorted(rows) == sorted(base), "exported rows differ from the city's nodes", zones=n)
    r.shuffle(rows)
    g2 = Graph.build_from_content("*vertices %d\n" % len(rows) + "\n".join("%d %s %r %r %s %d %r" % x for x in rows))
    check_structure(g2, n)
    require(sorted(rows_of(g2)) == sorted(base), "import changed the nodes", zones=n)
    e1, e2 = (sorted((int(e.node1.id), int(e.node2.id)) for e in x.get_edges()) for x in (g, g2))
    require(e1 == e2, "import changed the streets", zones=n)
    check_inferred(cx, g2, base)
    cx.count("large_cities")


def case(cx):
    from sidermit.city import Graph
    r = cx.rng
    if r.random() < 0.0012:
        return large(cx)
    if r.random() < 0.6:
        kw = gen.city_params(r, 0, 7, positive=True)
        if "Gi" in kw and r.random() < 0.2 and kw["n"] > 1:
            kw["Gi"][r.randrange(kw["n"])] = 0      # a subcenter at the origin
        k = r.random()
        if k < 0.04:
            kw["l"] = r.choice([0, 0.0])
        elif k < 0.08 and kw["n"]:
            kw["Gi"] = [0] * kw["n"]
        elif k < 0.11 and kw["n"]:
            kw["Hi"] = [0] * kw["n"]
        elif k < 0.2 and kw["n"]:
            kw["Hi"] = [gen.num(r, 0, 0.9) for _ in range(kw["n"])]
        cx.desc = dict(kw)
        g = Graph.build_from_parameters(**kw)
        cx.count("parametric")
    else:
        rows = gen.city_rows(r, 0 if r.random() < 0.05 else 1, 7)
        k = r.random()
        if k < 0.08:                             # nodes at the origin
            what = r.choice(["SC", "P", "P", "all"])
            rows = [nd._replace(x=0.0, y=0.0) if what in (nd.kind, "all") else nd for nd in rows]
            if what == "SC":
                rows = [nd._replace(x=0.0, y=0.0) if nd.kind == "CBD" else nd for nd in rows]
        if r.random() < 0.03:                    # hardly any width
            k = 10 ** r.uniform(-12, -5)
            rows = [nd._replace(width=nd.width * k) for nd in rows]
            cx.count("tiny_widths")
        cx.desc = {"rows": [tuple(x) for x in rows]}
        g = Graph.build_from_content(gen.rows_text(rows))
        cx.count("hand_rows")
        want = sorted((nd.id, nd.name, float(nd.x), float(nd.y), nd.kind, nd.zone, float(nd.width)) for nd in rows)
        require(sorted(rows_of(g)) == want, "imported nodes differ from the rows", got=sorted(rows_of(g)), expected=want)
    cx.nontrivial = g.get_n() > 0
    cx.shape(repr(cx.desc))
    base = rows_of(g)
    text = None
    for hop in range(r.choice([1, 1, 2, 3])):
        if r.random() < 0.5:
            text = g.export_graph()
        else:
            path = os.path.join(cx.tmp, "city_%d.net" % r.randint(0, 3))
            g.graph_to_pajek_file(path)
            with open(path, encoding="utf-8") as fh:
                text = fh.read()
            require(text == g.export_graph(), "file and text export differ")
        rows = parse(text)
        require(sorted(rows) == sorted(base), "exported rows differ from the city's nodes", got=sorted(rows), expected=sorted(base))
        lines = text.split("\n")
        i = [k for k, l in enumerate(lines) if l.lower().startswith("*vertices")][0]
        body = [l for l in lines[i + 1:] if l.strip()]
        if r.random() < 0.7:
            r.shuffle(body)
            cx.count("permuted")
        if r.random() < 0.2:
            body = [l.replace(" ", r.choice([" ", "  ", "\t"])) for l in body]
        if r.random() < 0.15:
            body = [" ".join(x[:2] + ["%.17e" % float(v) for v in x[2:4]] + x[4:6] + ["%.17E" % float(x[6])]) for x in (l.split() for l in body)]
            cx.count("exponents")
        crlf = r.random() < 0.2
        cx.count("crlf", crlf)
        head = lines[:i] if r.random() < 0.7 else r.choice([[], ["comment"], ["", ""]])
        text = "\n".join(head + [r.choice(["*vertices", "*Vertices", "*VERTICES"]) + " %d" % len(body)] + body) + r.choice(["\n", "\n", "", "\n\n"])
        if r.random() < 0.5:
            g2 = Graph.build_from_content(text.replace("\n", "\r\n") if crlf else text)
        else:
            path = os.path.join(cx.tmp, "in.net")
            with open(path, "w", encoding="utf-8", newline="\r\n" if crlf else "\n") as fh:
                fh.write(text)
            g2 = Graph.build_from_file(path)
            cx.count("via_file")
        cx.count("round_trips")
        check_structure(g2, g.get_n())
        require(sorted(rows_of(g2)) == sorted(base), "import changed the nodes", got=sorted(rows_of(g2)), expected=sorted(base))
        e1 = sorted((int(e.node1.id), int(e.node2.id)) for e in g.get_edges())
        e2 = sorted((int(e.node1.id), int(e.node2.id)) for e in g2.get_edges())
        require(e1 == e2, "import changed the streets", got=e2, expected=e1)
        d1, d2 = g.get_edges_distance(), g2.get_edges_distance()
        for a, b in e1:
            req_close(d2[a][b], d1[a][b], "import changed a street length", 1e-12, 1e-12, street=(a, b))
        scale = max([1e-9] + [abs(v) for x in base for v in x[2:4]])
        for nd in g2.get_nodes():
            check_polar(nd, scale)
        check_inferred(cx, g2, base)
        g = g2
