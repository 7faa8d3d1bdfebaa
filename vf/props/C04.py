import math
import os

from vf import gen
from vf.cityobs import check_structure, expect_refusal
from vf.common import fail, require
from vf.ref import RefCity

gen.SCALE, gen.SCALES = 0.05, (1e-3, 0.01, 0.1, 10, 50, 1e3, 1e6)
CASES = {"quick": 40000, "thorough": 400000}
RULE = ("valid parameter tuples and city descriptions with 1-3 corruptions at random positions, plus domain boundaries; an independent validator "
        "says whether the result is still valid; non-trivial: all; distinct by full input")
MUST_SEE = ["refused_params", "accepted_params", "refused_rows", "accepted_rows", "via_file",
            "k_drop", "k_dup", "k_zone", "k_type", "k_badtype", "k_dupid", "k_badid", "k_badzone", "k_cols", "k_declared", "k_width", "k_cbdzone", "k_format", "blank_lines", "long_lists", "large_cities"]
ASSUMPTIONS = ["non-numeric coordinates, NaN and files declaring fewer vertices than they list are not claimed"]


class Fmt(object):
    value = 2


def params_case(cx):
    from sidermit.city import Graph
    r = cx.rng
    kw = gen.city_params(r, 0, 8) if r.random() < 0.98 else gen.city_params(r, 30, 150)
    cx.count("long_lists", kw["n"] >= 30)
    n = kw["n"]
    bad = None
    k = r.random()
    if k < 0.75:
        opts = ["n", "l", "g", "p", "etha_only", "zone_only", "etha", "etha_zone", "alen", "aval", "glen", "gval", "hlen", "hval"]
        bad = []
        tiny = lambda: r.choice([1e-9, 1e-3, 0.5, 1, 100])
        under = lambda: -r.choice([1e-9, 1e-3, 0.5, 1, 100, 1e-15, 5e-324, 1e6])
        for what in r.sample(opts, r.choice([1, 1, 1, 2])):
            if what == "n":
                kw["n"] = r.choice([-1, -3, n + 0.5, float(n), -0.5])
            elif what in "lgp":
                kw[what] = under()
            elif what == "etha_only":
                kw["etha"] = r.random()
                kw.pop("etha_zone", None)
            elif what == "zone_only":
                kw["etha_zone"] = max(1, n)
                kw.pop("etha", None)
            elif what == "etha":
                kw["etha"], kw["etha_zone"] = r.choice([under(), 1 + tiny(), math.nextafter(1, 2)]), r.randint(1, max(n, 1))
            elif what == "etha_zone":
                kw["etha"], kw["etha_zone"] = r.random(), r.choice([0, -1, n + 1, n + 5, 0.5, 1.0 if n else 0])
            elif what == "alen":
                kw["angles"] = [10.0] * r.choice([n + 1, max(n - 1, 0) if n else 1, n + 3])
            elif what == "glen":
                kw["Gi"] = [1.0] * r.choice([n + 1, max(n - 1, 0) if n else 1])
            elif what == "hlen":
                kw["Hi"] = [1.0] * r.choice([n + 1, max(n - 1, 0) if n else 1])
            elif n == 0:
                continue
            elif what == "aval":
                kw["angles"] = gen.gen_angles(r, n)
                kw["angles"][r.randrange(n)] = r.choice([under(), 360 + tiny(), math.nextafter(360, 400)])
            elif what == "gval":
                kw["Gi"] = [gen.num(r, 0, 2) for _ in range(n)]
                kw["Gi"][r.randrange(n)] = under()
            elif what == "hval":
                kw["Hi"] = [gen.num(r, 0, 2) for _ in range(n)]
                kw["Hi"][r.randrange(n)] = under()
            bad.append(what)
    else:                                  # boundaries
        for what in r.sample(["l0", "g0", "p0", "etha", "angles", "Gi", "Hi", "empty"], 3):
            if what in ("l0", "g0", "p0"):
                kw[what[0]] = r.choice([0, 0.0])
            elif n and what == "etha":
                kw["etha"], kw["etha_zone"] = r.choice([0, 1, 0.0, 1.0]), r.choice([1, n])
            elif n and what == "angles":
                kw["angles"] = [r.choice([0, 360, 0.0, 360.0, 180]) for _ in range(n)]
            elif n and what in ("Gi", "Hi"):
                kw[what] = [r.choice([0, 0.0, 1]) for _ in range(n)]
            elif n == 0:
                kw["angles"] = []
    cx.desc = {"parameters": {k: repr(v) for k, v in kw.items()}, "corrupted": bad}
    cx.shape(repr(cx.desc))
    valid = valid_params(**kw)
    if valid:
        check_structure(Graph.build_from_parameters(**kw), kw["n"])
        cx.count("accepted_params")
    else:
        expect_refusal(lambda: Graph.build_from_parameters(**kw), "an out-of-domain parameter tuple", parameters=repr(kw))
        expect_refusal(lambda: Graph.parameters_validator(kw["n"], kw["l"], kw["g"], kw["p"], kw.get("etha"), kw.get("etha_zone"),
                                                          kw.get("angles"), kw.get("Gi"), kw.get("Hi")),
                       "an out-of-domain parameter tuple (validator)", parameters=repr(kw))
        cx.count("refused_params")


def valid_params(n, l, g, p, etha=None, etha_zone=None, angles=None, Gi=None, Hi=None):
    if not isinstance(n, int) or n < 0 or l < 0 or g < 0 or p < 0:
        return False
    if (etha is None) != (etha_zone is None):
        return False
    if etha is not None and not (0 <= etha <= 1 and isinstance(etha_zone, int) and 1 <= etha_zone <= n):
        return False
    for lst, lo, hi in ((angles, 0, 360), (Gi, 0, math.inf), (Hi, 0, math.inf)):
        if lst is not None and (len(lst) != n or any(not lo <= v <= hi for v in lst)):
            return False
    return True


def is_int(s):
    t = s[1:] if s[:1] == "-" else s
    return t.isdigit()


def rows_valid(rows, declared):
    """True / False / None (outside the claimed domain). rows: lists of strings."""
    if declared != len(rows):
        return False if declared > len(rows) else None
    if any(len(x) != 7 for x in rows):
        return False
    if any(x[4] not in ("CBD", "P", "SC") or not is_int(x[0]) or not is_int(x[5]) for x in rows):
        return False
    if any(float(x[6]) < 0 for x in rows):
        return False
    ids = [int(x[0]) for x in rows]
    if len(set(ids)) != len(ids) or len(rows) % 2 != 1:
        return False
    keys = sorted((int(x[5]), x[4]) for x in rows)
    n = (len(rows) - 1) // 2
    if keys != sorted([(0, "CBD")] + [(z, k) for z in range(1, n + 1) for k in ("P", "SC")]):
        return False
    pos = {(int(x[5]), x[4]): (float(x[2]), float(x[3])) for x in rows}
    C = pos[(0, "CBD")]
    for z in range(1, n + 1):
        s = pos[(z, "SC")]
        cr = C[0] * s[1] - C[1] * s[0]
        if abs(cr) < 1e-3 * (1 + math.hypot(*s)) * max(1, math.hypot(*C)) and math.hypot(*C) > 0.999 * math.hypot(*s):
            return None
    return True


def rows_case(cx):
    from sidermit.city import Graph
    from sidermit.city.graph import GraphContentFormat
    from sidermit.exceptions import SIDERMITException
    r = cx.rng
    base = gen.city_rows(r, 0 if r.random() < 0.1 else 1, 6) if r.random() < 0.985 else gen.city_rows(r, 20, 120)
    cx.count("large_cities", len(base) > 40)
    if r.random() < 0.05:
        what = r.choice(["SC", "P", "all"])
        base = [nd._replace(x=0.0, y=0.0) if what in (nd.kind, "all") or (what == "SC" and nd.kind == "CBD") else nd for nd in base]
    r.shuffle(base)
    n = (len(base) - 1) // 2
    rows = [[str(nd.id), nd.name, gen.num_text(nd.x), gen.num_text(nd.y), nd.kind, str(nd.zone), gen.num_text(nd.width)] for nd in base]
    declared, fmt, trailing = None, None, True
    kinds = []
    if r.random() < 0.85:
        single = len(base) > 40 and r.random() < 0.7
        for _ in range(r.choice([1, 1, 1, 2, 3]) if not single else 1):
            k = "dupid" if single and r.random() < 0.6 else r.choice(["drop", "drop2", "dup", "zone", "type", "badtype", "dupid", "dupid", "badid", "badzone", "cols", "declared", "width",
                          "cbdzone", "format", "swapzone", "nohead"])
            if not rows:
                break
            i = r.randrange(len(rows))
            row = rows[i]
            if len(row) != 7 and k not in ("drop", "dup", "format", "declared"):
                continue
            ok_rows = [x for x in rows if len(x) == 7]
            if k == "drop":
                rows.pop(i)
            elif k == "drop2" and len(rows) > 2:
                rows.pop(i)
                rows.pop(r.randrange(len(rows)))
            elif k == "dup":
                c = list(row)
                if r.random() < 0.7 and len(c) == 7:
                    c[0] = str(9 * 10 ** 6 + r.randint(0, 999))
                rows.append(c)
            elif k == "zone":
                row[5] = str(r.choice([-1, 0, 1, 2, n, n + 1, n + 7]))
            elif k == "type":
                row[4] = r.choice(["CBD", "P", "SC"])
            elif k == "badtype":
                row[4] = r.choice(["cbd", "p", "sc", "X", "PP", "S", "C", "0", "CBDx"])
            elif k == "dupid":
                row[0] = r.choice(ok_rows)[0]
            elif k == "badid":
                row[0] = r.choice(["a", "1.5", "1a", "x1", "id", "--1"])
            elif k == "badzone":
                row[5] = r.choice(["a", "1.0", "0.5", "z1", "-"])
            elif k == "cols":
                if r.random() < 0.5:
                    row.pop(r.randrange(7))
                else:
                    row.insert(r.randrange(8), r.choice(["7", "x", "1.5"]))
            elif k == "declared":
                declared = len(rows) + r.randint(1, 3)
                trailing = r.random() < 0.5
            elif k == "width":
                row[6] = r.choice(["-1", "-0.001", "-1e-9", "-1e-15", "-5e-324", "-1e6"])
            elif k == "cbdzone":
                for x in rows:
                    if len(x) == 7 and x[4] == "CBD":
                        x[5] = str(r.choice([-1, 1, n, n + 1]))
            elif k == "format":
                fmt = r.choice([None, "PAJEK", 1, 2, Fmt()])
                kinds.append("fmt:%r" % (fmt,) if not isinstance(fmt, Fmt) else "fmt:obj")
                fmt = (fmt,)
            elif k == "swapzone" and len(ok_rows) > 1:
                a, b = r.sample(ok_rows, 2)
                a[5], b[5] = b[5], a[5]
            elif k == "nohead":
                declared = -1
            cx.count("k_" + k)
            kinds.append(k)
    blank = r.random() < 0.05 and not kinds and len(rows) > 0
    text = "c1\nc2\n\n"
    d = len(rows) if declared is None else declared
    if d >= 0:
        text += "*vertices %d\n" % d
    lines = [" ".join(x) for x in rows]
    if blank:
        lines.insert(r.randrange(len(lines) + 1), r.choice(["", " ", "\t"]))
    text += "\n".join(lines) + ("\n" if trailing else "")
    cx.desc = {"text": text, "corrupted": kinds}
    cx.shape(text, repr(fmt))
    v = rows_valid(rows, d) if d >= 0 else False
    if fmt is not None:
        v = False
    if v is None:
        cx.nontrivial = False
        cx.count("outside_domain")
        return
    path = None
    if r.random() < 0.4:
        path = os.path.join(cx.tmp, "c4.net")
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(text)
        cx.count("via_file")
    fa = fmt if fmt is not None else (GraphContentFormat.PAJEK,) if r.random() < 0.5 else ()
    build = (lambda: Graph.build_from_file(path, *fa)) if path else (lambda: Graph.build_from_content(text, *fa))
    if v and blank:                            # read completely or refused, nothing in between
        cx.count("blank_lines")
        try:
            check_structure(build(), (len(rows) - 1) // 2)
        except SIDERMITException:
            pass
    elif v:
        check_structure(build(), (len(rows) - 1) // 2)
        cx.count("accepted_rows")
    else:
        expect_refusal(build, "a malformed city description", corrupted=kinds, text=text)
        cx.count("refused_rows")


def case(cx):
    if cx.rng.random() < 0.4:
        params_case(cx)
    else:
        rows_case(cx)
