import os

from vf import gen
from vf.cityobs import expect_refusal
from vf.common import req_close, require

CASES = {"quick": 15000, "thorough": 150000}
RULE = ("demand -> file -> (permute rows, reformat numbers) -> demand, and matrix -> demand, over cities with arbitrary ids and extreme cell values; "
        "or one malformation of a file or matrix that must be refused; distinct by content; non-trivial: some trips, or a refusal")
MUST_SEE = ["file_round_trips", "permuted", "matrix_builds", "refused_file", "refused_matrix", "sparse_files", "crlf", "exponents", "blank_lines", "dozens_of_zones"]


def cellv(r):
    k = r.random()
    if k < 0.4:
        return 0
    if k < 0.5:
        return r.randint(1, 10 ** 9)
    if k < 0.6:
        return r.choice([0.1, 1 / 3, 1e-7, 123456789.123456789, 1e16, 5e-324, 2.5, 1e-300])
    return r.uniform(0, 5000)


def cells(dem):
    m = dem.get_matrix()
    return {(int(a), int(b)): m[a][b] for a in m for b in m[a]}


def check(dem, want, what):
    got = cells(dem)
    require(got == want, what + " changed a cell", wrong={str(k): (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)})
    req_close(dem.get_total_trips(), sum(want.values()), what + " changed the total", 1e-9, 1e-9)


def case(cx):
    from sidermit.city import Demand
    from sidermit.exceptions import SIDERMITException
    r = cx.rng
    huge = r.random() < 0.003
    city = gen.make_city(r, 12, 35) if huge else gen.make_city(r, 0 if r.random() < 0.05 else 1, 4)
    cx.count("dozens_of_zones", huge)
    ids = city.ref.order
    g = city.graph
    nodes = [int(x.id) for x in g.get_nodes()]
    want = {(a, b): cellv(r) for a in ids for b in ids}
    cx.nontrivial = any(want.values())
    cx.shape(tuple(ids), repr(sorted(want.items())))
    cx.desc = {"city": city.desc, "cells": {str(k): v for k, v in want.items() if v}}
    path = os.path.join(cx.tmp, "demand.csv")
    mode = r.random()
    if mode < 0.55:
        if r.random() < 0.25:
            dem = Demand.build_from_parameters(g, gen.num(r, 0, 9999), r.random(), 0.5 * r.random(), 0.4 * r.random())
            want = cells(dem)
        else:
            dem = Demand(g)
            ks = list(want)
            r.shuffle(ks)
            for k in ks:
                dem.change_vij(k[0], k[1], want[k])
        for hop in range(r.choice([1, 1, 2])):
            dem.matrix_to_file(path)
            check(dem, want, "writing the file")
            lines = [l for l in open(path, encoding="utf-8").read().split("\n") if l]
            if len(ids):
                require(len(lines) == 1 + len(ids) ** 2, "file does not have one row per cell", rows=len(lines) - 1, cells=len(ids) ** 2)
            body = lines[1:]
            blank = r.random() < 0.06
            if r.random() < 0.6:
                r.shuffle(body)
                cx.count("permuted")
            if r.random() < 0.3:
                body = [l for l in body if float(l.split(",")[2]) != 0]
                cx.count("sparse_files")
            if r.random() < 0.3:
                body = [r.choice(["%s,%s,%s", " %s,%s , %s", "%s, %s,%s "]) % tuple(l.split(",")) for l in body]
            if r.random() < 0.15:
                body = [",".join(x[:2] + ["%.17e" % float(x[2])]) for x in (l.split(",") for l in body)]
                cx.count("exponents")
            p2 = os.path.join(cx.tmp, "in.csv")
            if blank:
                body.insert(r.randrange(len(body) + 1), r.choice(["", "", " ", "\t"]))
            crlf = r.random() < 0.2
            cx.count("crlf", crlf)
            with open(p2, "w", encoding="utf-8", newline="\r\n" if crlf else "\n") as fh:
                fh.write("\n".join([r.choice([lines[0]] * 4 + ["o,d,trips", "origin,destination,vij", "Origen,Destino,Viajes", "demand"])] + body) + ("\n" if r.random() < 0.8 else ""))
            if blank:                                  # read completely or refused, nothing in between
                cx.count("blank_lines")
                try:
                    dem = Demand.build_from_file(g, p2)
                except SIDERMITException:
                    return
            else:
                dem = Demand.build_from_file(g, p2)
            check(dem, want, "the file round trip")
            cx.count("file_round_trips")
    elif mode < 0.7:
        mat = [[want[(a, b)] for b in nodes] for a in nodes]
        dem = Demand.build_from_content(g, mat)
        check(dem, want, "building from a matrix")
        require(mat == [[want[(a, b)] for b in nodes] for a in nodes], "building from a matrix changed the given matrix")
        cx.count("matrix_builds")
        if r.random() < 0.5:
            dem.matrix_to_file(path)
            check(Demand.build_from_file(g, path), want, "the file round trip of a matrix demand")
    elif mode < 0.88:
        rows = ["%d,%d,%r" % (a, b, v) for (a, b), v in want.items()]
        i = r.randrange(len(rows))
        a, b, v = rows[i].split(",")
        k = r.choice(["missing", "extra", "semicolon", "float_id", "text_id", "empty_id", "unknown_o", "unknown_d", "negative", "text_v", "empty_v"])
        rows[i] = {"missing": "%s,%s" % (a, b), "extra": "%s,%s,%s,%s" % (a, b, v, r.choice(["1", ""])), "semicolon": "%s;%s;%s" % (a, b, v),
                   "float_id": r.choice(["%s.5,%s,%s", "%s.0,%s,%s"]) % (a, b, v), "text_id": r.choice(["x%s,%s,%s" % (a, b, v), "%s,P_%s,%s" % (a, b, v)]),
                   "empty_id": r.choice([",%s,%s" % (b, v), "%s,,%s" % (a, v)]), "unknown_o": "%d,%s,%s" % (max(ids) + 1, b, v),
                   "unknown_d": "%s,%d,%s" % (a, max(ids) + r.randint(1, 50), v), "negative": "%s,%s,%s" % (a, b, r.choice(["-1", "-0.001", "-1e-9", "-1e-15", "-5e-324", "-1e9"])),
                   "text_v": "%s,%s,%s" % (a, b, r.choice(["many", "1 2", "--"])), "empty_v": "%s,%s," % (a, b)}[k]
        cx.shape(k, i)
        cx.desc["malformed"] = (k, rows[i])
        with open(path, "w", encoding="utf-8") as fh:
            fh.write("\n".join(["origin,destination,vij"] + rows) + "\n")
        expect_refusal(lambda: Demand.build_from_file(g, path), "a demand file with a %s row" % k, row=rows[i])
        cx.count("refused_file")
        cx.nontrivial = True
    else:
        mat = [[want[(a, b)] for b in nodes] for a in nodes]
        k = r.choice(["rows-", "rows+", "cols-", "cols+", "negative", "empty"])
        i = r.randrange(len(mat))
        if k == "rows-":
            del mat[i]
        elif k == "rows+":
            mat.append(list(mat[0]))
        elif k == "cols-":
            mat[i] = mat[i][:-1]
        elif k == "cols+":
            mat[i] = mat[i] + [0]
        elif k == "negative":
            mat[i][r.randrange(len(mat))] = -r.choice([1e-12, 1, 50, 1e-15, 5e-324, 1e9])
        else:
            mat = []
        cx.shape(k, i)
        cx.desc["malformed"] = k
        expect_refusal(lambda: Demand.build_from_content(g, mat), "a demand matrix with fault %s" % k)
        cx.count("refused_matrix")
        cx.nontrivial = True
