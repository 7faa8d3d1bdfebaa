#!/opt/venv/bin/python
"""Self-validation, not a check: plants small syntactic changes in a scratch copy of the repository, keeps
those the repository's own tests let through and reports which of the checks notices each of them.

  mutate.py [--files a.py,b.py] [--workers 4] [--sample N] [--seed S] [--out FILE]

Works in /tmp/vf_mutate only (removed at the end).
"""
import argparse, ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading, queue

PY = "/opt/venv/bin/python"
BASE = "/tmp/vf_mutate"
MAP = {
    "city/graph.py": ["C01", "C02", "C03", "C04", "V01"],
    "city/demand.py": ["D01", "D02", "D03"],
    "publictransportsystem/mode.py": ["T01", "T02"],
    "publictransportsystem/passenger.py": ["T01"],
    "publictransportsystem/network.py": ["T03", "T02", "T04", "T05", "V01"],
    "optimization/preoptimization/extended_graph.py": ["X01", "H01", "R01"],
    "optimization/preoptimization/hyper_path.py": ["H02", "H01", "R01", "V01"],
    "optimization/preoptimization/assignment.py": ["A01", "A02", "R01"],
    "optimization/users_cost.py": ["K01"],
    "optimization/operators_cost.py": ["K02"],
    "optimization/infrastructure_cost.py": ["K03"],
    "optimization/constrains.py": ["K04"],
    "optimization/optimizer.py": ["O03", "O02", "O01", "K04", "R01"],
}
SKIP_FUNCS = set()
SWAP = [("nodes_sequence_i", "nodes_sequence_r"), ("stops_sequence_i", "stops_sequence_r"),
        ("node_sequence_i", "node_sequence_r"), ("nodei", "nodej"), ("node1", "node2"), ("stop1", "stop2"),
        ("z", "v"), ("c0", "c1"), ("co", "c1"), ("spa", "spv"), ("pa", "pv"), ("pw", "pa"), ("labels", "labels_inf"),
        ("nodes_i", "nodes_r"), ("origin", "destination"), ("periphery", "subcenter"), ("id_p", "id_sc"),
        ("id_sc", "id_sc2"), ("id_p", "id_p2"), ("x", "y"), ("total_b", "total_pax"), ("f", "k"), ("ta", "te"),
        ("te", "tv"), ("alpha", "beta"), ("y_p", "y_sc"), ("i", "j"), ("charge_i", "charge_r"),
        ("sub_table_i", "sub_table_r"), ("x_prev", "x_final"), ("edge_t", "edge_b_t"), ("fini", "fmax"),
        ("width", "radius"), ("l", "g"), ("p", "n")]
SW = {}
for a, b in SWAP:
    SW.setdefault(a, []).append(b)
    SW.setdefault(b, []).append(a)
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="],
       ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Mod: ["*"], ast.Pow: ["*"]}


def seg(src, lines, node):
    return ast.get_source_segment(src, node)


def mutants(src):
    tree = ast.parse(src)
    offs = [0]
    for l in src.encode().splitlines(True):
        offs.append(offs[-1] + len(l))
    b = src.encode()

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def rep(n, text, kind):
        s, e = pos(n)
        out.append((n.lineno, kind, b[s:e].decode(), text, s, e))

    def txt(n):
        s, e = pos(n)
        return b[s:e].decode()

    def walk(n, infn, parent):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in SKIP_FUNCS:
                return
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for c in body:
                walk(c, True, n)
            return
        if isinstance(n, ast.Raise):
            return
        if infn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []):
                    rep(n, "{} {} {}".format(txt(n.left), o, txt(n.comparators[0])), "cmp")
            if isinstance(n, ast.BinOp):
                for o in BIN.get(type(n.op), []):
                    rep(n, "({}) {} ({})".format(txt(n.left), o, txt(n.right)), "bin")
                rep(n, txt(n.left), "left")
            if isinstance(n, ast.AugAssign):
                for o in BIN.get(type(n.op), []):
                    rep(n, "{} {}= {}".format(txt(n.target), o, txt(n.value)), "aug")
                rep(n, "{} = {}".format(txt(n.target), txt(n.value)), "augset")
            if isinstance(n, ast.BoolOp):
                o = "or" if isinstance(n.op, ast.And) else "and"
                rep(n, (" %s " % o).join("(" + txt(v) + ")" for v in n.values), "bool")
                for i in range(len(n.values)):
                    rest = [v for k, v in enumerate(n.values) if k != i]
                    rep(n, (" and " if isinstance(n.op, ast.And) else " or ").join("(" + txt(v) + ")" for v in rest), "drop")
            if isinstance(n, ast.If):
                rep(n.test, "True", "iftrue")
                rep(n.test, "False", "iffalse")
            if isinstance(n, ast.Constant):
                if type(n.value) is int:
                    rep(n, str(n.value + 1), "const")
                    if n.value:
                        rep(n, str(n.value - 1), "const")
                elif type(n.value) is float:
                    rep(n, repr(n.value * 2), "const")
                elif n.value in ("I", "R"):
                    rep(n, '"R"' if n.value == "I" else '"I"', "dir")
                elif n.value is True or n.value is False:
                    rep(n, str(not n.value), "const")
            if isinstance(n, (ast.Continue, ast.Break)):
                rep(n, "pass", "del")
            if isinstance(n, (ast.Expr, ast.AugAssign)) or (isinstance(n, ast.Assign)):
                if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    rep(n, "pass", "del")
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for o in SW.get(n.id, []):
                    rep(n, o, "swap")
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                for o in SW.get(n.attr, []):
                    rep(n, txt(n.value) + "." + o, "swap")
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.arguments, ast.arg)):
                continue
            walk(c, infn, n)

    walk(tree, False, None)
    res = []
    seen = set()
    for ln, kind, old, new, s, e in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        if m in seen or m == src:
            continue
        seen.add(m)
        try:
            compile(m, "m", "exec")
        except SyntaxError:
            continue
        res.append((ln, kind, old, new, m))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--files", default=",".join(MAP))
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--out", default="/tmp/mutants.log")
    ap.add_argument("--only", help="re-run the survivors listed in this log")
    a = ap.parse_args()
    shutil.rmtree(BASE, ignore_errors=True)
    os.makedirs(BASE)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    jobs = []
    rng = random.Random(a.seed)
    only = None
    if a.only:
        only = set()
        for l in open(a.only):
            if l.startswith("SURVIVED"):
                d = json.loads(l.split(" ", 1)[1])
                only.add((d["file"], d["line"], d["kind"], d["old"], d["new"]))
    for f in a.files.split(","):
        src = open("/repo/sidermit/" + f).read()
        ms = mutants(src)
        if only is not None:
            ms = [m for m in ms if (f, m[0], m[1], m[2], m[3]) in only]
        if a.sample and len(ms) > a.sample:
            ms = rng.sample(ms, a.sample)
        jobs += [(f, m) for m in ms]
    rng.shuffle(jobs)
    print("mutants", len(jobs), flush=True)
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    lock = threading.Lock()
    out = open(a.out, "w", buffering=1)
    cnt = {}

    def work(w):
        rp = "%s/w%d/repo" % (BASE, w)
        vp = "%s/w%d/verif" % (BASE, w)
        shutil.copytree("/repo", rp, ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(here, vp, ignore=shutil.ignore_patterns(".git", "seeded", "out"))
        env = dict(os.environ, PYTHONPATH=rp, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", VERIF_REPO=rp,
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_SEED="1")
        env.pop("VF_REEXEC", None)
        while True:
            try:
                f, (ln, kind, old, new, m) = q.get_nowait()
            except queue.Empty:
                return
            path = rp + "/sidermit/" + f
            keep = open(path).read()
            open(path, "w").write(m)
            verdict, by = "SURVIVED", None
            try:
                try:
                    r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=rp,
                                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
                    bad = r.returncode != 0
                except subprocess.TimeoutExpired:
                    bad = True
                if bad:
                    verdict = "TESTS"
                else:
                    for p in MAP[f]:
                        try:
                            r = subprocess.run([PY, "check.py", "--property", p, "--jobs", str(a.jobs)], cwd=vp,
                                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                        except subprocess.TimeoutExpired:
                            verdict, by = "TIMEOUT", p
                            break
                        if r.returncode == 1:
                            verdict, by = "CAUGHT", p
                            break
                        if r.returncode != 0:
                            verdict, by = "ERROR", p
                            break
            finally:
                open(path, "w").write(keep)
            with lock:
                cnt[verdict] = cnt.get(verdict, 0) + 1
                out.write("%s %s\n" % (verdict, json.dumps(dict(file=f, line=ln, kind=kind, old=old, new=new, by=by))))

    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(work, range(a.workers)))
    print(cnt)
    shutil.rmtree(BASE, ignore_errors=True)


if __name__ == "__main__":
    main()
