"""Also run as a program: the second process of the cross-process comparison (see child())."""
import json
import os
import random
import subprocess
import sys

from vf import gen
from vf.cityobs import snapshot
from vf.common import close, fail, req_close, require
from vf.netobs import mode_value, net_value, pax_value
from vf.pipe import Costs, Pipe, read_strategies
from vf.ref import street_excess
from vf.xobs import XObs

CASES = {"quick": 1200, "thorough": 15000}
RULE = ("one optimiser per case with an interleaved history of objective and constraint evaluations on several frequency vectors (lists, tuples, arrays), each compared "
        "with an independent recomputation and with its own earlier answers; inputs compared before and after; a second optimiser built from equal inputs, for some "
        "cases in another process with another hash seed; distinct by routes, frequencies and trips; non-trivial: the objective was evaluated")
MUST_SEE = ["evaluations", "repeated", "constraint_evaluations", "default_frequency", "given_frequency", "second_optimiser", "other_process", "zero_components", "arrays", "optimisers_interleaved", "partial_table", "finite_difference_steps"]


def inputs(seed):
    """The same problem every time for the same seed."""
    r = random.Random(seed)
    mode = r.choice(["given", "given", "default"])
    ins = gen.make_instance(r, 1, 4, max_routes=8, zeros=0 if mode == "default" else r.choice([0, 0.1, 0.2]), freq=mode)
    ins.how = mode
    keep = r.random() < 0.5
    ins.given = {k: v for k, v in ins.f.items() if keep or v}       # lines without frequency may be left out of the table
    return ins


def build(ins):
    from sidermit.optimization.optimizer import Optimizer
    px = gen.lib_pax(ins.pax)
    fl = None if ins.how == "default" else gen.ddict(ins.given)
    return Optimizer(ins.city.graph, ins.demand, px, ins.net.net, fl), px, fl


def vectors(ins, P, n, seed):
    r = random.Random(seed)
    vs = []
    for i in range(n):
        f = dict(ins.f) if i == 0 else P.other_freq(r)
        vs.append([f[q.id] for q in ins.net.routes])
    for v in list(vs):
        if r.random() < 0.5:                                # a vector very near another one is still another vector
            k = r.randrange(len(v))
            w = list(v)
            w[k] = w[k] + r.choice([1e-2, 1e-3, 4e-4, 1e-4, 1e-5, 1e-6, 3e-8, 1.49e-8, 1e-9]) if r.random() < 0.6 else w[k] * (1 + r.choice([1e-3, 1e-4, 1e-5, 1.49e-8, 1e-9]))
            vs.append(w)
    return vs


def child():
    """stdin: JSON list of [seed, [vector, ...]]; stdout: JSON of objective values and constraints."""
    from vf.runner import load_library
    load_library()
    out = []
    for seed, vs in json.load(sys.stdin):
        ins = inputs(seed)
        opt, _, _ = build(ins)
        out.append([[opt.VRC(v), [float(c) for c in opt.get_constrains(v)]] for v in vs])
    json.dump(out, sys.stdout)


def world(ins, px, fl):
    m = ins.demand.get_matrix()
    return (snapshot(ins.city.graph), {a: dict(m[a]) for a in m}, ins.demand.get_total_trips(), pax_value(px), net_value(ins.net.net),
            [mode_value(x) for x in ins.net.mode_objs], dict(fl) if fl is not None else None)


def case(cx):
    import numpy as np
    r = cx.rng
    seed = "O01:%s:%s" % (cx.seed, cx.index)
    ins = inputs(seed)
    cx.desc = dict(gen.describe(ins), frequencies=ins.how)
    cx.shape(tuple(ins.city.ref.order), repr([q.spec() for q in ins.net.routes]), repr(sorted(ins.f.items(), key=str)), repr(sorted(ins.trips.items())))
    cx.count(ins.how + "_frequency")
    px0 = gen.lib_pax(ins.pax)
    fl0 = None if ins.how == "default" else gen.ddict(ins.given)
    cx.count("partial_table", len(ins.given) < len(ins.f))
    before = world(ins, px0, fl0)
    opt, px, fl = build(ins)
    require(world(ins, px, fl) == before, "building an optimiser changed its inputs")
    P = Pipe(ins)
    obs = XObs(opt.extended_graph_obj, ins.net.mode_objs, ins.net.routes)
    trips, share = read_strategies(obs, opt.hyperpaths, opt.successors, opt.assignment, opt.Vij)
    by = {t[:2]: t for t in trips}
    require(set(by) == set(ins.trips), "the optimiser's strategies do not cover the demanded pairs", got=sorted(by), expected=sorted(ins.trips))
    for o, d, start, succ in P.trips:
        g = by[(o, d)]
        require(g[2].keys() == start.keys() and all(close(g[2][s], start[s], 1e-9, 1e-9) for s in start), "start stops or shares are not those of the given frequencies",
                pair=(o, d), got={str(a): b for a, b in g[2].items()}, expected={str(a): b for a, b in start.items()})
        for k in set(succ) | set(g[3]):
            require(set(succ.get(k, [])) == set(g[3].get(k, [])), "strategies are not those of the given frequencies", pair=(o, d), node=k)
    require(opt.len_var == len(ins.net.routes) == len(opt.f_opt), "number of variables")
    for i, q in enumerate(ins.net.routes):
        req_close(opt.f_opt[i], ins.modes[q.m].fini * ins.modes[q.m].d, "initial point", 1e-12, 0, route=q.id)
    vs = vectors(ins, P, r.randint(2, 4), seed + ":v")
    known = {}
    opt2, px2, fl2 = None, None, None
    idx = list(range(len(vs)))
    buf = np.zeros(len(ins.net.routes))
    for step in range(r.randint(4, 12)):
        i = r.choice(idx)
        f = {q.id: x for q, x in zip(ins.net.routes, vs[i])}
        vec = vs[i]
        form = r.random()
        if form < 0.2:
            buf[:] = vec                                    # one array object whose content changes between evaluations
            vec = buf
            cx.count("arrays")
        elif form < 0.4:
            vec = np.array(vec)
            cx.count("arrays")
        elif form < 0.5:
            vec = tuple(vec)
        keep = list(vs[i])
        o = opt
        if opt2 is not None and r.random() < 0.5:
            o = opt2
            cx.count("optimisers_interleaved")
        ff = o.fopt_to_f(vec)
        require(set(ff) == set(f) and all(ff[a] == f[a] for a in f), "positions of the vector belong to other routes", got=dict(ff), expected=f)
        cx.count("zero_components", any(x == 0 for x in keep))
        if r.random() < 0.6:
            C = Costs(ins, trips, share, f)
            got = o.VRC(vec)
            req_close(got, C.vrc, "objective", 1e-7, 1e-7, frequencies=f, operators=C.CO, infrastructure=C.CI, users=C.CU)
            key = ("v", i)
            cx.count("evaluations")
            got = float(got)
        else:
            got = tuple(float(c) for c in o.get_constrains(vec))
            key = ("c", i)
            require(len(got) == o.len_constrains, "length of the constraint vector", got=len(got), expected=o.len_constrains)
            C = Costs(ins, trips, share, f)
            scale = max([1.0] + list(C.k.values()))
            for g, q in zip(got, ins.net.routes):
                req_close(g, C.k[q.id] - ins.modes[q.m].kmax, "capacity constraint", 1e-8, 1e-9 * scale, route=q.id)
            want = sorted(street_excess(ins.city.ref, ins.net.routes, ins.modes, f).items())
            used = {q.m for q in ins.net.routes}
            w = sorted(x for (a, b, m), x in want if m in used)
            req_close(sum(sorted(got[len(ins.net.routes):])), sum(w), "sum of street constraints", 1e-8, 1e-6)
            cx.count("constraint_evaluations")
        if key in known:
            same = close(known[key], got, 1e-12, 1e-12) if key[0] == "v" else len(known[key]) == len(got) and all(close(a, b, 1e-12, 1e-12) for a, b in zip(known[key], got))
            require(same, "the same evaluation gives another answer later", vector=keep, first=known[key], now=got)
            cx.count("repeated")
        known[key] = got
        require(list(vec) == keep, "evaluating changed the frequency vector", got=list(vec), expected=keep)
        if opt2 is None and r.random() < 0.4:
            if r.random() < 0.5:
                ins2 = inputs(seed)                         # equal inputs, other objects
                opt2, px2, fl2 = build(ins2)
            else:
                opt2, px2, fl2 = build(ins)                 # the same objects again
            cx.count("second_optimiser")
    if r.random() < 0.3:                                    # steps of a finite difference, there and back
        v = vs[0]
        near = []
        for k in r.sample(range(len(v)), min(2, len(v))):
            w = list(v)
            w[k] += 1.49e-8 * max(1.0, abs(w[k]) if r.random() < 0.5 else 1.0)
            near.append(w)
        first = [(list(w), float(opt.VRC(w)), [float(c) for c in opt.get_constrains(w)]) for w in near]
        opt.VRC(v)
        opt.get_constrains(v)
        for w, a, b in first[::-1] + first:
            opt.get_constrains(v)
            require(close(float(opt.VRC(w)), a, 1e-12, 1e-12), "the objective of a vector depends on the vector evaluated before it", vector=w, first=a)
            opt.VRC(v)
            require(all(close(float(x), y, 1e-12, 1e-12) for x, y in zip(opt.get_constrains(w), b)), "the constraints of a vector depend on the vector evaluated before it", vector=w, first=b)
        cx.count("finite_difference_steps", len(near))
    f = {q.id: x for q, x in zip(ins.net.routes, vs[0])}
    require(world(ins, px, fl) == before, "evaluating changed the inputs of the optimiser")
    if cx.index % 60 == 7:
        jobs = []
        for j in range(12):
            s = "%s:%d" % (seed, j)
            i2 = inputs(s)
            jobs.append((s, i2, vectors(i2, Pipe(i2), 2, s)))
        env = dict(os.environ, PYTHONHASHSEED=str(r.randint(1, 10 ** 6)), VERIF_REPO=os.path.realpath(os.environ.get("VERIF_REPO", "/repo")))
        env["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        for n in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
            env[n] = "1"
        p = subprocess.run([sys.executable, "-c", "from vf.props import O01; O01.child()"], input=json.dumps([(s, v) for s, _, v in jobs]), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, timeout=240, text=True)
        require(p.returncode == 0, "the same problem fails in another process", stderr=p.stderr[-1500:])
        res = json.loads(p.stdout)
        for (s, i2, v2), rs in zip(jobs, res):
            o2, _, _ = build(i2)
            for v, (val, con) in zip(v2, rs):
                req_close(o2.VRC(v), val, "another process computes another objective for equal inputs", 1e-9, 1e-9, seed=s, vector=v)
                require(all(close(a, b, 1e-9, 1e-9) for a, b in zip(o2.get_constrains(v), con)), "another process computes other constraints for equal inputs", seed=s)
            cx.count("other_process")
