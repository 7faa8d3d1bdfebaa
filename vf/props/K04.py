from vf import gen
from vf.common import close, fail, req_close, require
from vf.pipe import Pipe, lib_table
from vf.ref import street_excess

CASES = {"quick": 2500, "thorough": 25000}
RULE = ("constraint entries of one network per case for arbitrary loads and frequency tables, entry by entry, and the vector of a constructed optimiser against the same "
        "reference; distinct by city ids, routes and frequencies; non-trivial: streets are used")
MUST_SEE = ["at_the_limit", "capacity_entries", "street_entries", "exceeded_capacity", "exceeded_street", "feasible", "infeasible", "optimiser_vectors", "several_routes_on_a_street",
            "parallel_lines", "circular", "zero_frequency"]


def edges_of(graph):
    return [(int(e.node1.id), int(e.node2.id)) for e in graph.get_edges()]


def check_street(cx, ins, got, f, modeidx, where):
    """got: flat list in the order streets x modes."""
    es = edges_of(ins.city.graph)
    want = street_excess(ins.city.ref, ins.net.routes, ins.modes, f)
    require(len(got) == len(es) * len(modeidx), "number of street constraints", got=len(got), expected=len(es) * len(modeidx), by=where)
    it = iter(got)
    for e in es:
        for m in modeidx:
            g, w = next(it), want[(e[0], e[1], m)]
            req_close(g, w, "street frequency constraint", 1e-9, 1e-9, street=e, mode=m, by=where, frequencies=f)
            cx.count("street_entries")
            cx.count("exceeded_street", w > 0)
    return [want[(e[0], e[1], m)] for e in es for m in modeidx]


def lib_fmax(libs, i):
    return [x.mode.fmax for x in libs if x.id == i][0]


def case(cx):
    from sidermit.optimization import Constrains
    from sidermit.optimization.optimizer import Optimizer
    r = cx.rng
    ins = gen.make_instance(r, 1, 5, max_routes=10, zeros=r.choice([0, 0.1, 0.3]))
    nt = ins.net
    libs = list(nt.net.get_routes())
    cx.desc = gen.describe(ins)
    cx.shape(tuple(ins.city.ref.order), repr([q.spec() for q in nt.routes]), repr(sorted(ins.f.items(), key=str)), repr(sorted(ins.trips.items())))
    names = {id(m): i for i, m in enumerate(nt.mode_objs)}
    lm = list(nt.net.get_modes())
    idx = [names[id(m)] for m in lm]
    require(len(set(idx)) == len(idx) and set(idx) >= {q.m for q in nt.routes}, "modes of the network")
    use = {}
    for q in nt.routes:
        cx.count("circular", q.circular)
        for s in (q.ni, q.nr):
            for e in set(zip(s, s[1:])):
                use.setdefault((q.m, e), set()).add(q.id)
    cx.count("several_routes_on_a_street", any(len(v) > 1 for v in use.values()))
    cx.count("parallel_lines", any(ins.modes[q.m].d > 1 for q in nt.routes))
    for _ in range(r.randint(1, 3)):
        f = gen.gen_freq(r, nt.routes, zeros=0.3, lo=0.05, hi=r.choice([20, 150, 600]))
        if r.random() < 0.15:                    # a street at its limit, or a hair from it
            q = r.choice(nt.routes)
            f[q.id] = lib_fmax(libs, q.id) * (1 + r.choice([0, r.uniform(-1, 1) * 10 ** r.uniform(-9, -2)]))
            cx.count("at_the_limit")
        cx.count("zero_frequency", any(v == 0 for v in f.values()))
        ml = {q.id: (ins.modes[q.m].kmax + r.uniform(-1, 1) * 10 ** r.uniform(-9, -1) if ins.modes[q.m].kmax >= 1 and r.random() < 0.1 else 0 if r.random() < 0.15 else ins.modes[q.m].kmax if r.random() < 0.1 else gen.num(r, 0, 2500)) for q in nt.routes}
        sub = {i: v for i, v in ml.items() if v or r.random() < 0.5}          # routes without passengers may be absent
        order = list(range(len(libs)))
        if r.random() < 0.3:
            r.shuffle(order)
        kc = Constrains.most_loaded_section_constrains([libs[i] for i in order], gen.ddict(sub))
        require(len(kc) == len(libs), "number of capacity constraints", got=len(kc), expected=len(libs))
        for g, i in zip(kc, order):
            q = nt.routes[i]
            req_close(g, ml[q.id] - ins.modes[q.m].kmax, "capacity constraint", 1e-12, 1e-12, route=q.id)
            cx.count("capacity_entries")
            cx.count("exceeded_capacity", g > 0)
        ms = list(range(len(lm)))
        if r.random() < 0.3:
            r.shuffle(ms)
        fl = gen.ddict(f)
        fc = Constrains.fmax_constrains(ins.city.graph, [libs[i] for i in order], [lm[i] for i in ms], fl)
        check_street(cx, ins, list(fc), f, [idx[i] for i in ms], "constraint function")
    # the vector of an optimiser built for the same problem
    P = Pipe(ins)
    opt = Optimizer(ins.city.graph, ins.demand, P.lib_pax, nt.net, gen.ddict(ins.f))
    n = None
    for _ in range(r.randint(1, 3)):
        f = dict(ins.f) if r.random() < 0.3 else P.other_freq(r)
        W = P.flows(f)
        _, _, load = W.per_vehicle()
        vec = [f[q.id] for q in nt.routes]
        got = list(opt.get_constrains(vec))
        require(opt.len_constrains == len(got) and (n is None or n == len(got)), "length of the constraint vector changes", got=len(got), expected=opt.len_constrains)
        n = len(got)
        wk = [max([v for k, v in load.items() if k[0] == q.id] or [0]) - ins.modes[q.m].kmax for q in nt.routes]
        scale = max(abs(a) for a in wk) + max(list(load.values()) or [0])
        require(len(got) >= len(wk), "constraint vector is too short")
        for g, w, q in zip(got, wk, nt.routes):
            req_close(g, w, "capacity entry of the optimiser", 1e-8, 1e-9 * scale, route=q.id, frequencies=f)
            cx.count("capacity_entries")
            cx.count("exceeded_capacity", w > 0)
        ws = check_street(cx, ins, got[len(wk):], f, idx, "optimiser")
        feas = all(w <= 0 for w in wk + ws)
        if all(abs(w) > 1e-6 * (1 + abs(scale)) for w in wk + ws):
            require(feas == all(g <= 0 for g in got), "feasibility differs", frequencies=f)
        cx.count("feasible" if feas else "infeasible")
        from sidermit.optimization.preoptimization import Assignment
        fl = gen.ddict(f)
        _, _, lt = Assignment.get_alighting_and_boarding(opt.Vij, opt.hyperpaths, opt.successors, opt.assignment, fl)
        ik, i_f = opt.constrains(lt, fl)
        for g, w in zip(list(ik) + list(i_f), got):
            req_close(g, w, "the two constraint queries of the optimiser differ", 1e-12, 1e-12)
        require(len(ik) == len(wk) and len(i_f) == len(ws), "sizes of the two constraint groups")
        cx.count("optimiser_vectors")
    cx.nontrivial = bool(use)
