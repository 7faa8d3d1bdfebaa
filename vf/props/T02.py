from vf import gen
from vf.cityobs import expect_refusal, snapshot
from vf.common import fail, require
from vf.netobs import mode_value, on_streets, seqs, spec_seqs

CASES = {"quick": 25000, "thorough": 250000}
RULE = ("histories of up to 40, rarely 300, operations over one network (add/remove routes and modes, refused ones included: duplicate id, duplicate mode name, third "
        "mode, no single-line mode, missing street, foreign objects) or one mode registry, registered modes being renamed in between; complete state compared with a shadow after every operation; "
        "distinct by city ids and operation sequence; non-trivial: at least one removal or refusal")
MUST_SEE = ["route_added", "route_refused", "route_removed", "mode_added", "mode_refused", "mode_removed_with_routes", "mode_removed", "unknown_removed",
            "manager_ops", "observations", "mode_registered_by_route", "duplicate_id", "third_mode", "duplicate_mode_name", "no_single_line", "renamed", "lines_changed", "same_object_again", "refused_offered_again", "removed_added_again", "hundreds_of_lines"]


def lookup_refused(fn, what):
    expect_refusal(fn, what)


def network_case(cx):
    from sidermit.publictransportsystem import Route, TransportNetwork
    r = cx.rng
    city = gen.make_city(r, 1, 4)
    ref = city.ref
    before = snapshot(city.graph)
    net = TransportNetwork(city.graph)
    pool = [gen.gen_mode(r, nm, d) for nm, d in (("bus", 4), ("metro", 1), ("bus", 1), ("tram", r.choice([1, 2])), ("x", 3))]
    objs = [gen.lib_mode(m) for m in pool]
    values = [mode_value(o) for o in objs]
    refused, gone = [], []               # routes refused for a missing street; removed ones
    routes, modes, ops = [], [], []      # [(lib, RefRoute)], [pool index]
    graveyard = []

    def mode_ok(k):
        if k in modes:
            return True
        if len(modes) >= 2:
            return False
        if any(pool[j].name == pool[k].name for j in modes):
            return False
        return not modes or pool[k].d == 1 or pool[modes[0]].d == 1

    def why(k):
        if len(modes) >= 2:
            cx.count("third_mode")
        elif any(pool[j].name == pool[k].name for j in modes):
            cx.count("duplicate_mode_name")
        else:
            cx.count("no_single_line")

    def observe():
        what = repr(ops[-1]) if ops else "construction"
        got = list(net.get_routes())
        require(len(got) == len(routes) and all(a is b for a, (b, _) in zip(got, routes)), "routes differ from those added and not removed after: " + what,
                got=[x.id for x in got], expected=[x.id for x, _ in routes], ops=ops[-8:])
        for lib, rr in routes:
            require(net.get_route(lib.id) is lib, "lookup by id returns another route after: " + what, id=lib.id, ops=ops[-8:])
            require(seqs(lib) == spec_seqs(rr) and lib.mode is objs[rr.m] and lib.id == rr.id, "a route changed after: " + what, id=rr.id)
        gm = list(net.get_modes())
        require(len(gm) == len(modes) and all(any(x is objs[k] for x in gm) for k in modes),
                "modes differ from those added and not removed after: " + what, got=[m.name for m in gm], expected=[pool[k].name for k in modes], ops=ops[-8:])
        for g in graveyard[-3:]:
            if all(x.id != g for x, _ in routes):
                lookup_refused(lambda: net.get_route(g), "lookup of a removed route")
        cx.count("observations")

    def new_route(k):
        rid = r.choice(["r%d" % r.randint(0, 5), "%d" % r.randint(0, 30), r.randint(0, 12)])
        if r.random() < 0.4:
            fam, rs = gen.family(r, net, objs[k], ref.n)
            if rs:
                x = r.choice(rs)
                return x, gen.ref_of_lib(x, k, fam == "circular")
        rr = None
        while rr is None:
            rr = gen.custom_route(r, ref, rid, k)
        return gen.lib_route(rr, objs[k]), rr

    if r.random() < 0.004:                       # start from a network of more than a hundred lines
        for i in range(r.randint(100, 220)):
            k = r.choice(modes) if modes and r.random() < 0.5 else r.randrange(len(objs))
            rr = gen.custom_route(r, ref, "many%d" % i, k) if mode_ok(k) else None
            if rr is not None:
                lib = gen.lib_route(rr, objs[k])
                net.add_route(lib)
                routes.append((lib, rr))
                modes += [] if k in modes else [k]
        ops.append(("many", len(routes)))
        cx.count("hundreds_of_lines", len(routes) > 100)
    observe()
    for step in range(r.choice([4, 10, 20, 40]) if r.random() < 0.997 else 250):
        x = r.random()
        if x < 0.5 or not routes and x < 0.7:
            k = r.choice(modes) if modes and r.random() < 0.6 else r.randrange(len(objs))
            y = r.random()
            if y < 0.06 and routes:                    # the very object that is there already
                lib, rr = r.choice(routes)
                k = rr.m
                cx.count("same_object_again")
            elif y < 0.16 and refused:                 # refused before, as it was or the other way round
                lib, rr = r.choice(refused)
                k = rr.m
                y = r.random()
                if y < 0.7:
                    seq = [rr.nr, rr.ni, rr.sr, rr.si] if y < 0.3 else [q[::-1] for q in (rr.ni, rr.nr, rr.si, rr.sr)]
                    rr = type(rr)("back%d" % step, k, *seq)
                    lib = gen.lib_route(rr, objs[k])
                y = 0.1
                cx.count("refused_offered_again")
            elif y < 0.2 and gone:                     # removed before
                lib, rr = r.choice(gone)
                k = rr.m
                cx.count("removed_added_again")
            else:
                lib, rr = new_route(k)
            if y >= 0.2 and r.random() < 0.15 and ref.n >= 2:       # a pair of nodes that is no street
                a, b = r.sample(ref.order, 2)
                if (a, b) not in ref.streets:
                    rr = type(rr)(rr.id, k, [a, b], [b, a], [a, b], [b, a])
                    lib = gen.lib_route(rr, objs[k])
            dup = any(q.id == rr.id for _, q in routes)
            ok = not dup and mode_ok(k) and on_streets(ref, rr.ni) and on_streets(ref, rr.nr)
            ops.append(("add_route", rr.id, k, rr.ni, ok))
            if ok:
                if k not in modes:
                    modes.append(k)
                    cx.count("mode_registered_by_route")
                net.add_route(lib)
                routes.append((lib, rr))
                cx.count("route_added")
            else:
                expect_refusal(lambda: net.add_route(lib), "a route that must be refused", route=rr.spec(), ops=ops[-8:])
                cx.count("route_refused")
                if not (on_streets(ref, rr.ni) and on_streets(ref, rr.nr)):
                    refused.append((lib, rr))
                if dup:
                    cx.count("duplicate_id")
                elif not mode_ok(k):
                    why(k)
        elif x < 0.62 and routes:
            lib, rr = r.choice(routes)
            ops.append(("remove_route", rr.id))
            net.remove_route(rr.id)
            routes = [y for y in routes if y[0] is not lib]
            graveyard.append(rr.id)
            gone.append((lib, rr))
            cx.count("route_removed")
        elif x < 0.68:
            u = r.choice(["nope", None, -5, 999] + graveyard)
            if all(q.id != u for _, q in routes):
                ops.append(("remove_unknown", u))
                expect_refusal(lambda: net.remove_route(u), "removal of an unknown route", id=u)
                cx.count("unknown_removed")
        elif x < 0.82:
            k = r.randrange(len(objs))
            ok = mode_ok(k)
            ops.append(("add_mode", k, ok))
            if ok:
                net.add_transport_mode(objs[k])
                if k not in modes:
                    modes.append(k)
                cx.count("mode_added")
            else:
                expect_refusal(lambda: net.add_transport_mode(objs[k]), "a mode that must be refused", mode=tuple(pool[k]), ops=ops[-8:])
                cx.count("mode_refused")
                why(k)
        elif x < 0.93:
            if modes and r.random() < 0.85:
                k = r.choice(modes)
                had = any(q.m == k for _, q in routes)
                ops.append(("remove_mode", k))
                net.remove_transport_mode(objs[k])
                graveyard += [q.id for _, q in routes if q.m == k]
                routes = [y for y in routes if y[1].m != k]
                modes.remove(k)
                cx.count("mode_removed_with_routes" if had else "mode_removed")
            else:
                free = [k for k in range(len(objs)) if k not in modes]
                k = r.choice(free)
                ops.append(("remove_absent_mode", k))
                from sidermit.exceptions import SIDERMITException
                try:
                    net.remove_transport_mode(objs[k])
                except SIDERMITException:
                    pass
        elif x < 0.96 and modes:
            k = r.choice(modes)
            pool[k] = pool[k]._replace(name=r.choice([n for n in ("bus", "metro", "tram", "x", "late", "b") if all(pool[j].name != n for j in modes)]))
            objs[k].name = pool[k].name
            values[k] = mode_value(objs[k])
            ops.append(("rename", k, pool[k].name))
            cx.count("renamed")
        else:
            bad = r.choice([None, "route", 5])
            ops.append(("foreign", repr(bad)))
            if r.random() < 0.5:
                expect_refusal(lambda: net.add_route(bad), "a foreign object as route")
                cx.count("route_refused")
            else:
                expect_refusal(lambda: net.add_transport_mode(bad), "a foreign object as mode")
                cx.count("mode_refused")
        observe()
    require(snapshot(city.graph) == before, "editing the network changed the city")
    require([mode_value(o) for o in objs] == values, "editing the network changed a mode")
    cx.desc = {"city": city.desc, "modes": [tuple(m) for m in pool], "operations": ops}
    cx.shape("net", tuple(ref.order), repr(ops))
    cx.nontrivial = any(o[0].startswith("remove") or o[-1] is False for o in ops)


def manager_case(cx):
    from sidermit.publictransportsystem import TransportModeManager
    r = cx.rng
    pool = [gen.lib_mode(gen.gen_mode(r, nm, r.choice([1, 2, 3]))) for nm in ("bus", "metro", "bus", "tram", "a", "ab")]
    default = r.random() < 0.5
    man = TransportModeManager() if default and r.random() < 0.5 else TransportModeManager(default)
    other = TransportModeManager(default)
    shadow = list(man.get_modes())
    if default:
        require([m.name for m in shadow] == ["bus", "metro"], "default registry does not hold bus and metro")
    else:
        require(shadow == [], "empty registry is not empty")
    ops = [("new", default)]
    names = ["bus", "metro", "tram", "a", "ab", "zz", "late", "b"]
    for step in range(r.choice([4, 10, 30]) if r.random() < 0.997 else 300):
        cx.count("manager_ops")
        x = r.random()
        if x < 0.45:
            m = r.choice(pool)
            ok = all(q.name != m.name for q in shadow)
            ops.append(("add", m.name, m.d, ok))
            if ok:
                man.add_mode(m)
                shadow.append(m)
            else:
                expect_refusal(lambda: man.add_mode(m), "a second mode of the same name")
        elif x < 0.85:
            nm = r.choice(names)
            ok = any(q.name == nm for q in shadow)
            ops.append(("remove", nm, ok))
            if ok:
                man.remove_mode(nm)
                shadow = [q for q in shadow if q.name != nm]
            else:
                expect_refusal(lambda: man.remove_mode(nm), "removal of an unknown mode")
        elif x < 0.95 and shadow:                          # modes stay editable after they are registered
            m = r.choice(shadow)
            if r.random() < 0.7:
                free = [n for n in names if all(q.name != n for q in shadow)]
                nm = r.choice(free)
                ops.append(("rename", m.name, nm))
                m.name = nm
                cx.count("renamed")
            else:
                m.d = r.choice([1, 2, 3])
                ops.append(("lines", m.name, m.d))
                cx.count("lines_changed")
        else:
            ops.append(("foreign", False))
            expect_refusal(lambda: man.add_mode(r.choice([None, "bus", 3])), "a foreign object as mode")
        got = list(man.get_modes())
        require(len(got) == len(shadow) and all(any(a is b for b in got) for a in shadow), "registry differs from modes added and not removed",
                got=[m.name for m in got], expected=[m.name for m in shadow], ops=ops)
        require(sorted(man.get_modes_names()) == sorted(m.name for m in shadow), "names differ from the modes", got=man.get_modes_names(), ops=ops)
        for nm in names:
            w = [m for m in shadow if m.name == nm]
            if w:
                require(man.get_mode(nm) is w[0], "lookup by name returns another mode", name=nm, ops=ops)
            else:
                expect_refusal(lambda: man.get_mode(nm), "lookup of an unknown mode")
        okas = len(shadow) == 1 or (len(shadow) == 2 and any(m.d == 1 for m in shadow))
        if okas:
            require(man.is_valid_to_assignment_step() is True, "valid set of modes reported invalid", modes=[(m.name, m.d) for m in shadow])
        else:
            expect_refusal(man.is_valid_to_assignment_step, "an invalid set of modes", modes=[(m.name, m.d) for m in shadow])
        cx.count("observations")
    require([m.name for m in other.get_modes()] == (["bus", "metro"] if default else []), "editing one registry changed another")
    cx.desc = {"operations": ops}
    cx.shape("manager", repr(ops))
    cx.nontrivial = any(o[-1] is False or o[0] == "remove" for o in ops)


def case(cx):
    if cx.rng.random() < 0.25:
        manager_case(cx)
    else:
        network_case(cx)
