from vf import gen
from vf.cityobs import expect_refusal, snapshot
from vf.common import fail, require
from vf.netobs import net_value, on_streets, seqs, valid_route

CASES = {"quick": 50000, "thorough": 500000}
RULE = ("a valid custom route on a generated city, altered by 0-2 edits (drop or duplicate a node, other stop, node of the other direction, foreign or missing "
        "street in one direction only, reversed direction, empty or missing sequence, no id, no mode, malformed text); acceptance by constructor and by "
        "network compared with the documented condition; distinct by city ids, sequences and edits; non-trivial: every case")
MUST_SEE = ["accepted", "refused_route", "refused_network", "bad_street_forward_only", "bad_street_return_only", "bad_text", "unordered_stops", "repeated_stops", "negative", "late_loop", "offered_again"]


def edit(r, ref, q):
    """One alteration of the dict of sequences."""
    k = r.choice(["drop_node", "dup_node", "ins_node", "other_stop", "cross_stop", "drop_first_stop", "drop_last_stop", "reverse", "empty", "none", "id",
                  "mode", "street_i", "street_r", "unknown", "swap_dirs", "text", "swap_stops", "terminal", "negative", "late_loop"])
    d = r.choice("ir")
    n, s = q["n" + d], q["s" + d]
    ids = ref.order
    if n is None or s is None or not n or not s:
        return None
    if k == "drop_node" and len(n) > 1:
        n.pop(r.randrange(len(n)))
    elif k == "dup_node":
        n.insert(r.randrange(len(n) + 1), r.choice(n))
    elif k == "ins_node":
        n.insert(r.randrange(1, len(n) + 1), r.choice(ids))
    elif k == "other_stop":
        s.insert(r.randrange(1, len(s)) if len(s) > 1 else 0, r.choice(ids))
        if r.random() < 0.3:
            s.insert(r.randrange(1, len(s)) if len(s) > 1 else 0, r.choice(s))
    elif k == "cross_stop":
        o = q["n" + ("r" if d == "i" else "i")] or []
        c = [x for x in o if x not in n]
        if not c:
            return None
        s.insert(1, r.choice(c))
    elif k == "drop_first_stop" and len(s) > 1:
        s.pop(0)
    elif k == "drop_last_stop" and len(s) > 1:
        s.pop()
    elif k == "reverse":
        n.reverse()
        s.reverse()
    elif k == "empty":
        q[r.choice("ns") + d] = []
    elif k == "none":
        q[r.choice("ns") + d] = None
    elif k == "id":
        q["id"] = None
    elif k == "mode":
        q["mode"] = r.choice([None, "bus", 7])
    elif k in ("street_i", "street_r"):
        d = k[-1]
        n, s = q["n" + d], q["s" + d]
        if not n or not s:
            return None
        if len(n) > 2:                      # take a short cut that is no street
            i = r.randrange(1, len(n) - 1)
            x = n.pop(i)
            q["s" + d] = [y for y in s if y != x]
        else:
            c = [x for x in ids if x not in n]
            if not c:
                return None
            n.insert(1, r.choice(c))
    elif k == "unknown":
        u = max(ids) + r.randint(1, 9)
        i = r.randrange(len(n) + 1)
        n.insert(i, u)
    elif k == "negative":                   # no node, but its digits are one
        c = [x for x in n if x > 0]
        if not c:
            return None
        u = r.choice(c)
        for key in ("ni", "nr", "si", "sr") if r.random() < 0.7 else ("n" + d, "s" + d):
            q[key] = [-x if x == u else x for x in q[key] or []]
    elif k == "late_loop":                  # runs to and fro over its last street
        if len(n) < 2:
            return None
        q["n" + d] = n + n[-2:] * r.randint(1, 2)
    elif k == "swap_dirs":
        q["ni"], q["nr"], q["si"], q["sr"] = q["nr"], q["ni"], q["sr"], q["si"]
    elif k == "text":
        q["text"] = (r.choice(["ni", "nr", "si", "sr"]), r.choice(["%s,x", "%s,", ",%s", "%s,1.5", "%s;3", "a", "%s,,", "P_1"]))
    elif k == "swap_stops":
        q["si"], q["sr"] = q["sr"], q["si"]
    elif k == "terminal":
        c = r.choice(ids)
        n[-1] = c
        s[-1] = c
    else:
        return None
    return k


def text(v):
    return None if v is None else ",".join(str(x) for x in v)


def in_order(n, s):
    p = [n.index(x) for x in s]
    return p == sorted(p)


def case(cx):
    from sidermit.publictransportsystem import Route, TransportNetwork
    r = cx.rng
    k = r.random()
    city = gen.make_city(r, 1, 5) if k < 0.96 else gen.make_city(r, 9, 14) if k < 0.985 else gen.make_city(r, 18, 40)
    ref = city.ref
    before = snapshot(city.graph)
    mode = gen.lib_mode(gen.gen_mode(r, "bus"))
    rr = None
    while rr is None:
        gen.LONG = r.random() < (0.6 if ref.n > 8 else 0.1)
        rr = gen.custom_route(r, ref, r.choice(["a", "1", 1, 0, "R_x_1"]), 0)
    gen.LONG = False
    q = {"id": rr.id, "mode": mode, "ni": list(rr.ni), "nr": list(rr.nr), "si": list(rr.si), "sr": list(rr.sr)}
    edits = []
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        e = edit(r, ref, q)
        if e:
            edits.append(e)
    for e in ("negative", "late_loop"):
        cx.count(e, e in edits)
    want = [q[k] for k in ("ni", "nr", "si", "sr")]
    args = [text(v) for v in want]
    bad_text = False
    if "text" in q:
        k, t = q["text"]
        i = ("ni", "nr", "si", "sr").index(k)
        args[i] = t % (args[i] or "3") if "%" in t else t
        bad_text = True
        cx.count("bad_text")
    elif r.random() < 0.2 and all(args):
        args = [a.replace(",", ", ") for a in args]
    cx.shape(tuple(ref.order), repr(args), repr(edits))
    cx.desc = {"city": city.desc, "route": [repr(q["id"]), repr(q["mode"])] + args, "edits": edits}
    vals = [v or [] for v in want]
    ok = not bad_text and valid_route(q["id"], q["mode"] is mode, *vals)
    if ok:
        cx.count("unordered_stops", not in_order(vals[0], vals[2]) or not in_order(vals[1], vals[3]))
        cx.count("repeated_stops", any(len(set(x)) < len(x) for x in vals[2:]))
    make = lambda: Route(q["id"], q["mode"], *args)
    if not ok:
        expect_refusal(make, "an invalid route", edits=edits, route=repr(args))
        cx.count("refused_route")
        return
    lib = make()
    require(lib.id == q["id"] and type(lib.id) is type(q["id"]) and lib.mode is mode, "accepted route has another id or mode")
    require(seqs(lib) == tuple(want), "accepted route has other sequences", got=seqs(lib), expected=want)
    net = TransportNetwork(city.graph)
    if r.random() < 0.5:
        for x in net.get_radial_routes(mode):
            net.add_route(x)
    v0 = net_value(net)
    gi, gr = on_streets(ref, q["ni"]), on_streets(ref, q["nr"])
    if gi and gr:
        net.add_route(lib)
        require(net.get_route(lib.id) is lib and seqs(lib) == tuple(want), "route changed when added to the network")
        require(len(net.get_routes()) == len(v0[0]) + 1, "adding a route did not add exactly one")
        cx.count("accepted")
    else:
        if gr:
            cx.count("bad_street_forward_only")
        elif gi:
            cx.count("bad_street_return_only")
        expect_refusal(lambda: net.add_route(lib), "a route over a missing street", forward_ok=gi, return_ok=gr, route=want)
        if r.random() < 0.5:
            back = Route("back", mode, args[1], args[0], args[3], args[2])
            mirror = [back]
            if not on_streets(ref, q["ni"][::-1]) or not on_streets(ref, q["nr"][::-1]):
                mirror.append(Route("mirror", mode, *[text(v[::-1]) for v in want]))
            for x in r.sample([lib] + 2 * mirror, 2):
                expect_refusal(lambda: net.add_route(x), "a route over a missing street offered after another refusal", reversed=x is back, route=want)
            cx.count("offered_again")
        require(net_value(net) == v0, "a refused route changed the network")
        cx.count("refused_network")
    require(snapshot(city.graph) == before, "route handling changed the city")
