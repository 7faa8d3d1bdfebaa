from vf import gen
from vf.cityobs import expect_refusal, snapshot
from vf.common import require
from vf.netobs import seqs

CASES = {"quick": 10000, "thorough": 100000}
RULE = ("every family with every short/express option and every jump (valid and invalid) on generated cities of 0-13, rarely 45, zones with arbitrary ids; sequences, "
        "ids and acceptance by a network compared with the documented lines; distinct by zones, ids and mode; non-trivial: at least one zone")
MUST_SEE = ["circular", "feeder", "radial", "diametral", "tangencial", "half_families", "refused_jump", "refused_mode", "refused_circular", "added", "dozens_of_zones"]


def expected(ref, fam, jump, short, express):
    """[(ni, nr, si, sr)] in zone order."""
    P = [p for p, _ in ref.zones]
    S = [s for _, s in ref.zones]
    n, C = ref.n, ref.cbd
    if fam == "circular":
        a, b = S + S[:1], S[::-1] + S[-1:]
        return [(a, [], a, []), ([], b, [], b)]
    out = []
    last = n // 2 if (jump and n % 2 == 0 and jump == n // 2) else n
    for z in range(last):
        if fam == "feeder":
            seq, ex = [P[z], S[z]], False
        elif fam == "radial":
            seq, ex = ([S[z], C] if short else [P[z], S[z], C]), express and not short
        elif fam == "diametral":
            w = (z + jump) % n
            seq, ex = ([S[z], C, S[w]] if short else [P[z], S[z], C, S[w], P[w]]), express
        else:
            ring = [S[(z + k) % n] for k in range(jump + 1)]
            seq, ex = (ring if short else [P[z]] + ring + [P[(z + jump) % n]]), express
        st = [seq[0], seq[-1]] if ex else seq
        out.append((seq, seq[::-1], st, st[::-1]))
    return out


def case(cx):
    from sidermit.publictransportsystem import TransportNetwork
    r = cx.rng
    city = gen.make_city(r, 0 if r.random() < 0.1 else 1, 9) if r.random() < 0.994 else gen.make_city(r, 14, 45)
    ref, n = city.ref, city.ref.n
    before = snapshot(city.graph)
    md = gen.gen_mode(r, r.choice(["bus", "metro", "m_1", "x y", "1"]))
    mode = gen.lib_mode(md)
    net, fresh = TransportNetwork(city.graph), TransportNetwork(city.graph)
    cx.shape(n, tuple(ref.order), md.name)
    cx.desc = {"city": city.desc, "mode": md.name}
    cx.nontrivial = n > 0
    seen, done = {}, set()
    calls = [("feeder", None, False, False, lambda: net.get_feeder_routes(mode))]
    for s in (False, True):
        for e in (False, True):
            calls.append(("radial", None, s, e, lambda s=s, e=e: net.get_radial_routes(mode, s, e) if r.random() < 0.5 else net.get_radial_routes(mode, short=s, express=e)))
            for j in range(1, n // 2 + 1):
                calls.append(("diametral", j, s, e, lambda s=s, e=e, j=j: net.get_diametral_routes(mode, j, s, e)))
                calls.append(("tangencial", j, s, e, lambda s=s, e=e, j=j: net.get_tangencial_routes(mode, j, s, e)))
    if n >= 2:
        calls.append(("circular", None, False, False, lambda: net.get_circular_routes(mode)))
        calls.append(("diametral", 1, False, False, lambda: net.get_diametral_routes(mode)))
        calls.append(("tangencial", 1, False, False, lambda: net.get_tangencial_routes(mode)))
    calls.append(("radial", None, False, False, lambda: net.get_radial_routes(mode)))
    r.shuffle(calls)
    if n > 13:
        calls = calls[:20]
        cx.count("dozens_of_zones")
    for fam, j, s, e, fn in calls:
        got = list(fn())
        want = expected(ref, fam, j, s, e)
        what = {"family": fam, "jump": j, "short": s, "express": e, "zones": n}
        require(len(got) == len(want), "wrong number of lines", got=len(got), expected=len(want), **what)
        if j and len(want) < n:
            cx.count("half_families")
        require(len({x.id for x in got}) == len(got), "line ids are not unique", ids=[x.id for x in got], **what)
        for x, w in zip(got, want):
            require(seqs(x) == tuple(list(q) for q in w), "line differs from the documented one", got=seqs(x), expected=w, id=x.id, **what)
            require(x.mode is mode, "line has another mode", id=x.id, **what)
            if x.id in seen:
                require(seen[x.id] == seqs(x), "two different lines share an id", id=x.id, **what)
            else:
                seen[x.id] = seqs(x)
                fresh.add_route(x)
                require(fresh.get_route(x.id) is x and seqs(x) == seen[x.id], "line changed when added to the network", id=x.id, **what)
                cx.count("added")
        cx.count(fam, len(got))
    require(len(list(net.get_routes())) == 0 and len(list(net.get_modes())) == 0, "asking for predefined lines changed the network")
    require(len(list(fresh.get_routes())) == len(seen), "network lost lines")
    fn = r.choice([net.get_diametral_routes, net.get_tangencial_routes])
    for j in (0, -1, -n, n // 2 + 1, n, n + 1, 0.5, 1.0, n / 2 + 0.5):
        if isinstance(j, int) and 1 <= j <= n / 2:
            continue
        expect_refusal(lambda: fn(mode, j), "a jump outside (0, n/2]", jump=j, zones=n)
        cx.count("refused_jump")
    if n <= 1:
        expect_refusal(lambda: net.get_circular_routes(mode), "circular lines with %d zones" % n)
        cx.count("refused_circular")
    for bad in (None, "bus", 3):
        for f in (net.get_feeder_routes, net.get_radial_routes) + ((net.get_diametral_routes, net.get_tangencial_routes, net.get_circular_routes) if n >= 2 else ()):
            expect_refusal(lambda: f(bad), "a foreign object as mode", mode=repr(bad))
            cx.count("refused_mode")
    require(snapshot(city.graph) == before, "asking for predefined lines changed the city")
