from vf.common import fail, require

CASES = {"quick": 120000, "thorough": 1200000}
RULE = ("histories over up to 3 live modes and passengers: constructions (valid, or with exactly one parameter out of its domain) and attribute "
        "changes with boundary-biased values; every attribute of every live object compared with a shadow after each step; distinct by operation "
        "sequence; non-trivial: at least one accepted and one refused value")
MUST_SEE = ["constructed", "construction_refused", "set_accepted", "set_refused", "boundary_accepted", "scaled_by_d"]

MODE = ["name", "bya", "co", "c1", "c2", "v", "t", "fmax", "kmax", "theta", "tat", "d", "fini"]
PAX = ["va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt"]
EXC = {"name": "NameIsNotValidExceptions", "bya": "ByaIsNotValidExceptions", "co": "CoIsNotValidExceptions", "c1": "C1IsNotValidExceptions",
       "c2": "C2IsNotValidExceptions", "v": "VIsNotValidExceptions", "t": "TIsNotValidExceptions", "fmax": "FmaxIsNotValidExceptions",
       "kmax": "KmaxIsNotValidExceptions", "theta": "ThetaIsNotValidExceptions", "tat": "TatIsNotValidExceptions", "d": "DIsNotValidExceptions",
       "fini": "FiniIsNotValidException", "va": "VaIsNotValidExceptions", "pv": "PvIsNotValidExceptions", "pw": "PwIsNotValidExceptions",
       "pa": "PaIsNotValidExceptions", "pt": "PtIsNotValidExceptions", "spv": "SpvIsNotValidExceptions", "spw": "SpwIsNotValidExceptions",
       "spa": "SpaIsNotValidExceptions", "spt": "SptIsNotValidExceptions"}


def good(r, p):
    """(value, is boundary)"""
    b = r.random() < 0.3
    if p == "name":
        return r.choice(["bus", "metro", "m", "x y", "bus2"]), False
    if p == "bya":
        return r.choice([0, 1]), True
    if p == "theta":
        return (r.choice([0, 1, 0.0, 1.0]), True) if b else (r.random(), False)
    if p == "d":
        return (1, False) if b else (r.randint(1, 8) if r.random() < 0.9 else r.randint(9, 60), False)
    if p in ("v", "va"):
        return (r.choice([1e-9, 1e-300, 5e-324]), True) if b else (r.uniform(0.1, 100), False)
    return (r.choice([0, 0.0]), True) if b else (r.choice([r.uniform(0, 2000), r.randint(1, 2000), 1e-12]), False)


def bad(r, p):
    if p == "name":
        return None
    if r.random() < 0.25:
        return None
    if p == "bya":
        return r.choice([2, -1, 0.5, 1.5, "1", 10, 1 + 1e-12, 5e-324, -5e-324])
    if p == "theta":
        return r.choice([-1e-12, -0.5, 1 + 1e-12, 1.0000001, 2, -1, -5e-324, 1.0000000000000002])
    if p == "d":
        return r.choice([-1, -2, -10])
    if p in ("v", "va"):
        return r.choice([0, 0.0, -1e-12, -1, -20.5, -5e-324, -1e6])
    return r.choice([-1e-12, -1, -0.5, -1000, -5e-324])


def refused(fn, p, what, value):
    from sidermit import exceptions as X
    try:
        fn()
    except X.SIDERMITException as e:
        require(type(e).__name__ == EXC[p], "%s: wrong exception for parameter %s" % (what, p), got=type(e).__name__, expected=EXC[p], value=repr(value))
        return
    except Exception as e:
        fail("%s: parameter %s refused with %s instead of the library's exception" % (what, p, type(e).__name__), value=repr(value), error=str(e))
    fail("%s: parameter %s accepted a value outside its domain" % (what, p), value=repr(value))


def check(cx, live, what):
    for obj, sh in live:
        for p, v in sh.items():
            g = getattr(obj, p)
            require(g == v and (g is None) == (v is None), "attribute %s differs from the last accepted value after: %s" % (p, what), got=repr(g), expected=repr(v))
            cx.count("reads")


def case(cx):
    from sidermit.publictransportsystem import Passenger, TransportMode
    r = cx.rng
    live, ops = [], []
    if r.random() < 0.1:
        ms, p = TransportMode.get_default_modes(), Passenger.get_default_passenger()
        for m in ms:
            live.append((m, {k: getattr(m, k) for k in MODE}))
        live.append((p, {k: getattr(p, k) for k in PAX}))
        want = [dict(zip(MODE, ("bus", 1, 8.61, 0.15, 0, 20, 2.5, 600, 160, 0.7, 0, 4, 112))),
                dict(zip(MODE, ("metro", 0, 80.91, 0.3, 933.15, 40, 0.33, 40, 1440, 0.5, 1, 1, 28))),
                dict(zip(PAX, (4.0, 2.74, 5.48, 8.22, 16, 2.74, 5.48, 8.22, 16)))]
        for (o, sh), w in zip(live, want):
            require(sh == w, "default object has other values", got=sh, expected=w)
        cx.count("defaults")
    acc = ref = 0
    for _ in range(r.choice([2, 4, 8, 16])):
        k = r.random()
        if not live or (k < 0.35 and len(live) < 5):
            cls, names = r.choice([(TransportMode, MODE), (Passenger, PAX)])
            vals = {p: good(r, p) for p in names}
            args = {p: v[0] for p, v in vals.items()}
            if r.random() < 0.5:
                p = r.choice(names)
                args[p] = bad(r, p)
                ops.append(("new?", cls.__name__, p, repr(args[p])))
                refused(lambda: cls(*[args[q] for q in names]), p, "construction", args)
                cx.count("construction_refused")
                ref += 1
            else:
                kw = r.random() < 0.3
                obj = cls(**args) if kw else cls(*[args[q] for q in names])
                sh = dict(args)
                if cls is TransportMode:
                    sh["fmax"], sh["fini"] = args["fmax"] * args["d"], args["fini"] * args["d"]
                    if args["d"] > 1 and args["fmax"] > 0:
                        cx.count("scaled_by_d")
                ops.append(("new", cls.__name__, repr(args)))
                live.append((obj, sh))
                cx.count("constructed")
                acc += 1
        else:
            obj, sh = r.choice(live)
            p = r.choice(list(sh))
            if r.random() < 0.5:
                v = bad(r, p)
                ops.append(("set?", p, repr(v)))
                refused(lambda: setattr(obj, p, v), p, "change", v)
                cx.count("set_refused")
                ref += 1
            else:
                v, b = good(r, p)
                ops.append(("set", p, repr(v)))
                setattr(obj, p, v)
                sh[p] = v
                cx.count("set_accepted")
                acc += 1
                if b:
                    cx.count("boundary_accepted")
        check(cx, live, repr(ops[-1]))
    cx.nontrivial = acc > 0 and ref > 0
    cx.shape(repr(ops))
    cx.desc = {"operations": ops}
