"""Observation of library routes and networks."""
from vf.common import require

SEQ = ("nodes_sequence_i", "nodes_sequence_r", "stops_sequence_i", "stops_sequence_r")


def seqs(route):
    return tuple([int(x) for x in getattr(route, a)] for a in SEQ)


def spec_seqs(rr):
    return (list(rr.ni), list(rr.nr), list(rr.si), list(rr.sr))


def route_value(route):
    return (route.id, id(route.mode), seqs(route))


def net_value(net):
    return ([(id(x),) + route_value(x) for x in net.get_routes()], [(id(m), m.name) for m in net.get_modes()])


def mode_value(m):
    return tuple(getattr(m, k) for k in "name bya co c1 c2 v t fmax kmax theta tat d fini".split())


def pax_value(p):
    return tuple(getattr(p, k) for k in "va pv pw pa pt spv spw spa spt".split())


def valid_route(rid, mode_ok, ni, nr, si, sr):
    """The documented acceptance condition of a custom route."""
    if rid is None or not mode_ok or not ni or not nr or not si or not sr:
        return False
    if ni[0] != nr[-1] or nr[0] != ni[-1]:
        return False
    for n, s in ((ni, si), (nr, sr)):
        if len(set(n)) != len(n):
            return False
        if any(x not in n for x in s) or s[0] != n[0] or s[-1] != n[-1]:
            return False
    return True


def on_streets(ref, seq):
    return all((a, b) in ref.streets for a, b in zip(seq, seq[1:]))
