"""Observation of the library's extended graph through its accessors, as reference keys."""
from vf.common import require


class XObs:
    def __init__(self, xg, mode_objs, routes):
        """mode_objs: library modes by reference index; routes: [RefRoute]."""
        from sidermit.optimization.preoptimization.extended_graph import CityNode, ExtendedEdgesType, RouteNode, StopNode
        self.key, self.node = {}, {}
        midx = {id(m): i for i, m in enumerate(mode_objs)}
        tree = xg.get_extended_graph_nodes()

        def add(nd, k):
            require(k not in self.node, "two extended nodes for the same thing", key=k)
            self.key[nd] = k
            self.node[k] = nd
        for c in tree:
            require(isinstance(c, CityNode), "a key of the node table is no city node", got=type(c).__name__)
            cid = int(c.graph_node.id)
            add(c, ("C", cid))
            for s in tree[c]:
                require(isinstance(s, StopNode) and s.city_node is c, "stop node listed under another city node", city=cid)
                require(id(s.mode) in midx, "stop of an unknown mode", mode=s.mode.name)
                add(s, ("S", cid, midx[id(s.mode)]))
                for q in tree[c][s]:
                    require(isinstance(q, RouteNode) and q.stop_node is s, "route node listed under another stop", city=cid)
                    require(q.route.mode is s.mode, "route node at a stop of another mode", route=q.route.id)
                    add(q, ("R", q.route.id, q.direction, cid))
        self.edges, self.obj = {}, {}
        names = {ExtendedEdgesType.ACCESS: "ACCESS", ExtendedEdgesType.BOARDING: "BOARDING", ExtendedEdgesType.ALIGHTING: "ALIGHTING",
                 ExtendedEdgesType.ROUTE: "ROUTE"}
        for e in xg.get_extended_graph_edges():
            require(e.nodei in self.key and e.nodej in self.key, "a link ends at a node that is not part of the extended graph", type=str(e.type))
            k = (names[e.type], self.key[e.nodei], self.key[e.nodej])
            require(k not in self.edges, "the same link exists twice", link=k)
            self.edges[k] = (e.t, e.f)

    def k(self, nd):
        return self.key[nd]
