From 65deede17c5758de196414c63438ed0934c7922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 01/27] fix: import of a city with a subcenter at the origin
 divided by zero

---
 sidermit/city/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index a03d128..7f07ffc 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -608,7 +608,7 @@ class Graph:
                 ang_sc.append(angle_sc)
 
                 # Update etha and etha_zone
-                if ang_cbd - 0.001 <= angle_sc <= ang_cbd + 0.001:
+                if radius_sc > 0 and ang_cbd - 0.001 <= angle_sc <= ang_cbd + 0.001:
                     etha_zone = zone_id
                     etha = r_cbd / radius_sc
 
-- 
2.43.0


From 7fb36fff0e396202b43e8fc70fbc168abce401c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 02/27] fix: importing a city whose CBD lies on a ray shared by
 several subcenters, or on its subcenter, was refused

---
 sidermit/city/graph.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 7f07ffc..eaa6876 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -609,8 +609,14 @@ class Graph:
 
                 # Update etha and etha_zone
                 if radius_sc > 0 and ang_cbd - 0.001 <= angle_sc <= ang_cbd + 0.001:
-                    etha_zone = zone_id
-                    etha = r_cbd / radius_sc
+                    etha_sc = r_cbd / radius_sc
+                    # CBD on the subcenter, up to rounding of its coordinates
+                    if 1 < etha_sc <= 1 + 1e-9:
+                        etha_sc = 1
+                    # several subcenters can share the angle, prefer one that gives a valid etha
+                    if etha is None or etha_sc <= 1:
+                        etha_zone = zone_id
+                        etha = etha_sc
 
             L = 0
             g = 0
-- 
2.43.0


From cfdeaaae4b5b17a9164acc0b559ab65652a0a94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 03/27] fix: periphery and subcenter of one zone sharing an id
 were not refused

---
 sidermit/city/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index eaa6876..95b3894 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -727,7 +727,8 @@ class Graph:
         """
 
         # to verified if id is not duplicated
-        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id:
+        if node_periphery.id in self.__nodes_id or node_subcenter.id in self.__nodes_id or \
+                node_periphery.id == node_subcenter.id:
             raise NodeIdDuplicatedException('id_node is duplicated')
 
         self.__nodes.append(node_periphery)
-- 
2.43.0


From 413450f2f29260a265de3d607947106f0caacc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 04/27] fix: a truncated Pajek vertex list was accepted

---
 sidermit/city/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 95b3894..19110d1 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -443,6 +443,9 @@ class Graph:
                     raise PajekFormatIsNotValidException("each node line must provide information about [id] ["
                                                          "name] [x] [y] [type] [zone] [width]")
 
+        if n_nodes > 0:
+            raise PajekFormatIsNotValidException("there are fewer node lines than declared vertices")
+
         df_file["node_id"] = col_id
         df_file["name"] = col_name
         df_file["x"] = col_x
-- 
2.43.0


From 749d3263813c645f936a2bcc439cb9fad3d2e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 05/27] fix: a one-node city description without CBD was
 accepted

---
 sidermit/city/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 19110d1..93dfa1c 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -638,6 +638,9 @@ class Graph:
             # if parameters are valid
             if graph_obj.parameters_validator(n, L, g, width, etha, etha_zone, angles, Gi, Hi):
 
+                if len(cbd) == 0:
+                    raise CBDDoesNotExistException("Need add CBD node previously")
+
                 for node in cbd:
                     graph_obj.__add_cbd(node)
 
-- 
2.43.0


From 3339a88f273a928117022cbb74747a9b64a8a733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 06/27] fix: transport mode checked maximum and initial
 frequency only after scaling them by an unchecked number of lines

---
 sidermit/publictransportsystem/mode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/mode.py b/sidermit/publictransportsystem/mode.py
index 8889272..d865034 100644
--- a/sidermit/publictransportsystem/mode.py
+++ b/sidermit/publictransportsystem/mode.py
@@ -82,11 +82,14 @@ class TransportMode:
         self.c2 = c2
         self.v = v
         self.t = t
-        self.fmax = fmax * d
+        # per line values are validated before they are scaled by the number of parallel lines
+        self.fmax = fmax
         self.kmax = kmax
         self.theta = theta
         self.tat = tat
         self.d = d
+        self.fini = fini
+        self.fmax = fmax * d
         self.fini = fini * d
 
     @staticmethod
-- 
2.43.0


From c6e75cdcfe096b82eb303c525e7499875eaa3d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 07/27] fix: removing a transport mode left some of its routes
 in the network

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 6b3d494..cb7adc7 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -280,7 +280,7 @@ class TransportNetwork:
 
         self.__modes = list_mode
 
-        for route in self.__routes:
+        for route in list(self.__routes):
             if route.mode == mode:
                 self.remove_route(route.id)
 
-- 
2.43.0


From 6eda99995b50cf6062d02adda36baef926401f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 08/27] fix: route sequences with a non-integer id raised
 ValueError

---
 sidermit/publictransportsystem/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index cb7adc7..1cbc1de 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -127,7 +127,10 @@ class Route:
         nodes = []
 
         for node in nodes_split:
-            nodes.append(int(node.rstrip("\n")))
+            try:
+                nodes.append(int(node.rstrip("\n")))
+            except ValueError:
+                raise NodeSequencesIsNotValidException("node ids of a sequence must be integers")
 
         return nodes
 
-- 
2.43.0


From 2d51d3a8b5f0024c99fadd2571b04b14ed2a415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:59 +0000
Subject: [PATCH 09/27] fix: return direction of a route was not checked
 against the streets

---
 sidermit/publictransportsystem/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 1cbc1de..e1c8fdb 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -300,7 +300,7 @@ class TransportNetwork:
         nodes_sequence_i = route_obj.nodes_sequence_i
         nodes_sequence_r = route_obj.nodes_sequence_r
 
-        if self.__edges_validator(nodes_sequence_i) or self.__edges_validator(nodes_sequence_r):
+        if self.__edges_validator(nodes_sequence_i) and self.__edges_validator(nodes_sequence_r):
             if route_id not in self.__routes_id:
                 self.add_transport_mode(route_obj.mode)
                 self.__routes.append(route_obj)
-- 
2.43.0


From fb6ab27faccc35adca0c69484d5e8d8d189f3ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:45 +0000
Subject: [PATCH 10/27] fix: riding time ignored nodes of the path where no
 route stops

---
 sidermit/optimization/preoptimization/extended_graph.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index a0108dd..9a346ad 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -154,7 +154,7 @@ class ExtendedGraph:
         # list with all alighting edges, edges between route_node->stop_node
         alighting_edges = self.build_alighting_edges(self.__extended_graph_nodes, TP)
         # list with all routes edges, edges between route_node(i-1)->route_node(i)
-        routes_edges = self.build_route_edges(self.__extended_graph_nodes)
+        routes_edges = self.build_route_edges(self.__extended_graph_nodes, graph_obj)
 
         self.__extended_graph_edges = []
 
@@ -479,15 +479,20 @@ class ExtendedGraph:
         return alighting_edges
 
     @staticmethod
-    def build_route_edges(extended_graph_nodes: defaultdict2_route_node) -> List[ExtendedEdge]:
+    def build_route_edges(extended_graph_nodes: defaultdict2_route_node, graph_obj: Graph = None) -> \
+            List[ExtendedEdge]:
         """
         to build extended routes edges
         :param extended_graph_nodes: dic[CityNode][StopNode] = List[RouteNode]
+        :param graph_obj: Graph object, to know also the nodes where no route stops. If it is not given only nodes of
+        the extended graph are known
         :return: List[ExtendedEdge]
         """
 
         route_nodes = []
         nodes = []
+        if graph_obj is not None:
+            nodes.extend(graph_obj.get_nodes())
 
         for city_node in extended_graph_nodes:
             nodes.append(city_node.graph_node)
-- 
2.43.0


From 558fc9422e32a12308b9576f7d7cefa8fb0b5f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:59 +0000
Subject: [PATCH 11/27] fix: asking twice for a demand pair where no route
 stops raised AttributeError

---
 sidermit/optimization/preoptimization/hyper_path.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 0a8d484..8e7a145 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -55,6 +55,11 @@ class Hyperpath:
                         if str(destination_id) == str(city_node.graph_node.id):
                             destination = city_node
 
+                    # no route stops at the origin or at the destination
+                    if origin is None or destination is None:
+                        raise TransportNetworkException(
+                            "par OD {}-{} without connection".format(origin_id, destination_id))
+
                     _, label, _ = self.build_hyperpath_graph(origin, destination)
 
                     # if there is a stop with a label != infinity, you can get from the origin to the destination
-- 
2.43.0


From aec370f3f4fb98f6fb3d3197081b8da9ab87da25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:43 +0000
Subject: [PATCH 12/27] fix: trips were lost when the indifference walk ended
 exactly at the last line

---
 sidermit/optimization/preoptimization/assignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/assignment.py b/sidermit/optimization/preoptimization/assignment.py
index 318a71f..885ca66 100644
--- a/sidermit/optimization/preoptimization/assignment.py
+++ b/sidermit/optimization/preoptimization/assignment.py
@@ -106,7 +106,7 @@ class Assignment:
                                         stop1]
                                     break
                             # si no se encontro paradero mas lejos a la distancia de indiferencia asignar to do a stop1
-                            if position < d:
+                            if position <= d:
                                 assignment[origin][destination][stop1] = 100
                     else:
                         # si parametro d de stop2 es impar
-- 
2.43.0


From 7c266c14afe9bf415d860779a34dc025288fa9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 13/27] fix: access time at a mode change was not counted per
 passenger

---
 sidermit/optimization/users_cost.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index ec63a73..e43b4dd 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -141,10 +141,10 @@ class UsersCost:
                         # reportar ta
                         if isinstance(nodei, StopNode):
                             if isinstance(nodej, CityNode):
-                                ta += nodei.mode.tat / 60
+                                ta += dis_pax * nodei.mode.tat / 60
                         if isinstance(nodej, StopNode):
                             if isinstance(nodei, CityNode):
-                                ta += nodej.mode.tat / 60
+                                ta += dis_pax * nodej.mode.tat / 60
 
                         # agregamos elementos faltantes a las rutas
                         # si nodo i, nodo j y nodo k (new suc ) son de rutas entonces
-- 
2.43.0


From dc6158d79fcd56bb43fc54935480f53331e5a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 14/27] fix: dwell on board was taken from the wrong direction
 for circular routes and routes stopping elsewhere on the way back

---
 sidermit/optimization/users_cost.py | 37 ++---------------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/sidermit/optimization/users_cost.py b/sidermit/optimization/users_cost.py
index e43b4dd..d14eaab 100644
--- a/sidermit/optimization/users_cost.py
+++ b/sidermit/optimization/users_cost.py
@@ -111,25 +111,9 @@ class UsersCost:
                                     t += dis_pax
 
                                 # para tiempo de viaje adicional por esperar la bajada del vehiculo
-                                nodei_id = nodei.prev_route_node.stop_node.city_node.graph_node.id
-                                nodej_id = nodei.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
                                 tb = nodei.route.mode.t / 3600
                                 # verificamos si es del sentido de ida
-                                if index_i < index_j:
+                                if nodei.direction == "I":
                                     pax_b = v[nodei.route.id]["I"][nodej]
                                     tv += (pax_b * 0.5 * tb) * dis_pax
 
@@ -159,25 +143,8 @@ class UsersCost:
                                                                                                             RouteNode):
                                 bya = nodei.route.mode.bya
                                 tb = nodei.route.mode.t / 3600
-                                # determinamos dirección
-                                nodei_id = nodei.stop_node.city_node.graph_node.id
-                                nodej_id = nodej.stop_node.city_node.graph_node.id
-
-                                stop_sequence_i = nodei.route.stops_sequence_i
-
-                                index = 0
-                                index_i = 0
-                                index_j = 0
-
-                                for node_id in stop_sequence_i:
-                                    if str(node_id) == str(nodei_id):
-                                        index_i = index
-                                    if str(node_id) == str(nodej_id):
-                                        index_j = index
-                                    index = index + 1
-
                                 # verificamos si es del sentido de ida
-                                if index_i < index_j:
+                                if nodei.direction == "I":
                                     # simultaneo
                                     if bya == 1:
                                         pasajeros = max(z[nodei.route.id]["I"][nodej.stop_node],
-- 
2.43.0


From 682eb292b546a866a4c523b8c130027f5a09d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:02 +0000
Subject: [PATCH 15/27] fix: results of an active route without passengers
 divided by zero

---
 sidermit/optimization/optimizer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 7c6a31c..ea07b3b 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -619,11 +619,11 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_i.append((node_id, total_pax / k[route.id]))
+                                charge_i.append((node_id, total_pax / k[route.id] if k[route.id] > 0 else 0))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_i.append((node_id, total_pax / k[route.id]))
+                            charge_i.append((node_id, total_pax / k[route.id] if k[route.id] > 0 else 0))
 
                     total_pax = 0
                     for node_id in nodes_sequence_r:
@@ -635,14 +635,17 @@ class Optimizer:
                                 total_pax += pax_b - pax_a
                                 total_b += pax_b
 
-                                charge_r.append((node_id, total_pax / k[route.id]))
+                                charge_r.append((node_id, total_pax / k[route.id] if k[route.id] > 0 else 0))
                                 bool_add = True
                                 break
                         if bool_add is False:
-                            charge_r.append((node_id, total_pax / k[route.id]))
+                            charge_r.append((node_id, total_pax / k[route.id] if k[route.id] > 0 else 0))
 
-                    co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
-                            total_b * f[route.id])
+                    if total_b == 0:
+                        co = 0
+                    else:
+                        co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
+                                total_b * f[route.id])
 
                     charge_min = float("inf")
                     sub_table_i = []
-- 
2.43.0


From 9cba8bc05725f5be63ccdd59b413493deac57176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 16/27] fix: reported section loads ignored stops where
 passengers only alight

---
 sidermit/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index ea07b3b..4489b40 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -612,7 +612,7 @@ class Optimizer:
                     total_pax = 0
                     for node_id in nodes_sequence_i:
                         bool_add = False
-                        for stopnode in z[route.id]["I"]:
+                        for stopnode in list(z[route.id]["I"]) + list(v[route.id]["I"]):
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["I"][stopnode]
                                 pax_a = v[route.id]["I"][stopnode]
@@ -628,7 +628,7 @@ class Optimizer:
                     total_pax = 0
                     for node_id in nodes_sequence_r:
                         bool_add = False
-                        for stopnode in z[route.id]["R"]:
+                        for stopnode in list(z[route.id]["R"]) + list(v[route.id]["R"]):
                             if stopnode.city_node.graph_node.id == node_id:
                                 pax_b = z[route.id]["R"][stopnode]
                                 pax_a = v[route.id]["R"][stopnode]
-- 
2.43.0


From 013f10677e0bf6c4ea376e2a05d851d7ba604d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:21 +0000
Subject: [PATCH 17/27] fix: reported loads of circular routes were misaligned
 and boardings at the closing node counted twice

---
 sidermit/optimization/optimizer.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index 4489b40..c2c016e 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -556,16 +556,17 @@ class Optimizer:
                     else:
                         node_sequence = nodes_sequence_r
                         direction = "R"
+                    for stop_node in z[route.id][direction]:
+                        total_b += z[route.id][direction][stop_node]
+
                     load_i = []
                     for i in node_sequence:
-                        for stop_node in z[route.id][direction]:
-                            if stop_node.city_node.graph_node.id == i:
-                                total_b += z[route.id][direction][stop_node]
-                                break
+                        load = 0
                         for stop_node in loaded_section_route[route.id][direction]:
                             if stop_node.city_node.graph_node.id == i:
-                                load_i.append(loaded_section_route[route.id][direction][stop_node])
+                                load = loaded_section_route[route.id][direction][stop_node]
                                 break
+                        load_i.append(load / k[route.id] if k[route.id] > 0 else 0)
 
                     if total_b == 0:
                         co = 0
@@ -573,11 +574,7 @@ class Optimizer:
                         co = (route.mode.co + route.mode.c1 * k[route.id]) * f[route.id] * cycle_time_line[route.id] / (
                                 total_b * f[route.id])
 
-                    if len(load_i) >= 1:
-                        charge_min = min(load_i) / max(load_i)
-                    else:
-                        load_i = [1] * len(node_sequence)
-                        charge_min = 0
+                    charge_min = min(load_i)
 
                     sub_table = []
                     sub_table_i = []
@@ -588,13 +585,13 @@ class Optimizer:
                     for i in range(len(node_sequence)):
                         if i == 0:
                             node_i = node_sequence[i]
-                            charge_ij = load_i[i] / max(load_i)
+                            charge_ij = load_i[i]
                             continue
                         else:
                             node_j = node_sequence[i]
                             sub_table.append((node_i, node_j, abs(charge_ij)))
                             node_i = node_j
-                            charge_ij = load_i[i] / max(load_i)
+                            charge_ij = load_i[i]
 
                     # circular con sentido de ida
                     if len(nodes_sequence_i) > 0:
-- 
2.43.0


From 24096a0a76b76f7a01452cea591a2ccb7c464364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:40 +0000
Subject: [PATCH 18/27] fix: a saved plot was drawn over the previous one

---
 sidermit/city/graph.py                    | 3 +++
 sidermit/publictransportsystem/network.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 93dfa1c..38f5536 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -1043,6 +1043,9 @@ class Graph:
             y_p.append(p.y)
             id_p.append(p.id)
 
+        # to not draw over the previous plot
+        plt.clf()
+
         G = nx.DiGraph()
         G.add_edges_from(edges)
 
diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index e1c8fdb..9e7b528 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -782,6 +782,9 @@ class TransportNetwork:
                     if stop_r[i] not in stops_r:
                         stops_r.append(stop_r[i])
 
+        # to not draw over the previous plot
+        plt.clf()
+
         G = nx.DiGraph()
         G.add_edges_from(edges_graph)
         G.add_edges_from(edges_i)
-- 
2.43.0


From 4858bd67674f3ac7237950b281ffcb5ce5504e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:29 +0000
Subject: [PATCH 19/27] fix: a city without zones could not be plotted

---
 sidermit/city/graph.py                    | 4 ++++
 sidermit/publictransportsystem/network.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 38f5536..df91bff 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -1013,6 +1013,9 @@ class Graph:
         info_p = []
 
         for node in self.__nodes:
+            if not position.get(node.id):
+                position[node.id].append(node.x)
+                position[node.id].append(node.y)
             if isinstance(node, CBD):
                 info_cbd.append(node)
             if isinstance(node, Periphery):
@@ -1047,6 +1050,7 @@ class Graph:
         plt.clf()
 
         G = nx.DiGraph()
+        G.add_nodes_from(position)
         G.add_edges_from(edges)
 
         # separate calls to draw labels, nodes and edges
diff --git a/sidermit/publictransportsystem/network.py b/sidermit/publictransportsystem/network.py
index 9e7b528..3188b92 100644
--- a/sidermit/publictransportsystem/network.py
+++ b/sidermit/publictransportsystem/network.py
@@ -730,6 +730,9 @@ class TransportNetwork:
         y_p = []
 
         for node in self.__graph_obj.get_nodes():
+            if not position.get(node.id):
+                position[node.id].append(node.x)
+                position[node.id].append(node.y)
             if isinstance(node, CBD):
                 info_cbd.append(node)
             if isinstance(node, Periphery):
@@ -786,6 +789,7 @@ class TransportNetwork:
         plt.clf()
 
         G = nx.DiGraph()
+        G.add_nodes_from(position)
         G.add_edges_from(edges_graph)
         G.add_edges_from(edges_i)
         G.add_edges_from(edges_r)
-- 
2.43.0


From b49bf54fbd316f2bc6caacc8b8e532dc1520dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:05 +0000
Subject: [PATCH 20/27] fix: printed access time of the extended graph was in
 hours but labelled minutes

---
 sidermit/optimization/preoptimization/extended_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index 9a346ad..456c9a0 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -179,7 +179,7 @@ class ExtendedGraph:
                 # information about access edge
                 for edge in self.__extended_graph_edges:
                     if edge.nodei == city_node and edge.nodej == stop_node:
-                        line += "\tAccess edge\n\t-Access time: {:.2f} [min]\n".format(edge.t)
+                        line += "\tAccess edge\n\t-Access time: {:.2f} [min]\n".format(edge.t * 60)
 
                 line += "\t\tStop node\n\t\t-Mode name: {}\n".format(stop_node.mode.name)
 
-- 
2.43.0


From da15995771925bc5c330b33e145516da72abe932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:21 +0000
Subject: [PATCH 21/27] fix: the plot of a hyperpath was drawn over the
 previous plot

---
 sidermit/optimization/preoptimization/hyper_path.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidermit/optimization/preoptimization/hyper_path.py b/sidermit/optimization/preoptimization/hyper_path.py
index 8e7a145..2435c83 100644
--- a/sidermit/optimization/preoptimization/hyper_path.py
+++ b/sidermit/optimization/preoptimization/hyper_path.py
@@ -535,6 +535,9 @@ class Hyperpath:
                             prev_node = "{} {} - {}".format(node.route.id, node.direction,
                                                             node.stop_node.city_node.graph_node.name)
 
+        # to not draw over the previous plot
+        plt.clf()
+
         G = nx.DiGraph()
         G.add_nodes_from(city_nodes)
         G.add_nodes_from(stop_nodes)
-- 
2.43.0


From 0a8b2003082bc2b2649c8fbe73d07aeb120df4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 22/27] fix: Pajek file was written in the locale's encoding
 but read as UTF-8

---
 sidermit/city/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index df91bff..3087b00 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -247,7 +247,7 @@ class Graph:
         :return: None
         """
 
-        file = open(file_path, 'w')
+        file = open(file_path, 'w', encoding='utf-8')
         string_file = self.export_graph(format)
         file.write(string_file)
 
-- 
2.43.0


From ec7b4ca3e25049ac3fc4127798eef40e89ae4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:52 +0000
Subject: [PATCH 23/27] fix: importing a city with all subcenters or all
 peripheries at the origin raised ZeroDivisionError

---
 sidermit/city/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 3087b00..9688cae 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -625,13 +625,15 @@ class Graph:
             g = 0
             if len(r_sc) != 0 and len(r_p) != 0:
                 L = sum(r_sc) / len(r_sc)
-                g = (sum(r_p) / len(r_p) - L) / L
+                if L > 0:
+                    g = (sum(r_p) / len(r_p) - L) / L
 
+            # ratios of a null distance do not matter
             Gi = []
             Hi = []
             for i in range(n):
-                Gi.append(r_sc[i] / L)
-                Hi.append(r_p[i] / (L + g * L))
+                Gi.append(r_sc[i] / L if L > 0 else 1)
+                Hi.append(r_p[i] / (L + g * L) if L + g * L > 0 else 1)
 
             angles = ang_sc
 
-- 
2.43.0


From b3412b0122d0f0013142541bec4ea7c2844eb89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:54 +0000
Subject: [PATCH 24/27] fix: a city whose peripheries are closer to the origin
 than its subcenters could not be imported

---
 sidermit/city/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidermit/city/graph.py b/sidermit/city/graph.py
index 9688cae..3957410 100644
--- a/sidermit/city/graph.py
+++ b/sidermit/city/graph.py
@@ -625,8 +625,9 @@ class Graph:
             g = 0
             if len(r_sc) != 0 and len(r_p) != 0:
                 L = sum(r_sc) / len(r_sc)
+                # g cannot be negative, Hi represents peripheries closer to the origin than subcenters
                 if L > 0:
-                    g = (sum(r_p) / len(r_p) - L) / L
+                    g = max((sum(r_p) / len(r_p) - L) / L, 0)
 
             # ratios of a null distance do not matter
             Gi = []
-- 
2.43.0


From 557773aa4fb55937ae15f24c325a2fe15a751fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:31 +0000
Subject: [PATCH 25/27] fix: a numerical breakdown of the solver escaped as
 ValueError instead of NoOptimalSolutionFoundException

---
 sidermit/optimization/optimizer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index c2c016e..cd264ba 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -265,7 +265,12 @@ class Optimizer:
         ub = [np.inf] * self.len_var
 
         bounds = Bounds(lb=lb, ub=ub)
-        res = minimize(self.VRC, self.f_opt, method='trust-constr', constraints=nonlin_con, tol=0.01, bounds=bounds)
+        try:
+            res = minimize(self.VRC, self.f_opt, method='trust-constr', constraints=nonlin_con, tol=0.01, bounds=bounds)
+        except ValueError as e:
+            # the solver does not support a point where the objective is not defined (lines without frequency)
+            raise NoOptimalSolutionFoundException(
+                "No optimal solution was found. The solver failed: {}. You can try with other fini".format(e)) from e
         logger.info(self.string_information_internal_optimization(res))
 
         return res
-- 
2.43.0


From 248006008a0b5e440bc00ca89caec45860d74406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 26/27] fix: mode registry looks modes up by their current name
 after a mode is renamed

---
 sidermit/publictransportsystem/mode.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/sidermit/publictransportsystem/mode.py b/sidermit/publictransportsystem/mode.py
index d865034..7cb991f 100644
--- a/sidermit/publictransportsystem/mode.py
+++ b/sidermit/publictransportsystem/mode.py
@@ -114,14 +114,11 @@ class TransportModeManager:
          default values. False to initialize list of modes empty
         """
 
-        self.__list_name = []
         self.__modes = []
         if add_default_mode:
             bus_obj, metro_obj = TransportMode.get_default_modes()
             self.__modes.append(bus_obj)
-            self.__list_name.append(bus_obj.name)
             self.__modes.append(metro_obj)
-            self.__list_name.append(metro_obj.name)
 
     def is_valid_to_assignment_step(self) -> bool:
         """
@@ -148,10 +145,10 @@ class TransportModeManager:
         :param name: mode name
         :return: TransportMode
         """
-        if name not in self.__list_name:
+        if name not in self.get_modes_names():
             raise ModeNotFoundExceptions("name mode not found")
         else:
-            i = self.__list_name.index(name)
+            i = self.get_modes_names().index(name)
             mode = self.__modes[i]
             return mode
 
@@ -167,7 +164,7 @@ class TransportModeManager:
         to get list_name of modes
         :return: List[names]
         """
-        return self.__list_name
+        return [mode.name for mode in self.__modes]
 
     def add_mode(self, mode_obj: TransportMode):
         """
@@ -178,11 +175,10 @@ class TransportModeManager:
         if not isinstance(mode_obj, TransportMode):
             raise ModeIsNotValidException("mode_obj is not valid")
 
-        if mode_obj.name in self.__list_name:
+        if mode_obj.name in self.get_modes_names():
             raise AddModeExceptions("mode name exists, try with other name")
 
         self.__modes.append(mode_obj)
-        self.__list_name.append(mode_obj.name)
 
     def remove_mode(self, name: str):
         """
@@ -191,9 +187,9 @@ class TransportModeManager:
         :return:
         """
 
-        if name in self.__list_name:
-            i = self.__list_name.index(name)
-            self.__list_name.pop(i)
+        names = self.get_modes_names()
+        if name in names:
+            i = names.index(name)
             self.__modes.pop(i)
         else:
             raise ModeDoesNotExistExceptions("Mode does not exist")
-- 
2.43.0


From e88d69db4dc63ce4b3493c5e0326ae245cd9920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:18 +0000
Subject: [PATCH 27/27] fix: reading a route without frequency no longer adds
 it to the given frequency table

---
 sidermit/optimization/optimizer.py                      | 2 ++
 sidermit/optimization/preoptimization/extended_graph.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/sidermit/optimization/optimizer.py b/sidermit/optimization/optimizer.py
index cd264ba..745a325 100644
--- a/sidermit/optimization/optimizer.py
+++ b/sidermit/optimization/optimizer.py
@@ -96,6 +96,8 @@ class Optimizer:
                 lines_position[n] = route.id
                 n += 1
         else:
+            # reading a route without frequency must not add it to the given table
+            f = f.copy()
             for route in self.network_obj.get_routes():
                 fini[route.id] = f[route.id]
                 fopt.append(route.mode.fini)
diff --git a/sidermit/optimization/preoptimization/extended_graph.py b/sidermit/optimization/preoptimization/extended_graph.py
index 456c9a0..b93e269 100644
--- a/sidermit/optimization/preoptimization/extended_graph.py
+++ b/sidermit/optimization/preoptimization/extended_graph.py
@@ -131,6 +131,9 @@ class ExtendedGraph:
 
             for route in routes:
                 frequency_routes[route.id] = route.mode.fini
+        else:
+            # reading a route without frequency must not add it to the given table
+            frequency_routes = frequency_routes.copy()
 
         # list with all city_nodes
         city_nodes = self.build_city_nodes(graph_obj)
-- 
2.43.0

