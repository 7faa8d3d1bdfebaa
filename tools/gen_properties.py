#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "sidermit/city/graph.py"; D = "sidermit/city/demand.py"
M = "sidermit/publictransportsystem/mode.py"; PA = "sidermit/publictransportsystem/passenger.py"
N = "sidermit/publictransportsystem/network.py"
E = "sidermit/optimization/preoptimization/extended_graph.py"
H = "sidermit/optimization/preoptimization/hyper_path.py"
A = "sidermit/optimization/preoptimization/assignment.py"
U = "sidermit/optimization/users_cost.py"; OP = "sidermit/optimization/operators_cost.py"
I = "sidermit/optimization/infrastructure_cost.py"; K = "sidermit/optimization/constrains.py"
O = "sidermit/optimization/optimizer.py"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "City geometry is exactly what the construction parameters prescribe",
  "A city built from parameters has one CBD and, for every zone, one periphery and one subcenter, with unique ids, standing exactly where the number of zones, mean distance L, periphery ratio g, zone angles, distance asymmetries Gi/Hi and CBD eccentricity put them. Every node's Cartesian and polar coordinates, width, zone and name agree with each other and are the same through every accessor. The city reports back exactly the parameters it was given.",
  ["inputs", "configurations"], "every accepted parameter tuple: any number of zones (0, 1, 2, many), any combination of present or absent optional asymmetry parameters, boundary values included",
  "tests build a handful of 1-8 zone cities, mostly symmetric, and check node counts and which exception is raised; positions under combined asymmetries are never computed independently",
  [G], [("Graph.build_from_parameters and the asymmetry passes", G)],
  [("nodes/zones", "node coordinates, radius, angle, width, id, name", G)], ["Graph.get_nodes", "Graph.get_zones", "Graph.get_cbd", "Graph.get_parameters"])
p("C02", "Streets are exactly the prescribed two-way links with true lengths",
  "For any number of zones the directed streets are exactly periphery-subcenter within each zone, subcenter-CBD for each zone and subcenter-subcenter between neighbouring zones around the ring, each in both directions and each once. The street-existence query agrees with that set for every pair of nodes. The reported length of every street is the Euclidean distance between the final positions of its end nodes, the same in both directions.",
  ["inputs", "configurations"], "every city, built from parameters (with asymmetries) or from a file, with any number of zones and any node ids",
  "tests count edges for a few symmetric cities; end points, ring closure and lengths after asymmetry are not compared with an independent computation",
  [G], [("edge construction per zone, distance table, edge_exist", G)], [("edges", "directed street list", G)],
  ["Graph.get_edges", "Graph.edge_exist", "Graph.get_edges_distance"])
p("C03", "Exporting and importing a city preserves it",
  "Exporting a city and importing the text or file, in any row order, yields a city with the same node ids, names, types, zones, positions and widths and the same streets and lengths. The parameters inferred on import regenerate the node positions (peripheries on their subcenter's ray, CBD eccentricity when the CBD lies on a subcenter's ray), and exporting the imported city again gives the same rows. This holds for node ids and coordinates not produced by the parametric builder as well.",
  ["inputs", "histories"], "all valid cities (parametric or hand-written with arbitrary unique ids, widths and coordinates), all row permutations, and chains of export/import",
  "tests import one or two literal Pajek strings and check counts and exception types; no round trip with asymmetric geometry or permuted rows",
  [G], [("export_graph / graph_to_pajek_file / build_from_content / build_from_file", G)], (), ["Graph.export_graph", "Graph.build_from_content", "Graph.build_from_file", "Graph.get_parameters"])
p("C04", "Malformed cities are refused, never built wrong",
  "Out-of-domain construction parameters and malformed city descriptions (a zone without exactly one periphery and one subcenter, no CBD or several, a CBD outside zone 0, duplicated ids, unknown node type, non-integer id or zone, missing or extra columns, truncated vertex list, negative width, unsupported format) are refused with one of the library's own exceptions, both as text and as file. Domain boundaries themselves are accepted. No refused input yields a city object and every accepted one satisfies the one-CBD, one-periphery-one-subcenter-per-zone, unique-id structure.",
  ["inputs", "fault_sequences"], "every single corruption and combinations of corruptions of valid parameter tuples and valid city descriptions, and the boundary values that must still be accepted",
  "tests try one literal example per exception class; corruptions at other rows, zones or id positions and boundary values are not tried",
  [G, "sidermit/exceptions.py"], [("parameters_validator, node/zone constructors, Pajek parser checks, duplicate-id check", G)], (), ["Graph.build_from_parameters", "Graph.build_from_content", "Graph.build_from_file"])
p("D01", "Parametric demand distributes exactly the requested trips",
  "For a city with at least one zone the parametric demand adds up to the requested total and every origin-destination cell has the documented value: split by zone, between peripheries and subcenters by the generation share, and between CBD, own subcenter and other subcenters by the destination shares (with the one-zone city sending everything to the CBD or its own subcenter). All other cells (CBD origins, periphery destinations, own cell) are zero. Parameters outside the documented ranges or types are refused and the range boundaries accepted.",
  ["inputs", "configurations"], "all cities (parametric or imported with arbitrary ids) times all accepted demand parameters including 0/1 boundaries, plus out-of-range ones",
  "tests build one matrix and check a few cells; conservation over n, boundary shares and arbitrary ids are not covered",
  [D], [("Demand.build_from_parameters / parameters_validator", D)], [("matrix", "OD trips", D), ("total_trips", "sum of trips", D)], ["Demand.get_matrix", "Demand.get_total_trips"])
p("D02", "Demand edits keep total trips equal to the matrix sum",
  "After any sequence of cell edits, whatever way the demand was first built, the reported total equals the sum of all cells and each cell holds the last accepted value. An edit with a negative value or an unknown origin or destination is refused with the library's exception and changes neither the matrix nor the total. Two demands on the same city never share state.",
  ["histories", "inputs"], "all sequences of accepted and refused edits over all construction ways",
  "tests perform single edits; interleaved accepted/refused edits and the running total over histories are not checked",
  [D], [("Demand.change_vij incremental total", D)], [("total_trips", "incrementally maintained sum", D)], ["Demand.change_vij", "Demand.get_matrix", "Demand.get_total_trips"])
p("D03", "Demand survives file and matrix round trips; malformed ones refused",
  "Writing a demand to a file and reading it back on the same city reproduces every cell and the total exactly, and so does building it from a row-by-row matrix in node order. Files with missing or extra columns, non-integer or unknown ids or negative trips, and matrices of the wrong shape or with negative cells, are refused with the library's exceptions. Rows may come in any order; the first line is a header and is skipped whatever its wording.",
  ["inputs", "histories", "fault_sequences"], "all demands over all cities (any ids), row orders, and corruptions at any row or cell",
  "tests read one fixed matrix; no exact round trip, no permuted rows, no corruption position",
  [D], [("matrix_to_file / build_from_file / build_from_content", D)], (), ["Demand.get_matrix", "Demand.get_total_trips"])
p("T01", "Mode and passenger parameters never leave their domains",
  "A transport mode or passenger can only be constructed with, and only ever be changed to, parameter values inside the documented domain (non-negative costs, times, capacities, frequencies; positive speeds; regularity in [0,1]; boarding flag 0 or 1; a name). A refused value raises the library's exception for that parameter and leaves the object as it was; an accepted value, including the exact boundary, is what is read back, and objects do not influence each other. A new mode's stored maximum and initial frequencies are the per-line values times its number of parallel lines.",
  ["inputs", "histories"], "all constructor arguments and all sequences of assignments, valid and invalid, over several objects",
  "tests try single invalid constructor values with one example each; boundary acceptance, later assignments and independence are not tested",
  [M, PA], [("property setters and constructors", M), ("property setters", PA)], [("attributes", "parameter values", M)], ["TransportMode", "Passenger"])
p("T02", "Mode and route registries stay consistent under any edit history",
  "Whatever sequence of adding, removing and renaming modes and adding and removing routes is applied, accepted or refused, a mode registry holds exactly the modes added and not removed, with unique names and lookup by the current name returning that mode. A network holds exactly the routes added and not removed (nor belonging to a removed mode), with unique ids and lookup by id returning that route; the modes of its routes are registered and there are never three modes, two modes with the same name, or two modes neither of which has a single line. A refused operation raises the library's exception and changes nothing.",
  ["histories"], "all sequences of add/remove/lookup operations, including refused ones, on registries and networks",
  "tests add or remove one element at a time; histories with several routes per removed mode, re-adding, refused operations in between are not covered",
  [M, N], [("TransportModeManager add/remove/get", M), ("TransportNetwork add/remove route and mode", N)], [("routes, route ids, modes", "parallel lists", N)], ["TransportNetwork.get_routes", "TransportNetwork.get_route", "TransportNetwork.get_modes", "TransportModeManager.get_modes"])
p("T03", "Routes are accepted exactly when both directions are valid",
  "A custom route is accepted exactly when it has an id, a transport mode, non-empty node and stop sequences in both directions, the two directions close a cycle, no direction repeats a node, every stop belongs to its own direction's nodes and each direction's first and last stops are its terminals. A network accepts it exactly when, in addition, every consecutive pair of nodes in both directions is a street of the city. An accepted route keeps exactly the given sequences; everything else is refused with the library's exceptions.",
  ["inputs", "fault_sequences"], "all walks over all cities and all single or combined corruptions in either direction",
  "tests use one invalid example per rule, mostly in the forward direction",
  [N], [("Route validators", N), ("TransportNetwork.add_route street check", N)], (), ["Route", "TransportNetwork.add_route"])
p("T04", "Predefined route families are exactly the documented lines",
  "For every city and mode, each predefined family (circular, feeder, radial, diametral, tangential with their short, express and jump options) yields exactly the documented lines: one per zone (half as many when the jump pairs opposite zones), with unique ids, the documented node sequence around the ring or through the CBD, the return direction being its reverse, and stops at every node or only at the ends when express. Every generated line can be added to a network of that city. Invalid jumps, modes or too few zones are refused.",
  ["configurations", "inputs"], "all cities with any number of zones and any ids, times all modes, jumps and flags",
  "tests check counts for a few cities; sequences for wrap-around zones, jump pairing, odd/even n and all flag combinations are not compared",
  [N], [("get_circular/feeder/radial/diametral/tangencial_routes", N)], (), ["TransportNetwork.get_*_routes"])
p("T05", "The saved routes file describes the network completely",
  "The routes file written for a network has one row per route in registration order with its id, mode name and the four sequences, such that parsing each row gives back exactly the sequences of that route and rebuilding the routes from the file gives an equivalent network. Sequences survive conversion to text and back unchanged. Saving does not change the network.",
  ["inputs", "histories"], "all networks (custom, predefined, circular) after any edit history",
  "no test reads the file back",
  [N], [("routes_to_file, sequences_to_string, sequences_to_list", N)], (), ["TransportNetwork.routes_to_file"])
p("X01", "The extended graph is an exact image of city, routes and frequencies",
  "The extended graph has one city node per served city node, one stop per served node and mode, and one route node per route, direction and stop visit (closing visit of circular lines merged), and nothing else. Its links are exactly: access both ways at the mode's access time, boarding at the route's frequency per parallel line except at a terminal end, alighting at the transfer penalty except at a terminal start, and riding between consecutive stops with time equal to the street distance along the route's own path in that direction divided by the mode's speed. This holds whether frequencies are given or defaulted and whatever nodes are passed without stopping.",
  ["inputs", "configurations"], "all cities, networks (custom with different paths per direction, express, circular), modes and frequency tables",
  "tests count nodes and edges of a few regular networks; ride times with skipped stops, asymmetric directions and circular wrap-around are not computed independently",
  [E], [("ExtendedGraph construction", E)], [("extended nodes and edges", "graph used by all later stages", E)], ["ExtendedGraph.get_extended_graph_nodes", "ExtendedGraph.get_extended_graph_edges"])
p("H01", "Origin-destination labels are the true optimal expected times",
  "For every origin, destination, network, frequency table and passenger, each label is the minimum expected generalised time over all travel strategies (access and waiting weighted by the passenger's relative values, common lines combined by frequency, transfer penalty at every alighting except at the destination), with boarding start stops charged their own access time. A label is infinite exactly when the destination cannot be reached from there. Labels do not depend on the order in which routes were added or on earlier queries.",
  ["inputs", "configurations"], "all connected or disconnected networks with 1-2 modes, arbitrary frequencies including zero, regularities, penalties and value-of-time ratios",
  "tests compare a few labels on one tiny network; optimality is a global statement over all strategies",
  [H], [("Hyperpath.build_hyperpath_graph (Spiess-Florian)", H)], [("labels", "expected generalised time to destination", H)], ["Hyperpath.build_hyperpath_graph", "Hyperpath.get_hyperpath_OD"])
p("H02", "Strategies realise the labels and cover every demanded pair",
  "At every node the chosen successors realise its label: a stop boards exactly the attractive lines (faster than its expected time) with their frequencies added up, or else transfers by the best single link; other nodes follow a best single link. The elementary paths reported from each start stop are exactly all unfoldings of those successors, each one a connected chain of links from origin to destination without repetition. All pairs with trips, and only those, are covered with their trips, and a demand pair without connection or an invalid set of modes is refused with the library's exception, every time it is asked.",
  ["inputs", "configurations", "histories"], "all networks and OD matrices, including unserved nodes and disconnected pairs, and repeated queries on one instance",
  "tests count paths on one network and do one disconnected example",
  [H], [("get_hyperpath_OD, get_all_hyperpaths, network_validator", H)], [("successors/hyperpaths", "strategy per OD pair", H)], ["Hyperpath.get_all_hyperpaths", "Hyperpath.network_validator"])
p("A01", "Trips are split between start stops without loss, by walking distance",
  "For every demanded pair the shares given to the start stops are between 0 and 100 and add up to 100. With one available stop it gets everything; with a central single-line mode and a second mode, the split is the one given by the walking distance at which a passenger is indifferent between the central stop and the nearest stop of the other mode's evenly spaced lines, the first half a spacing from the centre. Equal labels and indifference points falling exactly on a line's position are covered too.",
  ["inputs", "configurations"], "all label pairs (including infinite, equal and threshold values), numbers of lines, city widths, walking speeds and value-of-time ratios",
  "tests check one or two splits; conservation at thresholds and for all line counts is not covered",
  [A], [("Assignment.get_assignment", A)], [("assignment", "percent of OD trips per start stop", A)], ["Assignment.get_assignment"])
p("A02", "Passenger flows are conserved through every stop and section",
  "Boardings, alightings and section loads per vehicle, multiplied by frequency, conserve passengers: every trip boards and finally alights at its destination, transfers board as often as they alight, on each route and direction the load leaving a stop equals the load arriving plus boardings minus alightings, and no value is negative. Passengers at a stop split over its attractive lines in proportion to frequency, following the given strategies. The most loaded section and the derived vehicle size of each route equal the maximum of its section loads.",
  ["inputs", "configurations"], "all networks, demands, splits and frequencies (including zero on some routes and frequencies differing from those used for the strategies)",
  "tests check a few numbers on one network; conservation over transfers, branching strategies and circular lines is not covered",
  [A, O], [("Assignment.get_alighting_and_boarding, most_loaded_section", A), ("Optimizer.get_k", O)], [("z, v, loads", "pax per vehicle", A)], ["Assignment.get_alighting_and_boarding", "Assignment.most_loaded_section"])
p("K01", "Users' time and transfer accounting follows every passenger",
  "Access, waiting, in-vehicle time and transfers are the sums over all passengers of what their strategy makes them do: initial lateral and access time and access time at every mode change, waiting by regularity over the combined per-line frequency at every boarding, riding time plus dwell at intermediate stops (boarding and alighting simultaneous or sequential) plus half the alighting dwell, in the direction actually travelled, and one transfer per alighting short of the destination. All are non-negative and each passenger counts with weight one. The users' cost is their combination with the passenger's social values.",
  ["inputs", "configurations"], "all networks (including circular lines, routes with different paths per direction, mode changes), demands and frequencies",
  "tests compare totals on one regular network; weighting of mode changes, circular and asymmetric routes are not covered",
  [U], [("UsersCost.resources_consumer, get_users_cost", U)], (), ["UsersCost.resources_consumer", "UsersCost.get_users_cost"])
p("K02", "Operators' cost is exactly travel plus dwell, per vehicle and seat",
  "Each route's running time is the sum of its street lengths in both directions over its mode's speed; its cycle time adds dwell at every stop with boardings or alightings in each direction, summed for sequential and the larger of both for simultaneous operation. The operators' cost is the sum over active routes of (vehicle cost plus seat cost times vehicle size) times frequency times cycle time; routes with zero frequency cost nothing.",
  ["inputs", "configurations"], "all networks, boarding/alighting tables (stops with only boardings or only alightings included), frequencies and vehicle sizes",
  "tests check one network with one table",
  [OP], [("OperatorsCost.lines_travel_time, get_cycle_time, get_operators_cost", OP)], (), ["OperatorsCost"])
p("K03", "Infrastructure is charged once per street and mode actually used",
  "The infrastructure length of a mode is the total length of the distinct streets, counted once whatever the direction or the number of routes, run over in either direction by that mode's routes with non-zero frequency, times its number of parallel lines. The infrastructure cost is the sum over modes of that length times the mode's unit cost. Routes with zero frequency and streets of the other mode never contribute.",
  ["inputs", "configurations"], "all networks with overlapping routes, different paths per direction, any ids, and all frequency tables",
  "tests check one network; overlaps between routes and directions and zero frequencies are barely covered",
  [I], [("InfrastructureCost", I)], (), ["InfrastructureCost.get_mode_network_distance", "InfrastructureCost.get_infrastruture_cost"])
p("K04", "Constraints are exactly the capacity and street frequency excesses",
  "The constraint vector has one entry per route, in network order, equal to the route's most loaded section minus its mode's vehicle capacity, followed by one entry per directed street and mode equal to the sum of per-line frequencies of that mode's routes using that street in that direction minus the mode's maximum per-line frequency. A frequency vector is feasible exactly when all entries are at most zero. The vector's length is fixed for a given network.",
  ["inputs", "configurations"], "all networks, loads and frequency tables",
  "tests check one network's vector",
  [K, O], [("Constrains", K), ("Optimizer.constrains, get_constrains", O)], (), ["Constrains", "Optimizer.get_constrains", "Optimizer.constrains"])
p("O01", "The objective is the exact, repeatable sum of the three costs",
  "The objective evaluated at any frequency vector equals operators' plus infrastructure plus users' cost of the flows induced by the strategies and splits fixed at construction, with vehicle sizes equal to most loaded sections and each position of the vector belonging to the same route throughout. Evaluating it or the constraints is pure: repeated and interleaved evaluations give identical results, and city, demand, passenger, network and given frequencies are never modified. Two optimisers built from equal inputs agree, in one process or in different ones.",
  ["inputs", "histories"], "all valid problem instances, all frequency vectors and all evaluation histories",
  "tests exercise the stages separately with one vector; end-to-end composition, purity and repeatability are not tested",
  [O], [("Optimizer.__init__, f0, fopt_to_f, VRC, get_constrains", O)], [("f_opt, lines_position", "vector/route mapping", O)], ["Optimizer.VRC", "Optimizer.get_constrains"])
p("O02", "Optimisation returns the best acceptable iterate or a clear failure",
  "The iterative optimisation re-optimises - the objective over non-negative frequencies meeting all constraints, from the modes' initial frequencies - with strategies updated to the latest frequencies until two successive frequency vectors are closer than the tolerance or the iteration limit is exhausted, and never more. Its result is the cheapest among the iterates that terminated acceptably, with non-negative frequencies and constraint violation below 0.001, with frequencies under one vehicle per day reported as zero; if there is none it raises the library's exception instead of returning. A returned result is non-negative, feasible and comes from a run of the solver.",
  ["fault_sequences", "histories", "inputs"], "all sequences of inner-solver outcomes (statuses, violations, negative or tiny frequencies, costs, distances) and real runs on small networks",
  "no test runs the optimisation loop at all",
  [O], [("external_optimization, get_better_result, status_optimization, external_optimization_tolerance, network_optimization", O)], [("list of iterates", "candidate results", O)], ["Optimizer.external_optimization", "Optimizer.network_optimization", "Optimizer.get_optimization_value"])
p("O03", "Reported results agree with the optimised network",
  "The overall results equal, per trip, the costs, times and transfers recomputed for the final frequencies with strategies rebuilt at them, and per mode the fleet, mean vehicle size and number of lines of its active routes. The per-route results list every route in order with its frequency, per-line frequency, vehicle size, fleet, cycle time, operator cost per boarding passenger, the section-by-section load ratio to vehicle size in each direction along its node sequence, and the smallest such ratio; inactive routes appear with zeros. The printed and saved reports show the same numbers, and asking for results without an optimisation is refused.",
  ["inputs", "configurations"], "all networks (circular, express, inactive or empty routes) and final frequency vectors",
  "no test covers the reports",
  [O], [("last_iteration, get_network_results, get_overall_results, string_* and write_file_network_results", O)], [("better_res", "stored result", O)], ["Optimizer.get_network_results", "Optimizer.get_overall_results", "Optimizer.string_network_results", "Optimizer.write_file_network_results", "Optimizer.string_overall_results"])
p("M01", "Results do not depend on naming, order, units or earlier edits",
  "Two descriptions of the same planning problem give the same labels, splits, objective, constraints and overall results. Equivalent descriptions differ in node ids and names, route ids, mode names and their order, the order of city rows, routes and demand entries, rotation or mirroring of the city, zone numbering around the ring, which direction of a route is called the first, the node a circular line is listed from, an added route without service, the units of length, money (costs scale accordingly) and of the passenger's relative values of time, or the earlier edits, refused calls, exports and imports and analyses through which the same objects were reached. Where strategies tie, labels still agree.",
  ["configurations", "inputs", "histories"], "all problems without ties in their strategies, times all combinations of such re-descriptions and histories (labels also with ties)",
  "each test uses one fixed description with regular geometry and ids in order, so an accidental dependence on order, ids or orientation cannot show",
  [E, H, A, O, G], [("whole pre-optimisation pipeline and objective", O)], (), ["Optimizer.VRC", "Optimizer.get_constrains", "Optimizer.get_overall_results", "Optimizer.labels"])
p("R01", "Printed strategies, graphs and tables say exactly what the data say",
  "The text forms of a strategy graph, of the elementary paths of one pair, of all pairs, of the extended graph, of boardings and alightings, and of solver and optimisation outcomes list every element of the data they are given exactly once under its own node, mode, route and direction names, with the number shown in the unit named, and nothing else. Printing never changes the data.",
  ["inputs", "configurations"], "all networks, strategies and tables (unreachable nodes, several modes, inactive routes, arbitrary names included)",
  "tests never look at the printed text",
  [H, E, A, O], [("string_hyperpath_graph, string_hyperpaths_OD, string_all_hyperpaths", H), ("ExtendedGraph.__str__", E), ("str_boarding_alighting", A), ("string_information_internal_optimization, string_network_optimization", O)], (),
  ["Hyperpath.string_*", "str(ExtendedGraph)", "Assignment.str_boarding_alighting", "Optimizer.string_network_optimization"])
p("V01", "Every plot shows exactly the requested city, routes and nothing else",
  "A plot of a city shows each node once, at its position, labelled with its id and coloured by its kind, and every street; a plot of a network shows in addition the paths and stops of the requested routes (all by default) in the requested direction (both by default). A strategy plot shows exactly the nodes and links of its paths. Earlier plots never show through, a picture is saved at the given path, an unknown route is refused without leaving a file, and plotting changes neither the city nor the network nor the list it was given.",
  ["inputs", "histories"], "all cities (without zones too), networks, route selections, directions and sequences of plots in one process",
  "the plot tests are commented out; a picture is never inspected",
  [G, N, H], [("Graph.plot", G), ("TransportNetwork.plot", N), ("Hyperpath.plot", H)], [("current matplotlib figure", "process-wide drawing state", "matplotlib.pyplot")], ["Graph.plot", "TransportNetwork.plot", "Hyperpath.plot"])
p("C05", "City parts accept exactly the valid values and keep them",
  "Nodes, zones and streets made directly by the user keep exactly the ids, names, coordinates, radius, angle, width and neighbours they were given, boundary values included. A missing or empty required value, a negative radius or width, an angle outside 0 to 360 degrees, a CBD outside zone 0, a zone whose nodes are missing, of the wrong kind or of another zone, and a street that is not one of the city model's kinds, in either orientation, are refused with a library exception and nothing else is.",
  ["inputs"], "all argument combinations of the node, CBD, zone and street constructors, valid ones and ones corrupted in one place",
  "tests try one bad value of some arguments; boundaries, both orientations of every kind of street and mixed-up zones are not covered",
  [G], [("Node, CBD, Zone, Edge constructors and factories", G)], (), ["Node.build", "Zone.build", "Edge", "CBD"])
p("F01", "A saved file is complete, exact and readable, or the error is raised",
  "Saving a city, a demand, a route table or a result report leaves at the given path, given as text or path object, exactly the complete export, replacing whatever was there, whatever names it holds and whatever the locale of the process; saved cities and demands can be read back. When it cannot be written or read completely (missing directory or file, directory as target, full disk) an exception reaches the caller. Saving changes neither the saved object nor any other file, and works again after a failure.",
  ["fault_sequences", "inputs", "histories"], "all objects and names, sequences of saves over existing, longer, shorter or linked files, locales, and every point at which the device runs full",
  "tests save one small ASCII file under one locale and never see a write fail",
  [G, D, N, O], [("Graph.graph_to_pajek_file, build_from_file", G), ("Demand.demand_to_file, build_from_file", D), ("TransportNetwork.routes_to_file", N), ("Optimizer.write_file_network_results", O)], (),
  ["Graph.graph_to_pajek_file", "Demand.demand_to_file", "TransportNetwork.routes_to_file", "Optimizer.write_file_network_results", "Graph.build_from_file", "Demand.build_from_file"])
p("I01", "Planning sessions in one process never influence each other",
  "Everything a planning session observes - cities, demands, networks, strategies, costs, optimisation results, reports, files, refusals - is what it would observe alone in a fresh process, whatever other sessions run in the same process before it, interleaved with it, in other threads on their own objects, or as further analyses of the same city and network. Nothing leaks through default values, class or module state, discarded objects, equal names and ids, or earlier failures.",
  ["schedules", "histories"], "all combinations of sessions (equal ids with other distances or parameters included) and all interleavings of them",
  "each test builds its own objects with the same few values, so state that survives from one object to the next cannot show",
  [G, D, N, H, O], [("default arguments, class attributes, module state and caches of the whole package", "sidermit/")], [("class and module attributes", "shared state", "sidermit/")], ["every public observation"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
