#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if "observe_at" in kw: kw["observe_at"] = [kw["observe_at"]]
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

A = "agi/"
prop("G01", "Construction stores exactly the graph it was given",
 "After constructVerts, one constructEdges per edge type and constructGhosts (array or vector forms, constructGraph, or the C interface), every part reports exactly the given vertices (in the given order), vertex weights, edges, edge weights, edge ids (hypergraph, in the given order) and pins/endpoints, with every non-local endpoint a ghost owned by the given part. Global counts equal the number of distinct vertices, edges and pins over all parts, whatever the order in which edges are listed and however they are distributed.",
 ["inputs","configurations"], "every traditional/hyper graph, edge order, number of edge types (1..7), weights, distribution over any number of parts",
 "The tests build a few regular rings, trees and cliques with unit weights and edges grouped by source; wrong bookkeeping for unsorted edges, multi-edges, isolated vertices, extra types or empty parts never shows.",
 [A+"agiConstruct.cpp", A+"agiVertex.cpp", A+"agiEdge.cpp"],
 [("constructVerts/constructEdges/constructGhosts, both overloads", A+"agiConstruct.cpp"),
  ("global counts", "constructGhosts in "+A+"agiConstruct.cpp")],
 observe_at="Ngraph iteration, weight, degree, owner, numGlobal*")

prop("G02", "Iterators and lookups agree with one graph",
 "On every constructed or migrated graph, begin(), begin(t), beginGhosts(), edges(v,t), adjacent(v,t), pins(e), u/v(e), degree, localID, globalID, find, findGID and isEqual all describe the same graph: each entity is visited exactly once, adjacency is the relation given by the edges (traditional: the other end of each out-edge; hypergraph: every pin of every edge of v, v's own pin included), and ids resolve back to the entity. Reading never changes what later reads return.",
 ["inputs","histories"], "every graph, every vertex/edge/type and every order of read operations",
 "Tests count degrees on regular graphs with one edge type; a wrong offset, type confusion or early stop needs irregular degrees, several types, self loops or single-vertex edges.",
 [A+"agiIterate.cpp", A+"agiVertex.cpp", A+"agiEdge.cpp", A+"Iterators"],
 [("iterators", A+"Iterators/*.h, "+A+"agiIterate.cpp"), ("edges/adjacent/pins", A+"agiVertex.cpp, "+A+"agiEdge.cpp")],
 observe_at="Ngraph traversal API")

prop("G03", "Second adjacencies are the adjacencies of the chosen edge type",
 "After create_vev_adjacency(t,compress) / create_eve_adjacency(t,compress), iterating vev_begin(v,t) (eve_begin(e)) yields, uncompressed, one entry per path v-edge-neighbour (edge-local vertex-edge) of type t, and, compressed, each distinct other neighbour exactly once and never the entity itself. Calling it again, for another type or with the other compress flag replaces only that type's adjacency.",
 ["inputs","histories"], "every graph, edge type, compress flag, and sequence of (re)creations",
 "The only test walks type 0 of fixed graphs; type mix-ups, duplicates and re-creation need several edge types and irregular overlap.",
 [A+"agiConstruct.cpp", A+"agiIterate.cpp"],
 [("create_vev_adjacency, create_eve_adjacency", A+"agiConstruct.cpp"), ("VEVIterator/EVEIterator", A+"agiIterate.cpp")],
 observe_at="iterate(VEVIterator*&), iterate(EVEIterator*&)")

prop("G04", "Part-boundary queries match the true distribution",
 "For every edge, getResidence is exactly the set of parts that own one of its vertices, isResidentOn answers membership in that set (for a hypergraph edge), and isCut is true exactly when some vertex of the edge is not owned by this part; owner(v) is this part for local vertices and the owning part for ghosts. This holds after construction, migration and changeOwners (with parts renumbered).",
 ["inputs","histories"], "every graph, distribution and history of migrations/owner renumberings",
 "Tests check residence on one fixed ring; irregular hyperedges spanning three or more parts, with single-owner ghosts, are not sampled.",
 [A+"agiEdge.cpp", A+"agiVertex.cpp"],
 [("getResidence/isResidentOn/isCut", A+"agiEdge.cpp"), ("owner/changeOwners", A+"agiVertex.cpp")],
 observe_at="Ngraph::getResidence, isResidentOn, isCut, owner")

prop("G05", "Migration preserves the global graph and obeys the plan",
 "Any sequence of migrate(plan)/repartition calls leaves the global graph unchanged: the same vertices with the same weights and coordinates, and for every edge type the same edges with the same weights and endpoints/pins. Every planned vertex is afterwards local on exactly its destination, every unplanned vertex stays, and each part holds exactly the edges it must (traditional: edges whose source it owns; hyper: edges with a pin it owns), once.",
 ["histories","inputs"], "every graph (any edge types, weights, coordinates; traditional graphs list each edge in both directions), any plan including no-ops, part emptying, swaps, and any sequence of migrations",
 "Tests migrate fixed graphs with one fixed plan and only check validity or counts; loss, duplication or weight mix-ups of particular edges under particular plans go unseen.",
 [A+"agiMigrate.cpp", A+"agiMigration.cpp"],
 [("migrate/getAffected/addEdges/sendEdges/recvEdges", A+"agiMigrate.cpp"), ("repartition", A+"agiMigrate.cpp")],
 observe_at="graph dump of all parts before/after")

prop("G06", "Migration leaves a correct ghost layer",
 "After any sequence of migrations or repartitions every part's ghosts are exactly the non-local endpoints of its edges, each ghost's owner is the part where that vertex is now local, its weight equals the owner's weight, and checkValidity accepts the graph. Global vertex, edge and pin counts still equal the number of distinct entities.",
 ["histories","inputs"], "every graph (traditional: edges in both directions), edge-type mix and migration history",
 "Stale ghost owners appear only when both ends of an edge move in the same migration to different parts, or when the edge is of a later type; tests use fixed single-type plans.",
 [A+"agiMigrate.cpp", A+"agiConstruct.cpp", A+"agiValid.cpp"],
 [("updateGhostOwners, ghost_owners in addEdges/sendEdges/recvEdges", A+"agiMigrate.cpp"), ("ghost weights", "constructGhosts in "+A+"agiConstruct.cpp")],
 observe_at="beginGhosts/owner/weight/checkValidity")

prop("G07", "getPartition maps every original vertex to its current part",
 "After setOriginalOwners and any sequence of migrations, getPartition() on each part contains exactly the vertices that were on that part at that time, mapped to the part where each is now local; originalOwner(v) travels with v. resetOwnership/resetPartition make the current distribution the new reference.",
 ["histories"], "every graph, sequence of migrations, repartitions, balances and resets",
 "Tests compare sizes after one move; a vertex moved twice, returned home, or moved after a reset is never followed.",
 [A+"agiMigrate.cpp", A+"agiVertex.cpp"],
 [("getPartition, original owner pack/unpack", A+"agiMigrate.cpp"), ("setOriginalOwners/resetOwnership/resetPartition", A+"agiVertex.cpp")],
 observe_at="Ngraph::getPartition, originalOwner")

prop("G08", "Save then load reproduces the graph",
 "saveToFile writes each part in the documented .bgd layout (big endian); followed by loadFromFile with the same number of parts, into a fresh or an already populated graph, gives on each part the same vertices (in the same local order), weights, edges, edge weights, endpoints/pins, ghosts, owners, edge types and global counts. Saving does not change the graph, and saving the loaded graph gives files of the same content.",
 ["inputs","histories"], "every graph with ids below 2^32, any number of edge types and parts, before/after migration",
 "No test in the project loads or saves a .bgd file: the sample graphs are an external download.",
 [A+"agiIO.cpp"],
 [("saveToFile/loadFromFile", A+"agiIO.cpp")],
 observe_at="graph dump; bytes of prefix_#.bgd")

prop("G09", "A binary edge list loads as exactly its graph",
 "createBinGraph on an edge-list file of (u,v) pairs yields, for any number of processes, the traditional graph whose vertices are 0..(largest id in the file), each local on exactly one process, and whose edges are exactly the file's pairs u->v, each stored once on the part of u (a duplicate pair is a second edge). With a vertex-partition file (one part per line) each vertex is on the listed part; without one the vertices are block-distributed in order of id (N/np+1 per process). Ids with no edge are isolated vertices; every non-local endpoint is a ghost with its true owner.",
 ["inputs","configurations"], "every edge list (including duplicates and id gaps), part file and process count",
 "The existing test needs downloaded data and is not run.",
 ["interfaces/binGraph.cpp"],
 [("load_edges/exchange_edges/create_dist_csr", "interfaces/binGraph.cpp")],
 observe_at="graph dump after createBinGraph")

prop("G10", "Tags behave as independent per-entity variables",
 "For any number of int/double/long tags on vertices or on any edge type, a get returns the value most recently set for that tag and entity, for every representable value; setting one tag or entity never affects another, and destroying a tag leaves the others intact.",
 ["histories","inputs"], "every sequence of create/set/get/destroy over several tags, types and entities",
 "Tests set one tag per type and read it back immediately; cross-talk, truncation and wrong sizing need interleaved tags and extreme values.",
 [A+"agiTag.cpp"],
 [("GraphTag get/set", A+"agiTag.cpp")], observe_at="get*Tag")

prop("G11", "Ghost tags and ghost weights carry the owner's value",
 "A ghost tag created from a callback holds, for every ghost of every part, the callback's value on the part owning that vertex, for int, double and long values. Likewise weight(ghost) is the owner's weight at the time the ghosts were built.",
 ["inputs","histories"], "every graph, distribution, value function and migration history",
 "Tests use a function of the global id that any part can compute, so a value taken from the wrong vertex or never communicated is invisible.",
 [A+"agiTag.cpp", A+"agiConstruct.cpp", A+"agiVertex.cpp"],
 [("create*GhostTag, shareTag", A+"agiTag.cpp")], observe_at="get*Tag on ghosts, weight(ghost)")

prop("G12", "checkValidity accepts consistent graphs and rejects corrupt ones",
 "checkValidity returns true on every part for every consistently constructed, loaded or migrated graph. It returns false on every part whose recorded global vertex, edge or pin counts are wrong, and on the affected part when a ghost's recorded owner is that part itself or no part at all, its local pin count does not match its edges, or an edge of one of its vertices does not list that vertex; also when only one part is wrong it returns on all of them. It never changes the graph.",
 ["inputs","histories"], "every consistent graph; every corruption of the listed kinds",
 "Tests only call it on good graphs and ignore the return value.",
 [A+"agiValid.cpp"],
 [("checkValidity", A+"agiValid.cpp")], observe_at="return value of checkValidity")

prop("G13", "VTK output describes the graph",
 "writeVTK produces one well-formed .vtu piece per part, referenced by one .pvtu, whose points are the local vertices (and edge centres or ghost points) at the vertices' coordinates, with one line cell per vertex-edge connection, and whose data arrays have one value per point/cell equal to the vertex/edge/part/tag value.",
 ["inputs","configurations"], "every graph with coordinates, any part count and optional tag",
 "Tests write files and never read them.",
 [A+"agiVTK.cpp"],
 [("writeVTK and helpers", A+"agiVTK.cpp")], observe_at="the written files")

prop("G14", "A reused graph keeps nothing of its previous content",
 "Constructing or loading a new graph into an Ngraph that already held one (of either kind, with weights, coordinates, several edge types, second adjacencies or ghosts), or removing an edge type with removeEdges, leaves a graph indistinguishable from one built fresh with the remaining content; removeEdges(t) drops exactly the edges of type t (its ghosts at the latest at the next migration) and later migrations still work.",
 ["histories"], "every sequence of constructions, loads, removals and migrations on one Ngraph",
 "Tests build every graph once in a fresh object.",
 [A+"agiConstruct.cpp", A+"agiIO.cpp"],
 [("destroyData/removeEdges/constructVerts", A+"agiConstruct.cpp")], observe_at="graph dump; memory checker")

prop("G15", "Migration timers account for every update",
 "For any number of named timers on a MigrationTimers object, getTime and getCount of a timer return the sum and number of exactly the updates made to that timer, and processMax/processAvg/perCallProcessMax/perCallProcessAvg the maximum and average over processes of its (per call) time. A timed migrate adds exactly one update to each of setup, comm, build and total, and the total covers the stages.",
 ["histories","configurations"], "every sequence of addTimer/update/read, names, part count and timed migrations",
 "Tests print one timer set and never compare it with the updates.",
 [A+"agiMigrationTimers.cpp", A+"agiMigrate.cpp"],
 [("MigrationTimers", A+"agiMigrationTimers.cpp"), ("timer updates", "Ngraph::migrate in "+A+"agiMigrate.cpp")],
 observe_at="MigrationTimers accessors")

prop("B01", "Diffusive balancing only moves vertices",
 "balance() with a diffusive input changes nothing but the distribution: after it (and after any sequence of balances) the global vertices, weights, edges of every type, edge weights and pins are those of the input, the ghost layer is correct, checkValidity holds, and getPartition maps each part's original vertices to where they now are. It terminates for every input.",
 ["inputs","histories","configurations"], "every graph, weight distribution, priority list (vertices, edge types), tolerance, step factor and part count",
 "Tests balance two fixed graphs with edge or vertex weights equal to one and check validity only.",
 ["partition/engpar.cpp", "partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_selector.cpp", A+"agiMigrate.cpp"],
 [("Balancer::balance/runStep", "partition/Diffusive/src/engpar_balancer.cpp"), ("Selector", "partition/Diffusive/src/engpar_selector.cpp")],
 observe_at="graph dump before/after, getPartition")

prop("B02", "Balancing honours the tolerance and sends weight only to lighter neighbours",
 "For a single criterion, balance() leaves the partition untouched when the criterion's imbalance (max over average) is already within its tolerance. Otherwise one step of it moves vertices from a part only to a strictly lighter part with which it shares a cut edge of the sides edge type (hypergraph: whose side is not above the average side, unless there are only two parts), moves only vertices on a boundary edge, and sends no more than the part's summed targets ((weight difference) x (share of the boundary) x (step factor)) plus one cavity. A part with targets sends something when some boundary cavity touches targets only. With two parts it meets its target or exhausts its boundary, and balancing never ends with a maximum part weight above both the initial maximum and the average plus one cavity. Multiplying all vertex weights by a power of two does not change which vertices balancing the vertices moves.",
 ["inputs","configurations"], "every graph, weights, tolerance and part count with one priority",
 "Tests print imbalance and never compare it.",
 ["partition/Diffusive/src/engpar_targets.h","partition/Diffusive/src/engpar_sides.h","partition/Diffusive/src/engpar_selector.cpp","partition/Diffusive/src/engpar_balancer.cpp"],
 [("Targets/Sides/Weights/Selector", "partition/Diffusive/src/")],
 observe_at="imbalance before/after")

prop("B03", "Later priorities do not spoil completed ones",
 "When balance() is given several priorities, each vertex or hyperedge criterion that was completed earlier in the list keeps its maximum part weight at or below the larger of its tolerance times the average and its maximum at completion while the later criteria are balanced, for any number of priorities. A completed criterion whose parts have room for everything changes nothing: the later criteria move exactly the vertices they would move without it.",
 ["inputs","configurations"], "every graph and ordered list of vertex/edge-type priorities with tolerances",
 "Tests run fixed multi-criteria inputs and only check validity.",
 ["partition/Diffusive/src/engpar_balancer.cpp","partition/Diffusive/src/engpar_selector.cpp"],
 [("completed dimensions, Selector::trim/calculatePlanWeights", "partition/Diffusive/src/engpar_selector.cpp")],
 observe_at="imbalance of every criterion after balance")

prop("B04", "Weight balancing moves weight, never creates or loses it",
 "balanceWeights changes only vertex weights: the total weight is conserved, every vertex's new weight is its old weight minus what its entries in getWeightPartition send, the two sides of every transfer record opposite amounts, and the graph's structure and ownership are untouched. Nothing moves when the imbalance is within the tolerance; a part sends weight only to lighter parts that share a cut edge with it, in one step never more than the target for that part, and it does send when it can. A WeightMigration moves exactly the weight planned from each vertex to exactly the named peer vertex, accumulating over entries and migrations, and getWeightPartition reports exactly the net flow of every pair since the last resetPartition.",
 ["inputs","histories"], "every graph, weights, weight-migration plan and tolerance",
 "Tests print results and check nothing about which vertex received the weight.",
 [A+"agiWeightMigrate.cpp", A+"agiWeightMigration.cpp","partition/Diffusive/src/engpar_weightBalancer.cpp","partition/Diffusive/src/engpar_weightSelector.cpp"],
 [("migrate(WeightMigration*)", A+"agiWeightMigrate.cpp"), ("WeightBalancer/WeightSelector", "partition/Diffusive/src/")],
 observe_at="vertex weights, getWeightPartition")

prop("B05", "Splitting distributes the graph and conserves it",
 "split() with any supported method leaves on the large communicator exactly the graph that was on the original parts (vertices, weights, edges, edge weights, pins), with a correct ghost layer, every vertex on a valid part - for local methods only on one of the parts its own original part listed - and getPartition on each original part mapping its vertices to their new parts. The communicator in force afterwards is the large one, with graph part ids renumbered to it. The external partitioner is handed the true graph (adjacency, weights, part count, tolerance, owners) and the parts it returns are the parts the vertices go to.",
 ["inputs","configurations"], "every graph, original-part layout, split factor, tolerance, edge type and method (global/local ParMETIS, Zoltan)",
 "No stable test runs a split: the drivers need downloaded graphs.",
 ["partition/Multilevel/engpar_split.cpp","partition/Multilevel/engpar_parmetis.cpp","partition/Multilevel/engpar_zoltan.cpp","partition/engpar_input.cpp"],
 [("split, EnGPar_ParMETIS, EnGPar_Zoltan", "partition/Multilevel/")],
 observe_at="graph dump on the large communicator, getPartition")

prop("B06", "Metrics report the true partition statistics",
 "evaluatePartition reports, and getWeight/getImbalance-style functions return, the vertex imbalance, per-type edge imbalance, edge cuts, empty parts, disconnected components and neighbours that follow from the definition applied to the actual distribution, for any graph and part count, and calling them never alters the graph or reads memory it does not own.",
 ["inputs","configurations"], "every graph, number of edge types, part count",
 "Tests call the function and ignore its output.",
 ["partition/engpar.cpp","partition/Metrics/engpar_metrics.cpp"],
 [("evaluatePartition", "partition/engpar.cpp"), ("getWeight/getEdgeCut etc.", "partition/Metrics/engpar_metrics.cpp")],
 observe_at="stdout of evaluatePartition; return values")

prop("B07", "Selection queues visit every part-boundary edge exactly once",
 "createIterationQueue and createDistanceQueue (push or pull based) return each edge of type 0 that is on the part boundary exactly once and nothing else, without changing the graph, for every local graph including disconnected ones and ones with no boundary. On a hypergraph the boundary edges of each connected component come in order of decreasing distance from the component's deepest edges (those farthest from the boundary).",
 ["inputs"], "every distributed graph, including empty, disconnected and boundary-free parts",
 "Tests run it on two connected regular graphs.",
 ["partition/Diffusive/src/engpar_queue.cpp"],
 [("createIterationQueue/createDistanceQueue", "partition/Diffusive/src/engpar_queue.cpp")],
 observe_at="contents of the returned Queue")

prop("B08", "The C and Fortran interfaces equal the C++ API",
 "Driving construction, validity, save/load, balance, split, evaluatePartition and getPartition through cengpar_* (and the Fortran bindings) gives the same graph, distribution and vertex-to-part arrays as the same calls through the C++ API; every argument reaches the parameter it names.",
 ["inputs","configurations"], "every graph and parameter set",
 "The Fortran tests run fixed inputs and compare with nothing.",
 ["interfaces/cengpar.cpp","ftn/engpar.f90"],
 [("cengpar_*", "interfaces/cengpar.cpp"), ("bind(C) interfaces", "ftn/engpar.f90")],
 observe_at="graph dump, getPartition arrays")

prop("B09", "Migration plans are faithful containers",
 "A Migration holds, after any sequence of insert and clear, exactly the vertices inserted since the last clear with their latest destinations: size, has, get, iteration and insert's result agree; a WeightMigration accumulates weight per (source,peer) pair and iterates every pair once; its size is the total weight inserted since the last clear.",
 ["histories"], "every operation sequence",
 "Tests insert a handful of distinct vertices once.",
 [A+"agiMigration.cpp", A+"agiWeightMigration.cpp", A+"agiMigration.h"],
 [("Migration", A+"agiMigration.cpp"), ("WeightMigration, WMIterator", A+"agiWeightMigration.cpp, "+A+"agiMigration.h")],
 observe_at="Migration/WeightMigration API")

prop("P01", "Phased messaging delivers every message exactly once, intact",
 "In every phase (PCU_Comm_Begin, packs, PCU_Comm_Send, receive loop) each process receives exactly one message from each process that packed data to it in that phase, with the concatenation of the packed bytes in packing order and the correct sender and size, and nothing else, for any sizes, destinations (self included) and number of consecutive phases. This holds however message arrivals interleave and however far processes drift apart.",
 ["schedules","histories","inputs"], "every communication pattern, message sizes from 0 to megabytes, sequence of phases and arrival order",
 "Tests send one small message in lock step; termination detection and phase separation break only under particular arrival orders or drift.",
 ["pcu/pcu_msg.c","pcu/pcu_aa.c","pcu/pcu_buffer.c","pcu/pcu.c","pcu/pcu_order.c","pcu/pcu_coll.c"],
 [("pcu_msg send/receive state machine", "pcu/pcu_msg.c"), ("buffers/aa-tree", "pcu/pcu_buffer.c, pcu/pcu_aa.c"), ("ordered receive", "pcu/pcu_order.c")],
 observe_at="PCU_Comm_* calls under perturbed MPI progress")

prop("P02", "Collectives compute the exact reduction on every process",
 "PCU_Add/Min/Max (int, long, size_t, double arrays and scalars), PCU_Exscan, PCU_And/Or, PCU_Proc_Self-level barrier and allgather-style collectives give every process the mathematically exact result for every process count and array length, and may be freely interleaved with each other and with message phases.",
 ["inputs","configurations","schedules"], "every value array, operation sequence and process count (powers of two or not)",
 "Tests run one process count with small values.",
 ["pcu/pcu_coll.c","pcu/pcu.c"],
 [("reduce/bcast/scan patterns", "pcu/pcu_coll.c")], observe_at="results of PCU_*")

prop("P03", "Switching communicators isolates and restores",
 "After PCU_Switch_Comm (EnGPar_Switch_Comm) to any sub-communicator, rank, size, messages and collectives are those of that communicator only; switching back restores the previous one, for any sequence of switches between phases, and graphs built on one are unaffected by traffic on another.",
 ["histories","schedules"], "every sequence of switches, splits and phases",
 "Tests switch once or not at all.",
 ["pcu/pcu.c","pcu/pcu_pmpi.c","support/engpar_support.cpp"],
 [("PCU_Switch_Comm/pcu_pmpi_switch", "pcu/pcu.c, pcu/pcu_pmpi.c")], observe_at="PCU_Comm_Self/Peers and received data")

prop("P04", "Stream I/O round-trips typed data portably",
 "Values written with the pcu_write_* functions are read back identically by pcu_read_* (unsigned, double, string, arrays) for every value and length, in a fixed big-endian byte layout independent of the host.",
 ["inputs"], "every sequence of typed values",
 "No test exercises it.",
 ["pcu/pcu_io.c"],
 [("pcu_read/pcu_write", "pcu/pcu_io.c")], observe_at="file bytes and values read")

prop("P05", "The library starts and stops cleanly, any number of times",
 "EnGPar_Initialize starts PCU if and only if the program has not; EnGPar_Finalize stops PCU if and only if this start of the library started it, and closes the log and the debug files. After any legal sequence of PCU_Comm_Init/Free, EnGPar_Initialize/Finalize (C++, C or Fortran) and communicator switches, the library is on MPI_COMM_WORLD with ordered delivery, at the verbosity asked for, and messages, collectives, graphs built before and all later work behave as in a fresh process; a stopped PCU leaves no MPI communicator behind. Part 0 prints the version line exactly when the verbosity is at least 0. What is printed between EnGPar_Debug_Open and EnGPar_Debug_Close goes to that process's debug file and nothing else does; PCU's debug files hold exactly what PCU_Debug_Print wrote; EnGPar_Hit_Error tells whether an error was reported since EnGPar_Start_Test.",
 ["histories","configurations"], "every legal sequence of starts, stops, switches and debug files",
 "Every test starts the library once, at the beginning, and stops it once, at the end.",
 ["support/engpar_support.cpp","support/engpar_message.cpp","pcu/pcu.c","pcu/pcu_pmpi.c","interfaces/cengpar.cpp"],
 [("EnGPar_Initialize/Finalize", "support/engpar_support.cpp"), ("PCU_Comm_Init/Free", "pcu/pcu.c"), ("EnGPar_Debug_Open/Close", "support/engpar_message.cpp"), ("PCU_Debug_Open/Print", "pcu/pcu.c")],
 observe_at="PCU_Comm_Initialized/Self/Peers, MPI communicator calls, received data, debug and log files, stdout")

prop("P06", "Failures and misuse stop the program, they never go unnoticed",
 "A file that cannot be opened, a device that fills up at any byte of a write, a file that ends early at any byte of a read (typed streams, saveToFile, loadFromFile), a part file without a line for every vertex: the call stops with an error, so a save or load that returns is complete. PCU refuses to run unstarted or twice, refuses a call at the wrong time of a phase, a rank outside the current communicator, and reading past the end of a message; coordinates of a ghost and timers that were never added are refused. A call that is legal is never refused, in particular a write for which there is just enough room.",
 ["fault_sequences","inputs","histories"], "every file size and fault position, every order of PCU calls",
 "Tests have no faults: every file exists, is whole and fits, and every call is legal; a lost write shows only when the data is needed again.",
 ["pcu/pcu_io.c","pcu/pcu_msg.c","pcu/pcu_buffer.c","pcu/pcu.c",A+"agiIO.cpp","interfaces/binGraph.cpp",A+"agiVertex.cpp",A+"agiMigrationTimers.cpp"],
 [("pcu_fopen/fread/fwrite/fclose", "pcu/pcu_io.c"), ("phase states", "pcu/pcu_msg.c"), ("pcu_walk_buffer", "pcu/pcu_buffer.c"), ("read_ranks", "interfaces/binGraph.cpp")],
 observe_at="whether the call returns or aborts, throws or exits; file contents")

prop("M01", "Legal call sequences never crash, hang or corrupt memory",
 "On graphs with at least one edge type, any legal sequence of public calls - build, query, tag, second adjacency, migrate, balance, weigh, save/load, evaluate, remove, rebuild, destroy - over any graph and part count runs without invalid memory access, assertion failure or deadlock.",
 ["histories","inputs","configurations"], "every legal operation sequence",
 "Tests run short fixed sequences without a memory checker; overruns depend on sizes they never reach.",
 ["agi","partition","pcu","support"],
 [("whole library", "agi, partition, pcu, support")], observe_at="AddressSanitizer, process exit")

prop("M02", "Operations give back the memory and the files they take",
 "Repeating any legal block of calls - create a graph, act on it (migrate, balance, weight balance, split, tags, second adjacencies, save/load, plans, metrics, C interface), destroy it; or exchange messages and run collectives - does not leave heap memory or open files behind: after a warm-up, the heap and descriptor count of no process grow on every repetition.",
 ["histories","inputs","configurations"], "every block of legal calls, repeated",
 "Tests run each operation once per process and never look at what is left; a leak per iteration or per message ends long adaptive simulations.",
 ["agi","partition","pcu","support"],
 [("ownership of buffers, graphs, iterators, plans, files", "agi, partition, pcu, support")], observe_at="sanitizer heap counter, /proc/self/fd")

prop("M03", "Diagnostics report the truth and change nothing",
 "With the log open (EnGPar_Open_Log), at any verbosity and in any sequence of public calls, results are exactly those obtained without diagnostics: the same graphs, partitions, ghosts, validity and files, and no memory is overrun for any number and size of edge types, any file name and any balancing input. The log, written by part 0 only, holds every public call inside exactly the calls in progress, and a balancing with the input it was given. printStats prints the true global vertex, edge and pin counts, and the balancer reports the true imbalances, numbers of migrated vertices and reasons for stopping.",
 ["histories","inputs","configurations"], "every legal operation sequence with diagnostics switched on and off anywhere",
 "Tests open the log in a few drivers and never read it; verbose paths have buffers and early returns of their own.",
 ["support/engpar_log.cpp","support/engpar_message.cpp","support/engpar_support.cpp",A+"agiConstruct.cpp",A+"agiVertex.cpp","partition/Diffusive/src/engpar_balancer.cpp","partition/Diffusive/src/engpar_weightBalancer.cpp"],
 [("EnGPar_Open_Log/Log_Function/End_Function", "support/engpar_log.cpp"), ("printStats", A+"agiConstruct.cpp"), ("verbose balance", "partition/Diffusive/src/engpar_balancer.cpp")],
 observe_at="results of calls, log.txt, stdout, AddressSanitizer")

prop("M04", "Results do not depend on message timing or on earlier work",
 "The same sequence of public calls on the same data gives exactly the same results on every process - the same graphs in the same local order, partitions, ghosts and their weights, tags, metrics, validity, queues and loaded files - in whatever order the messages of different processes arrive, however long any process is delayed anywhere, and whatever graphs the processes built, changed and destroyed before.",
 ["schedules","histories","inputs"], "every legal operation sequence, every legal order of arrival, every earlier history",
 "Tests run each sequence once, in a fresh process and in the one order an idle machine produces, and never compare two runs.",
 ["agi","partition","pcu"],
 [("ordered receive", "pcu/pcu_order.c"), ("plans and their application", "partition/Diffusive/src/engpar_selector.cpp"), ("migration", A+"agiMigrate.cpp")],
 observe_at="everything the public API reads, in two runs")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
except FileNotFoundError: pass
except ImportError: pass
