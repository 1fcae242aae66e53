#!/usr/bin/env python3
# Source of properties.jsonl (kept readable here; run to regenerate).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A constructed distributed graph answers every query as its input says",
 "For every distributed graph or hypergraph a user passes in (through the vector, the array or the all-in-one construction calls), every query - counts, weights, coordinates, global/local ids, ownership, degrees, edge/pin/adjacency iteration, residence and cut of edges, global totals - returns exactly what the input defines, on every part and for every edge type. Ghost vertices exist exactly for the remote endpoints, and carry the owner's part and the owner's vertex weight.",
 ["inputs","configurations"],"every small graph/hypergraph (vertices, edges, edge types, weights, self loops, isolated vertices, empty parts), every assignment of its vertices to 1..3 parts, every construction API",
 "The construct tests build a handful of fixed rings and hypercubes; checkValidity only tests self-consistency of the arrays, not agreement with the input, and never sees several weighted edge types, empty parts or the array API on several ranks.",
 ["agi/agiConstruct.cpp","agi/agiVertex.cpp","agi/agiEdge.cpp","agi/agiIterate.cpp","agi/ngraph.h"],
 [("vertex/edge/pin array construction","agi/agiConstruct.cpp:constructVerts/constructEdges"),("ghost owners and ghost weights","agi/agiConstruct.cpp:constructGhosts"),("handles and iteration","agi/agiIterate.cpp, agi/agiEdge.cpp, agi/agiVertex.cpp")],
 "public query API of agi::Ngraph on every rank")
p("C02","Migration moves exactly the planned vertices and loses or changes nothing else",
 "After any sequence of vertex migrations or repartitions, every vertex is on exactly the part the last plan that named it asked for, with its weight and coordinates, and the union over the parts of the edges of every type (endpoints or pins, and weights) is exactly the original graph. Each part holds exactly the edges its vertices need, ghost vertices exist exactly for remote endpoints, and every ghost names the part that currently owns the vertex and that vertex's weight.",
 ["inputs","histories","configurations"],"every small graph/hypergraph with up to 3 edge types, every initial distribution, every migration plan, and every bounded sequence of plans, on 1..3 parts",
 "Migration tests move fixed vertices of ring graphs once or twice and check only array self-consistency or counts; lost edges, wrong ghost owners and mixed-up edge types or weights pass unnoticed.",
 ["agi/agiMigrate.cpp","agi/agiMigration.cpp","agi/agiConstruct.cpp"],
 [("what is sent and kept","agi/agiMigrate.cpp:getAffected/addVertices/addEdges"),("ghost owner update","agi/agiMigrate.cpp:Ngraph::updateGhostOwners"),("edge exchange","agi/agiMigrate.cpp:sendEdges/recvEdges"),("plan","agi/agiMigration.cpp")],
 "public query API on every rank after each migration")
p("C03","The reported partition maps every original vertex to where it now is",
 "After any history of migrations, asking for the partition gives each part a map with exactly the vertices it originally owned, each mapped to the part that owns it now, so the union over the parts is a total function on the vertices. Original ownership is fixed when first recorded, travels with the vertex, and is changed only by an explicit reset.",
 ["histories","inputs"],"every bounded history of record / migrate / repartition / reset-ownership / get-partition steps on small graphs over 1..3 parts",
 "Tests call getPartition after one migration and apply it to a mesh; they do not vary histories with empty parts, vertices that return home, or resets in between.",
 ["agi/agiMigrate.cpp","agi/agiVertex.cpp","agi/ngraph.h"],
 [("partition map","agi/agiMigrate.cpp:Ngraph::getPartition"),("original owners","agi/agiVertex.cpp:setOriginalOwners/resetOwnership/resetPartition")],
 "PartitionMap returned on each rank")
p("C04","Phased messages are delivered exactly once, intact, in their own phase",
 "In every communication phase each rank receives exactly the bytes packed for it by each sender, once, intact and in packing order, and when the receive loop ends every message sent to it in that phase has been received. No message is ever received in an earlier or later phase, the phase always terminates, and the sender reported for a message is the rank that sent it (messages come in rank order when ordering is on), whatever the interleaving of ranks, the delay of messages and the arrival order.",
 ["schedules","inputs","histories"],"all interleavings of 2..4 ranks at MPI calls up to a deviation bound, all message-delay and arrival-order choices within it, and all small sequences of phases with any send pattern (including to self, empty, many peers and large payloads)",
 "Tests run on one machine with shared-memory MPI where messages are practically instantaneous; a lost termination barrier, an asynchronous instead of a synchronous send, or a phase overlap needs a particular delay or interleaving.",
 ["pcu/pcu_msg.c","pcu/pcu_pmpi.c","pcu/pcu_mpi.c","pcu/pcu_order.c","pcu/pcu_buffer.c","pcu/pcu_aa.c","pcu/pcu.c"],
 [("phase state machine and termination","pcu/pcu_msg.c:pcu_msg_start/pcu_msg_send/receive_global"),("synchronous send, probe and receive","pcu/pcu_pmpi.c"),("ordering","pcu/pcu_order.c"),("peer tree and buffers","pcu/pcu_aa.c, pcu/pcu_buffer.c")],
 "PCU_Comm_Pack/Send/Receive/Unpack and the MPI calls they make")
p("C05","Collectives give every rank the right value for every rank count and schedule",
 "Every reduction, logical reduction, exclusive scan and barrier of the message layer returns on every rank the value defined by its operation over all ranks' inputs, element by element, for any number of ranks. This holds for every interleaving and message delay, back-to-back collectives never mix their data, a barrier releases nobody before everybody has entered, and no collective deadlocks.",
 ["schedules","configurations","inputs"],"all rank counts 1..9, every collective and pair of consecutive collectives, all interleavings and delays up to a deviation bound for small rank counts",
 "Tests use a few rank counts (mostly powers of two) and instantaneous messages; wrong tree shapes at odd counts and cross-talk between consecutive collectives need other counts or delays.",
 ["pcu/pcu_coll.c","pcu/pcu.c","pcu/pcu_pmpi.c"],
 [("reduce/bcast/scan patterns","pcu/pcu_coll.c"),("public collectives","pcu/pcu.c:PCU_Add_*/PCU_Max_*/PCU_Min_*/PCU_Exscan_*/PCU_Or/PCU_And/PCU_Barrier")],
 "return values on each rank; MPI message matching")
p("C06","Switching communicators regroups the ranks and leaks nothing",
 "After switching the library to another communicator every collective, phase and rank or size query spans exactly the ranks of that communicator, with ranks numbered as in it; messages of one communicator are never received on another. Any sequence of switches, phases and finalisation terminates and releases every communicator the library created.",
 ["histories","schedules","configurations"],"every bounded sequence of switches between the world, every split of 2..4 ranks into groups and single-rank communicators, with phases and collectives in between, under schedules up to a deviation bound",
 "Tests switch once in a split; repeated switches, groups progressing at different speeds, and leftover communicators are not observed.",
 ["pcu/pcu.c","pcu/pcu_pmpi.c","support/engpar_support.cpp"],
 [("switch and init/free","pcu/pcu_pmpi.c:pcu_pmpi_switch, pcu/pcu.c:PCU_Switch_Comm/PCU_Comm_Init/PCU_Comm_Free"),("EnGPar level switch","support/engpar_support.cpp")],
 "PCU_Comm_Self/Peers, collectives and message phases, communicators left open")
p("C07","Tag values are exactly the last ones set and ghosts see their owner's",
 "For every tag kind, target (vertices or any edge type) and history of creates, sets, gets and destroys, reading a tag returns the value last set for that entity, and no operation on one tag changes another. A tag computed for ghosts holds on every part, for every ghost, exactly the value the owning part computes for that vertex, of the requested type.",
 ["histories","inputs","configurations"],"every bounded history of tag operations over several tags of mixed types on small graphs with ghosts, and every small distribution for ghost tags",
 "The tag test sets one value per tag on one graph; interactions between tags, edge types, ghosts on several parts, parts with no ghosts and empty parts are not covered.",
 ["agi/agiTag.cpp","agi/agi_types.h"],
 [("tag storage","agi/agiTag.cpp:createIntTag/.../setLongTag"),("ghost tags","agi/agiTag.cpp:createIntGhostTag/createDoubleGhostTag/createLongGhostTag")],
 "tag getters on each rank")
p("C08","Diffusive balancing never damages the graph and always terminates",
 "For every distributed graph, target priority list, tolerance, step factor and configuration, balancing returns on every rank, and the result is the same graph with the same vertices, weights and edges of every type, only redistributed, with valid ghosts and an intact record of original ownership. It never empties the system of a vertex or duplicates one, and when every priority already meets its tolerance no vertex moves.",
 ["inputs","configurations","schedules"],"every small graph family, distribution and balancer configuration enumerated, on 1..4 parts, under several schedules",
 "The balancer tests that run need graph files that are absent here; those that run check only that the imbalance fell on one graph; deadlocks or loss need unusual shapes (empty parts, disconnected parts, no neighbours).",
 ["partition/Diffusive/src/engpar_balancer.cpp","partition/Diffusive/src/engpar_selector.cpp","partition/Diffusive/src/engpar_make.cpp","partition/Diffusive/src/engpar_targets.h","partition/Diffusive/src/engpar_sides.h"],
 [("iteration and stopping","partition/Diffusive/src/engpar_balancer.cpp:Balancer::balance"),("selection","partition/Diffusive/src/engpar_selector.cpp:Selector::select"),("step","partition/Diffusive/src/engpar_balancer.cpp:runStep")],
 "graph queries on every rank before and after engpar::balance")
p("C09","A balancing step moves weight downhill and completed priorities stay protected",
 "In every step of diffusive balancing a part gives vertices only to parts it shares an edge of the sides edge type with and whose weight in the balanced dimension is smaller, and gives each at most the step factor times the difference times that neighbour's share of the boundary weight, plus one cavity; with two parts that are out of tolerance the heavier one gives at least the step factor times the difference unless every vertex it has on boundary edges with at most ten of its own is given. A limit on the growth of the cut below what a single edge adds keeps every vertex whose edges (of the first type) are not all on the destination already. Balancing a later priority never raises any part's weight in an already completed dimension (vertices, or an edge type of a hypergraph) above the larger of that dimension's tolerance and the largest weight it had when it was completed. On unit-weight paths and rings cut into consecutive blocks, balancing the vertices ends within one vertex of the tolerance on two parts and two vertices on three or four. Traditional graphs are taken to store both directions of each edge, and ghosts not to be counted, where completed dimensions are concerned.",
 ["inputs","configurations"],"every small graph family, distribution, step factor, queue kind and priority list enumerated on 2..4 parts",
 "Tests look at the final imbalance of one priority on one graph.",
 ["partition/Diffusive/src/engpar_balancer.cpp","partition/Diffusive/src/engpar_selector.cpp","partition/Diffusive/src/engpar_weights.h","partition/Diffusive/src/engpar_targets.h"],
 [("how much to which neighbour","partition/Diffusive/src/engpar_targets.h:Targets"),("trimming of the plan","partition/Diffusive/src/engpar_selector.cpp:Selector::trim/cancel"),("completed dimensions","partition/Diffusive/src/engpar_balancer.cpp:Balancer::balance")],
 "which part owns each vertex before and after engpar::balance")
p("C10","Weight balancing moves weight along edges without creating or losing any",
 "For every distributed graph, weight migration plan and weight balancing run, the total vertex weight over all parts is unchanged, and each vertex's weight changes by exactly what the plans sent to it minus what they sent from it. Every part sees the new weight of its ghosts, and the weight partition each part reports accounts exactly for the change of every vertex it owns. Weight balancing terminates, moves weight only between vertices that share an edge of the requested type, from heavier to lighter parts, and moves nothing when the imbalance is already within the tolerance.",
 ["inputs","histories","configurations"],"every small distributed graph, every small weight plan or sequence of plans, and weight-balancing configurations, on 1..3 parts",
 "The weight balancer tests need absent graph files; nothing checks conservation or which vertex received the weight.",
 ["agi/agiWeightMigrate.cpp","agi/agiWeightMigration.cpp","partition/Diffusive/src/engpar_weightBalancer.cpp","partition/Diffusive/src/engpar_weightSelector.cpp"],
 [("weight exchange","agi/agiWeightMigrate.cpp:Ngraph::migrate(WeightMigration*)"),("selection","partition/Diffusive/src/engpar_weightSelector.cpp"),("driver","partition/Diffusive/src/engpar_weightBalancer.cpp")],
 "vertex weights and getWeightPartition on each rank")
p("C11","A saved graph loads back as the same distributed graph",
 "For every distributed graph, whether freshly built or migrated, with ids that fit the format's 32 bits, saving and loading with the same number of ranks gives on every rank the same graph: vertices, weights, coordinates, edges and pins of every type with their weights, ghosts with their owners and weights, and global totals. The files have the documented format, saving leaves the graph unchanged, loading replaces whatever graph the object held before, and the loaded graph can be migrated like any other.",
 ["inputs","configurations","histories"],"every small graph/hypergraph and distribution with 0..3 edge types, with and without coordinates, fresh or after migrations, loading into fresh or used objects",
 "The IO test saves one ring and compares a few counts.",
 ["agi/agiIO.cpp","pcu/pcu_io.c"],
 [("file format","agi/agiIO.cpp:saveToFile/loadFromFile"),("byte order and buffered IO","pcu/pcu_io.c")],
 "graph queries after loadFromFile")
p("C12","A failed or incomplete save is never silently taken for a graph",
 "If a save could not write all of its bytes, or a graph file is truncated at any byte, the save or the load reports failure (an error or an abort) instead of returning normally with wrong data. No cut point yields a normally loaded graph different from the saved one.",
 ["fault_sequences","crash_points","inputs"],"every byte position of the file as truncation point and every byte position as the point where the device refuses further writes, for several small graphs",
 "Tests never fail a write or truncate a file.",
 ["agi/agiIO.cpp","pcu/pcu_io.c"],
 [("reads and writes with checking","pcu/pcu_io.c:pcu_read/pcu_write/pcu_fopen/pcu_fclose"),("use","agi/agiIO.cpp")],
 "exit status or exception of saveToFile/loadFromFile, and the loaded graph")
p("C13","Loading a binary edge list distributes exactly the file's edges",
 "For every binary edge-list file, vertex partition file and number of ranks, the loaded graph has exactly the file's vertices and edges, from vertex 0 to the largest id named, isolated ones included, each edge stored once at its source, with unit weights, distributed in blocks of consecutive vertices or by the given partition, with correct ghosts and owners on every rank. The loaded graph can be migrated like any other.",
 ["inputs","configurations"],"every small edge list (self loops, duplicates, isolated vertices, fewer edges than ranks), every partition vector, on 1..3 ranks",
 "The tests that load such files need data files that are absent here.",
 ["interfaces/binGraph.cpp","interfaces/binGraph.h"],
 [("load and distribute","interfaces/binGraph.cpp:load_edges/exchange_edges/create_dist_csr"),("partition file","interfaces/binGraph.cpp")],
 "graph queries after createBinGraph")
p("C14","Splitting obeys the external partitioner and leaves the system usable",
 "For every graph, split factor and answer of the external partitioner (ParMETIS or Zoltan), splitting gives that partitioner a well-formed description of exactly the distributed graph under the requested edge type (the part's own subgraph for a local split; weights as whole numbers and symmetric adjacency for ParMETIS, 32-bit ids for Zoltan), and afterwards each vertex is on the part the answer names (in the numbering of the large communicator), the graph is otherwise unchanged, and ghosts and original ownership are valid. The library then runs on the large communicator, whatever the answer was.",
 ["inputs","configurations","schedules"],"every small graph and distribution on the small communicator, every split method and every possible partitioner answer, on 1..4 ranks in total",
 "The real partitioners return one answer per graph, and the split tests need absent graph files.",
 ["partition/Multilevel/engpar_split.cpp","partition/Multilevel/engpar_parmetis.cpp","partition/Multilevel/engpar_zoltan.cpp"],
 [("global and local split","partition/Multilevel/engpar_split.cpp"),("ParMETIS input and answer","partition/Multilevel/engpar_parmetis.cpp"),("Zoltan callbacks and answer","partition/Multilevel/engpar_zoltan.cpp")],
 "the arrays and callbacks handed to the partitioner, graph queries on every rank afterwards")
p("C15","Reported partition metrics equal their definitions",
 "For every distributed graph with an edge type, the reported imbalance of vertices and of each edge type is the maximum over the average of the per-part weights, and the evaluation report gives the exact per-part counts, cuts, imbalances and averages for every quantity it prints. Every rank obtains the same values.",
 ["inputs","configurations"],"every small weighted graph with 1..3 edge types and every distribution to 1..3 parts, including empty parts",
 "Tests print the metrics and do not compare them with an independent computation.",
 ["partition/Metrics/engpar_metrics.cpp","partition/Metrics/engpar_metrics.h"],
 [("imbalance","partition/Metrics/engpar_metrics.cpp:EnGPar_Get_Imbalance, getWeight"),("evaluation","partition/Metrics/engpar_metrics.cpp:evaluatePartition")],
 "returned values and the printed report")
p("C16","Second adjacencies list exactly the entities sharing an edge or a vertex",
 "For every graph and edge type, the vertex-edge-vertex and edge-vertex-edge adjacencies contain exactly the entities reachable through that type: with compression each other neighbour once, without it every occurrence. The iterators visit exactly the list of the entity asked for.",
 ["inputs","configurations"],"every small hypergraph and graph with 1..3 edge types, every distribution to 1..3 parts, compressed or not",
 "One test builds them on one graph with one edge type.",
 ["agi/agiConstruct.cpp","agi/agiIterate.cpp"],
 [("construction","agi/agiConstruct.cpp:create_vev_adjacency/create_eve_adjacency"),("iteration","agi/agiIterate.cpp")],
 "vev/eve iterators")
p("C17","The boundary queue holds every part-boundary edge exactly once",
 "For every distributed hypergraph the traversal queue used by diffusive balancing contains every edge shared with another part exactly once and no other edge, so that no boundary edge is starved. Both ways of computing it (breadth-first push and pull) agree on the set. For hypergraphs the order is: disconnected pieces of the part one after the other, shallow ones first and small ones before large ones; within a piece by decreasing distance from its centre (the edges farthest from the boundary). It terminates for disconnected parts, and a pass over the queue visits exactly what the previous pass kept.",
 ["inputs","configurations"],"every small hypergraph and distribution to 1..3 parts, with disconnected parts and without ghosts",
 "Tests build it for a few fixed graphs and do not compare the set.",
 ["partition/Diffusive/src/engpar_queue.cpp","partition/Diffusive/src/engpar_queue.h"],
 [("breadth-first traversal and distance","partition/Diffusive/src/engpar_queue.cpp")],
 "queue contents")
p("C18","Edge types can be added and removed without disturbing the rest",
 "For every history of adding edge types, removing them, tagging and migrating, the remaining edge types and vertices keep exactly their edges, weights and totals. A removed type is empty from then on and every query and later migration keeps working.",
 ["histories","inputs"],"every bounded history of add-type / remove-type / migrate steps on small graphs over 1..3 parts",
 "One test removes the last type once.",
 ["agi/agiConstruct.cpp","agi/agiMigrate.cpp"],
 [("removal","agi/agiConstruct.cpp:Ngraph::removeEdges"),("addition","agi/agiConstruct.cpp:constructEdges, agi/ngraph.h:addEdgeType")],
 "graph queries")
p("C19","The C and Fortran interfaces do exactly what the C++ interface does",
 "For every graph and sequence of calls, initialising, choosing a communicator, building, balancing, splitting (globally or locally), evaluating, saving, loading and querying through the C interface, or through the Fortran module over it, gives on every rank the same graph, partition, messages to the partitioner and outputs as the same calls of the C++ interface. Every function the header declares can be called from C.",
 ["inputs","configurations","histories"],"small graphs, distributions and call sequences on 1..3 ranks, through C and through Fortran",
 "The three Fortran tests exercise one sequence each and compare nothing with the C++ interface; local splits and several setters are never called.",
 ["interfaces/cengpar.cpp","interfaces/cengpar.h","ftn/engpar.f90"],
 [("wrappers","interfaces/cengpar.cpp"),("Fortran declarations","ftn/engpar.f90")],
 "outputs of the cengpar_* functions")
p("C20","Logging and verbosity never change behaviour",
 "For every operation and sequence of operations, running with logging on or off and at any verbosity gives the same graphs, partitions, weights and messages between ranks, and never aborts. Log nesting returns to where it was after every operation.",
 ["configurations","histories","inputs"],"every operation of the library and every pair of operations, at every verbosity, log on and off",
 "Tests run with one verbosity and no log.",
 ["support/engpar_log.cpp","support/engpar_message.cpp","agi/agiConstruct.cpp","partition/Diffusive/src/engpar_weightBalancer.cpp"],
 [("log depth","support/engpar_log.cpp:EnGPar_Log_Function/EnGPar_End_Function"),("callers","all of agi and partition")],
 "final graphs and log depth with and without logging")
p("C21","No operation touches memory it does not own",
 "For every input and history within the documented interface, no operation reads or writes outside its objects, uses memory after it was freed, or frees it twice.",
 ["inputs","histories","configurations"],"all the cases of the other properties at smaller bounds, executed with address and bounds instrumentation",
 "Tests run without instrumentation on small friendly graphs; overflows on fixed-size arrays need large cavities or many dimensions.",
 ["agi","pcu","partition","interfaces"],
 [("fixed-size arrays","partition/Diffusive/src/engpar_selector.cpp"),("manual arrays","agi/*.cpp")],
 "AddressSanitizer")
p("C22","Rendered files describe exactly the distributed graph",
 "For every graph with coordinates, distribution and integer tag, writeVTK writes on every part a well-formed unstructured grid with one point per vertex (and, for hypergraphs, one per edge of type 0 at the mean position of its pins), one line per locally held edge or pin, every line joining points of the file, the part number and tag of every point, and on part 0 an index naming all pieces and exactly their arrays.",
 ["inputs","configurations"],"small graphs and distributions over 1..3 parts with every kind of tag",
 "No stable test writes or reads these files.",
 ["agi/agiVTK.cpp"],
 [("ghost positions","agi/agiVTK.cpp:writePoints"),("cells","agi/agiVTK.cpp:writeCells, getNumCells"),("index","agi/agiVTK.cpp:writePVTU")],
 "the files written")
p("C23","Repeating work accumulates neither memory nor handles",
 "Once the graph and every other object a user was handed are destroyed, the library holds no more memory, open files and communicators than before. So any history of operations (construction, tags, migration, balancing, splitting, files, rendering, communication) can be repeated any number of times without the process growing.",
 ["inputs","histories","configurations"],"small graphs over 1..3 parts and every sequence of up to three operations in the stated alphabet, repeated five times",
 "A test runs each operation once, and nothing it looks at shows what is never released.",
 ["agi/agiConstruct.cpp","agi/agiTag.cpp","agi/agiMigrate.cpp","partition/Diffusive/src/engpar_balancer.cpp","partition/Multilevel/engpar_split.cpp","pcu/pcu_msg.c"],
 [("replaced coordinates","agi/agiVertex.cpp:setCoords"),("replaced ghosts","agi/agiConstruct.cpp:constructGhosts"),("graph data","agi/agiConstruct.cpp:destroyData"),("plan","agi/agiMigrate.cpp:migrate"),("buffers","pcu/pcu_buffer.c")],
 "the ledger of live allocations, open files and communicators after each repetition")
p("C24","Results do not depend on the timing of ranks and messages",
 "A program that makes the same calls on the same input gets the same result every time: everything a graph reports on every part (vertices, ghosts, edges and pins in the order they are iterated, weights, handles, weight partition), getPartition, tag values, sums over the parts and the files written are the same, bit for bit, whatever the relative speed of the ranks and the order in which messages of different senders arrive, after any sequence of construction, migration, balancing, splitting, weight, tag and file operations.",
 ["schedules","histories"],"all delay and priority policies of the scheduler, and every single deviation from them for selected cases, over sequences of up to three of 22 operations on small graphs over 2..4 parts",
 "A test sees one schedule of a run; orders in which messages arrive cannot be controlled from a test.",
 ["pcu","agi","partition","interfaces/binGraph"],
 [("receive order","pcu/pcu_order.c"),("default order","pcu/pcu.c:PCU_Comm_Init"),("edges received","agi/agiMigrate.cpp"),("floating point sums","pcu/pcu_coll.c"),("cavities","partition/Diffusive/src/engpar_selector.cpp")],
 "a canonical text of the graph on each rank after every operation, compared with the one of the first schedule")
p("C25","Binary files return exactly what was written, in the portable format",
 "For every sequence of unsigned integers, doubles, strings and bytes of any length written on every rank to a file opened with pcu_fopen, the file holds their portable form (most significant byte first, strings with their terminating zero), the caller's values are unchanged, and reading the same sequence returns every value bit for bit and touches nothing else; debug files and parallel text files are one per rank and hold what the rank printed. If a file cannot be opened, written completely, closed or read, is incomplete or was opened the other way, the program stops with an error and never continues with wrong data.",
 ["inputs","fault_sequences","crash_points"],"sequences of up to three items over 1..3 ranks, every cut of the files, every failing or short stream call with several buffer sizes",
 "No stable test uses these functions, and failures of the file system cannot be produced from a test.",
 ["pcu/pcu_io.c","pcu/pcu.c"],
 [("byte order","pcu/pcu_io.c:pcu_write_unsigneds, pcu_read_doubles, pcu_swap_*"),("strings","pcu/pcu_io.c:pcu_read_string"),("error checks","pcu/pcu_io.c:pcu_fwrite, pcu_fread, pcu_fclose"),("debug files","pcu/pcu.c:PCU_Debug_Open")],
 "the bytes of each file and the values read, or the stop with an error")
p("C26","The library's messages and the application's never mix",
 "An application that uses EnGPar may have messages of its own on the way on the communicator it gave the library (MPI_COMM_WORLD by default) or on any other: sent before a call of the library and received after it, receives for any sender and any tag posted before a call, messages sent and received between the packing and the unpacking of a phase. For every operation of the library, every sequence of them and every order of arrival, every such message arrives exactly once, complete and at the rank it was sent to, the library never receives one, no receive of the application ever gets a message of the library, and everything the graph holds afterwards is what it would be without them.",
 ["schedules","inputs","histories"],"all operations, pairs and triples strided, on small graphs on 1..4 ranks; messages of the application on the world and on a communicator of its own in three modes",
 "No test has messages of its own, and a library that used the given communicator directly would pass them all.",
 ["pcu/pcu_pmpi.c","pcu/pcu.c","agi/","partition/","interfaces/"],
 [("private communicators","pcu/pcu_pmpi.c:pcu_pmpi_init, pcu_pmpi_switch"),("collectives on the communicator given","pcu/pcu_pmpi.c:pcu_pmpi_comm; partition/Metrics; partition/Multilevel"),("phases","pcu/pcu_msg.c; pcu/pcu_coll.c")],
 "the bytes, sender and tag of every message of the application; what the graph says")
p("C27","Graphs alive at the same time do not influence each other",
 "Any number of graphs can exist in a program at once (the library itself has several while it migrates, balances or splits). Whatever is done with one of them — built, migrated, tagged, given coordinates or weights, balanced, split, written, read, destroyed — in any order and interleaved in any way with what is done with another, each graph says after each of its operations exactly what it says when it is the only one, its tags, ghosts, global numbers and files included.",
 ["histories","inputs"],"two graphs out of six, one or two operations each, every interleaving of their operations, on 1..3 ranks",
 "A cache or counter kept in a static or shared variable works in every test with one graph.",
 ["agi/","partition/","interfaces/"],
 [("state of a graph","agi/ngraph.h, agi/pngraph.h"),("tags","agi/agiTag.cpp"),("migration","agi/agiMigrate.cpp"),("the balancer's structures","partition/Diffusive/src"),("binary graphs","interfaces/binGraph.cpp")],
 "what every graph says after each operation, compared with an execution in which it is alone")
p("C28","Plans and timers hold exactly what was put in them",
 "A plan of vertices to migrate holds, after any history of insertions (into it and into other plans of the same graph) and clearings, exactly the vertices inserted since it was last cleared, each once and with the last part asked for; its size, its queries and its iteration agree, and none of this touches the user's tags. A plan of weight to migrate holds for every pair of vertices exactly the sum of the weights inserted since it was last cleared, and its size is the total of them. Carrying a plan out does exactly what it holds. Migration timers hold exactly the times and numbers of calls recorded, per rank and as the maximum and average over the ranks; every migration adds one call to each of its timers, and asking for a timer that was never added stops the program.",
 ["histories","inputs"],"every history of insertions and clearings of two plans up to depth 3..5 on small graphs on 1..3 ranks, histories of plans that are carried out, every history of timer updates on 1..5 ranks",
 "Tests insert each vertex once into one plan and carry it out.",
 ["agi/agiMigration.h","agi/agiMigration.cpp","agi/agiWeightMigration.cpp","agi/agiMigrationTimers.cpp"],
 [("plans","agi/agiMigration.cpp:insert, clear"),("weight plans","agi/agiWeightMigration.cpp, agi/agiMigration.h:WMIterator"),("timers","agi/agiMigrationTimers.cpp"),("updates","agi/agiMigrate.cpp:migrate")],
 "queries and iteration of the plans, the graph after carrying them out, the timers' values")
p("C29","What the library prints about itself is true",
 "A message given a level appears exactly when the verbosity allows it, others always, on the stream and with the prefix of its kind and with exactly its text; errors are remembered until the next test begins. The statistics printed for a graph are its global numbers of vertices, edges and pins of every type. The balancers' reports give, in order, each priority that was worked on, the imbalances the graph has at the start and after each step, the number of steps made and a true reason for stopping. The log, on part 0, holds every function logged since it was opened, in order and indented by its depth. While debug files are open what the rank prints is in its file, and after they are closed it appears where it did before.",
 ["inputs","configurations","histories"],"every message kind, level and verbosity; statistics of all small graphs and distributions; reports of balancing families of small graphs under a table of configurations; user functions nested around every operation; every short sequence of opening and closing debug files",
 "Tests print and nobody reads it.",
 ["support/engpar_message.cpp","support/engpar_log.cpp","support/engpar_support.cpp","agi/agiConstruct.cpp","partition/Diffusive/src/engpar_balancer.cpp","partition/Diffusive/src/engpar_weightBalancer.cpp"],
 [("messages and debug files","support/engpar_message.cpp"),("statistics","agi/agiConstruct.cpp:printStats"),("report of the balancer","partition/Diffusive/src/engpar_balancer.cpp:runStep, balance"),("report of the weight balancer","partition/Diffusive/src/engpar_weightBalancer.cpp"),("log","support/engpar_log.cpp")],
 "what appears on stdout, stderr, in the log and in the debug files")
p("C30","What a group of processes does depends on nothing outside of the group",
 "The library can be given any communicator: any subset of the processes in any order. Whatever is then done on it — graphs built, loaded, migrated, tagged, balanced, split, measured, written, messages exchanged — involves exactly the processes of that communicator and says on each of them exactly what a program consisting of only that many processes would say, every rank being the rank in that communicator. The other processes need take no part, and may use the library on communicators and graphs of their own at the same time without either group affecting the other. Going back to the first communicator restores the first numbering.",
 ["histories","inputs","configurations"],"groups of 1..4 out of 2..4 processes in every order with one to three operations out of 35, alone and next to other groups at work; selected groups of up to 18 processes",
 "Tests use one communicator, in which the ranks are those of MPI_COMM_WORLD, and splitting tests return to it.",
 ["pcu/","agi/","partition/","interfaces/"],
 [("switching","support/engpar_support.cpp:EnGPar_Switch_Comm, pcu/pcu_pmpi.c"),("metrics","partition/Metrics/engpar_metrics.cpp, partition/engpar.cpp"),("binary graphs","interfaces/binGraph.cpp"),("splitting","partition/Multilevel"),("everything that communicates","agi/agiMigrate.cpp, agi/agiConstruct.cpp, partition/Diffusive/src")],
 "what the group's graph says after each operation, compared with an execution in which the group is the first processes and the others do nothing")
with open("/verif/properties.jsonl","w") as f:
    for x in P: x["quantifier"]["over"]=list(dict.fromkeys(x["quantifier"]["over"])); f.write(json.dumps(x)+"\n")
