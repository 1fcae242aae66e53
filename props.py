# What check.py builds and runs per property, and what MANIFEST.json says about it.
SIM = ["the MPI simulator implements the MPI semantics the library relies on (see DESIGN.md): non-overtaking point-to-point order per source, destination and communicator, synchronous sends that complete only when matched, communicator isolation, collectives matched in call order",
       "ranks interact only through MPI calls and files, so a schedule is determined by the order of MPI calls, message delays and arrival order"]
SMALL = ["graphs and histories beyond the stated sizes behave like those explored (small scope)"]
STATELESS = "stateless explicit enumeration on the real code under a controlled scheduler (simulated MPI)"
MODEL = "explicit enumeration of a reference model's states and operations, every transition replayed on the real code (simulated MPI)"
def note(s): return s + " Trusts the MPI simulator's semantics and the small-scope bounds stated in the evidence file."

PROPS = {
  "C01": {"harness": [{"src": "c01_construct.cpp"}, {"src": "huge.cpp", "defs": ["-DPROP=1"]}], "technique": MODEL,
    "bounds": "all hypergraphs on 3 vertices with <=3 hyperedges and all digraphs with self loops on 3 vertices on 1..3 ranks with every distribution; all hypergraphs on 4 vertices with <=2 hyperedges on 3 ranks; all 2-vertex graphs with 2 and 3 edge types; curated graphs of 0..7 edge types; all three construction interfaces, weights given or not, coordinates, ids beyond 32 bits, over another graph; larger ones: edges of 300 pins, vertices of degree 300, 300 edges on 6 vertices, 300 vertices, and 12 vertices on 5, 8, 9, 10, 13 and 17 ranks, 70001 vertices on 2 ranks, in typical distributions",
    "note": note("Every query of every graph within the bounds is compared with an independent reference on every rank."), "assumptions": SIM + SMALL},
  "C02": {"harness": [{"src": "c02_migrate.cpp"}, {"src": "huge.cpp", "defs": ["-DPROP=2"]}], "technique": MODEL,
    "bounds": "every placement -> every placement of all hypergraphs (<=2 or 3 edges) and digraphs on 3 vertices on 2 and 3 ranks, of all 2-vertex graphs with 2 edge types, and of curated 4-vertex graphs with 0..3 edge types; every history of three placements for selected graphs; five ways of writing the plan; larger ones: graphs of 300 and of 1100 vertices, 300 edges on 6 vertices, 12 vertices on 5, 9, 10, 11 and 17 ranks, 70001 vertices on 2 ranks, histories of 6 migrations, between typical distributions",
    "note": note("After every transition the whole graph is compared with the reference on every rank."), "assumptions": SIM + SMALL},
  "C03": {"harness": [{"src": "c03_partition.cpp"}, {"src": "huge.cpp", "defs": ["-DPROP=3"]}], "technique": MODEL,
    "bounds": "every history of depth 2..4 over {migrate to any placement, empty plan, reset ownership, reset partition, record owners} from every placement, 2 and 3 ranks, 2..4 vertices; larger ones: 300 vertices, 12 vertices on 5, 9, 10, 12 and 17 ranks, 70001 vertices on 2 ranks, longer histories",
    "note": note("The partition map is compared with the model after every step of every history."), "assumptions": SIM + SMALL},
  "C04": {"harness": [{"src": "c04_phases.cpp"}], "technique": STATELESS,
    "bounds": "1..4 ranks, sequences of up to 3 phases with every small send pattern; every schedule (interleaving at MPI calls, message delay, arrival order) within 0..2 deviations of every base schedule; histories of 600 phases, every message length up to 540 bytes (1000 in the thorough tier), messages of 2 MB, up to 18 ranks",
    "note": note("All schedules within the deviation bound are executed on the real code."), "assumptions": SIM + SMALL},
  "C05": {"harness": [{"src": "c05_coll.cpp"}], "technique": STATELESS,
    "bounds": "1..13 and 16..18 ranks, every collective and pairs of collectives; every schedule within 0..2 deviations of every base schedule for few ranks, base schedules for many; values beyond 32 bits and fractions, arrays of 70000 elements, histories of 300 collectives",
    "note": note("All schedules within the deviation bound are executed on the real code."), "assumptions": SIM + SMALL},
  "C06": {"harness": [{"src": "c06_comm.cpp"}], "technique": STATELESS,
    "bounds": "1..4 ranks, every split into groups, histories of up to 4 switches (nested splits, single-rank communicators, back to the world) and start/stop sequences; base schedules plus one deviation for small cases; selected histories of up to 24 switches on 5..18 ranks",
    "note": note("All histories and schedules within the bounds are executed on the real code."), "assumptions": SIM + SMALL},
  "C07": {"harness": [{"src": "c07_tags.cpp"}, {"src": "c07_tags.cpp", "asan": True, "defs": ["-DSMALL"]}, {"src": "huge.cpp", "defs": ["-DPROP=7"]}], "technique": MODEL,
    "bounds": "every history of depth 3..4 over {create a tag of each of 3 types on vertices and each of 2 edge types, set first/last entity, destroy, create ghost tag} with up to 3 live tags, on 1..3 ranks; ghost tags of each type on every 3-vertex graph with <=2 hyperedges / every 3-vertex digraph and every distribution to 2 and 3 ranks; larger graphs, 12 vertices on 4..17 ranks and 70001 vertices on 2 ranks; smaller bounds repeated under AddressSanitizer",
    "note": note("All tags are read back after every step of every history."), "assumptions": SIM + SMALL},
  "C08": {"harness": [{"src": "c08_balance.cpp"}, {"src": "c08_balance.cpp", "asan": True, "defs": ["-DSMALL"]}], "technique": MODEL,
    "bounds": "all hypergraphs (<=3 edges) and digraphs on 3 vertices and hypergraphs (<=2 edges) on 4 vertices with every distribution to 2 and 3 ranks, configurations assigned cyclically; curated graphs with 1..7 edge types with every distribution; paths, rings, stars, strips of 6..12 vertices in blocks on 2..4 ranks with every configuration of a table of about 40 (priorities, tolerances, step factors, queues, iteration limits, connectivity, cut growth, ghosts, part weight balancer); 131-vertex edge; 10 priorities; base schedules, all of them for selected cases; a part repeated under AddressSanitizer; graphs of 260 vertices, 300 edges on 6 vertices and 12 vertices on 5, 9, 10 and 17 parts",
    "note": note("After balancing, the whole graph, the owners recorded and the partition map are compared with the reference."), "assumptions": SIM + SMALL},
  "C09": {"harness": [{"src": "c09_protect.cpp"}], "technique": MODEL,
    "bounds": "single steps: all hypergraphs (<=3 edges) on 3 and (<=2 edges) on 4 vertices, symmetric digraphs on 3 vertices, curated graphs, with every distribution to 2 and 3 ranks; paths, rings, strips of 8..12 vertices with every cut into consecutive blocks; priority lists of length 2..4 on the same families; unit-weight paths and rings of 6..16 vertices, every block cut, on 2..4 ranks; graphs of 200 vertices, 300 edges on 6 vertices, 12 vertices on 5, 9, 10 and 17 parts",
    "note": note("Each step and each completed priority is judged from vertex placements alone, with part weights computed by the reference."), "assumptions": SIM + SMALL},
  "C10": {"harness": [{"src": "c10_weights.cpp"}], "technique": MODEL,
    "bounds": "every weight plan of up to 2 transfers and every pair of single-transfer plans (triples for two graphs) on all hypergraphs (<=2 edges) and digraphs on 3 vertices and curated 4-vertex graphs, every distribution to 2 and 3 ranks; balanceWeights on rings, paths, wide edges and two-type graphs of 2..12 vertices, 3 weight scales, 3 tolerances, 4 step factors, 1 or 100 iterations, on 2..4 ranks; larger graphs (300 vertices or edges) and 12 vertices on 5, 9, 10 and 17 ranks",
    "note": note("Every vertex weight, ghost weight and weight partition entry is compared with the accounting model."), "assumptions": SIM + SMALL},
  "C11": {"harness": [{"src": "c11_saveload.cpp"}, {"src": "huge.cpp", "defs": ["-DPROP=11"]}], "technique": MODEL,
    "bounds": "all hypergraphs (<=2 or 3 edges) and digraphs on 3 vertices, all 2-vertex graphs with 2 edge types, curated 4-vertex graphs with 0..3 edge types with and without coordinates, every distribution to 1..3 ranks; saved fresh or after a migration, or written by an independent encoder of the documented format; loaded into a new object, over another graph, over itself, or twice; then migrated; larger graphs (300 vertices or edges) and 12 vertices on 5, 9, 10, 11 and 18 ranks, 70001 vertices on 2 ranks",
    "note": note("Every saved file is decoded independently and every loaded graph compared with the reference on every rank."), "assumptions": SIM + SMALL},
  "C12": {"harness": [{"src": "c12_iofault.cpp"}], "technique": "exhaustive fault enumeration on the real code: every truncation point, every write limit and every single failing stream call of every file, each execution in a process of its own",
    "bounds": "curated 4-vertex graphs with 0..3 edge types with and without coordinates on 1..3 ranks: every byte of every rank's file as truncation point, every byte as write limit, full device, missing file, missing directory, unusable path; a 130-vertex graph whose file exceeds the stdio buffer, likewise every byte; every single read, write (failing or short) or close call of every stream buffer size of 0, 12, 20, 64 and 4096 bytes failing once on one rank; selected faults with 12 vertices on 5, 9 and 10 ranks",
    "note": note("The library must stop with an error (abort, exception, exit, MPI_Abort) or leave complete files and the same graph."), "assumptions": SIM + SMALL},
  "C13": {"harness": [{"src": "c13_bingraph.cpp"}, {"src": "huge.cpp", "defs": ["-DPROP=13"]}], "technique": MODEL,
    "bounds": "every digraph with self loops on 3 vertices on 1..3 ranks with the block distribution and every partition file; every sequence of 2 edges (2, 4 ranks) and 3 edges (2, 3 ranks) over 3 vertices; paths, rings, stars, isolated and late vertices of 4..6 vertices on 1..4 ranks; each graph is then migrated; larger files (300 edges and vertices) and up to 18 ranks, 70001 vertices",
    "note": note("Every loaded graph is compared with the file's edges on every rank, before and after a migration."), "assumptions": SIM + SMALL},
  "C14": {"harness": [{"src": "c14_split.cpp"}], "technique": MODEL,
    "bounds": "hypergraphs and symmetric digraphs on 3 and 4 vertices with 1 and 2 edge types; 2..4 ranks in total, every nonempty subset of them as original parts, every distribution, every answer of the partitioner (strided for 3 ranks and more), split factors 1..n, three tables of other ranks, both orders of the small and of the large communicator, owners recorded before or not; selected splits of graphs of 40 and 300 vertices and of 12 vertices on 5..10 and 16 ranks",
    "note": note("The external partitioners are replaced by stand-ins that check everything they are given against the reference and return each possible answer."), "assumptions": SIM + SMALL + ["the stand-ins follow the documented contracts of ParMETIS_V3_PartKway and of Zoltan's query functions"]},
  "C15": {"harness": [{"src": "c15_metrics.cpp"}], "technique": MODEL,
    "bounds": "every hypergraph on up to 3 vertices with up to 3 edges, on 4 vertices with 2, every symmetric digraph on 2..4 vertices, curated graphs with 1..4 edge types, unit and distinct fractional weights, every distribution on 1..3 parts (some on 4), on the world, a reversed and a smaller communicator; every vector of 1..4 values out of 5; names of 2 to 300 characters in the report; larger graphs (300 vertices or edges) and 12 vertices on 5..17 ranks",
    "note": note("Returned values and the printed report are compared with the definitions computed on the reference graph."), "assumptions": SIM + SMALL},
  "C16": {"harness": [{"src": "c16_second.cpp"}], "technique": MODEL,
    "bounds": "every hypergraph on up to 3 vertices with up to 3 edges and on 4 with 2, every digraph with loops on up to 3 vertices, every pair of small edge types, curated graphs and triples of types, every distribution on 1..3 parts (curated on 4); compressed, not, and each rebuilt as the other; types in three orders; some after a migration; larger graphs (300 vertices or edges) and 12 vertices on 5, 10 and 17 ranks",
    "note": note("The lists visited by the iterators are compared with the definition on the reference graph."), "assumptions": SIM + SMALL},
  "C17": {"harness": [{"src": "c17_queue.cpp"}], "technique": MODEL,
    "bounds": "every hypergraph on up to 3 vertices and (every second placement) on 4 vertices with up to 3 edges, every digraph on 2 and 3 vertices, pairs of edge types, curated graphs on up to 4 parts, chains, rings, strips, stars, grids and disconnected ones of 6..9 vertices under every distribution to 2 parts; push and pull; every way of shrinking a queue of up to 3 edges over 2 passes (on 3 vertices); larger graphs (300 vertices or edges) and 12 vertices on 5, 9, 10 and 17 ranks, 900 vertices with hundreds of disconnected pieces",
    "note": note("The contents and the order of the queues are compared with distances computed on the reference graph."), "assumptions": SIM + SMALL + ["the order within a queue is checked for hypergraphs only"]},
  "C18": {"harness": [{"src": "c18_types.cpp"}, {"src": "c18_types.cpp", "asan": True, "defs": ["-DSMALL"]}, {"src": "huge.cpp", "defs": ["-DPROP=18"]}], "technique": MODEL,
    "bounds": "every history of depth 3 over {remove any type, add one of two types, migrate to any (2 ranks: every second) placement, balance} of graphs and hypergraphs of 3 vertices with 1..3 edge types on 1 and 2 ranks from every distribution; depth 2 on 3 ranks and for curated 4-vertex graphs with 0..3 types and coordinates; both construction interfaces, owner lists that name just the ghosts or more vertices, log open or not, tags on vertices and every type; depth 4 and more placements in the thorough tier; shorter histories repeated under AddressSanitizer; selected histories of 4..7 operations on larger graphs and on 5, 9, 10, 13 and 17 ranks, 70001 vertices on 2 ranks",
    "note": note("After every operation the whole graph and every surviving tag are compared with the reference on every rank."), "assumptions": SIM + SMALL},
  "C19": {"harness": [{"src": "c19_cinterface.cpp", "fortran": ["R:ftn/engpar.f90", "c19_ftn.f90"]}], "technique": MODEL,
    "bounds": "every hypergraph (<=2 edges) and digraph on 3 vertices and curated 4-vertex graphs with 1..3 edge types, every distribution to 1..3 ranks (3 strided), built, checked, evaluated, saved and loaded; strips, rings, paths and grids of 8..9 vertices in every cut into blocks on 1..3 ranks with a table of 60 balancer inputs and verbosities -1..3; splits of two-type graphs of 3 vertices over every subset of 1..3 ranks with every answer of the partitioner (strided); on the world, a reversed and a smaller communicator; alternately through C and through the Fortran module; larger graphs (260 vertices) and 12 vertices on 5, 8, 9, 16 and 17 ranks",
    "note": note("The same calls are made through the C++ interface in the same execution and the results compared, and both with the reference."), "assumptions": SIM + SMALL},
  "C20": {"harness": [{"src": "c20_log.cpp"}], "technique": MODEL,
    "bounds": "every sequence of 1 and (strided) 2 and 3 out of 22 operations (every pair, and triples strided, in the thorough tier) on five graphs with 0..7 edge types in every cut into blocks and some other distributions on 1..3 ranks; each sequence under every pattern of opening and closing the log between operations and under verbosities -1..3; selected operations and pairs on larger graphs and on 5, 9 and 10 ranks",
    "note": note("Everything the graph says on every rank, the number of messages and the nesting of the log are compared between all the settings."), "assumptions": SIM + SMALL},
  "C21": {"harness": [{"src": x, "asan": True, "fortran": ["R:ftn/engpar.f90", "c19_ftn.f90"] if x[:3] == "c19" else [], "defs": ["-DNOFAULTS"] if x[:3] in ("c25", "c28", "c29") else [], "options": {"memory-only": True, "stride": {"quick": q, "thorough": t}, "max-deviations": 0, "policies": 3}} for x, q, t in [
    ("c01_construct.cpp", 12, 3), ("c02_migrate.cpp", 12, 3), ("c03_partition.cpp", 14, 3), ("c07_tags.cpp", 10, 2), ("c08_balance.cpp", 10, 2),
    ("c09_protect.cpp", 20, 3), ("c10_weights.cpp", 12, 3), ("c11_saveload.cpp", 10, 2), ("c13_bingraph.cpp", 6, 2), ("c14_split.cpp", 10, 2),
    ("c15_metrics.cpp", 10, 2), ("c16_second.cpp", 5, 2), ("c17_queue.cpp", 5, 2), ("c18_types.cpp", 10, 2), ("c19_cinterface.cpp", 10, 2), ("c20_log.cpp", 10, 2), ("c22_vtk.cpp", 20, 3), ("c04_phases.cpp", 1, 1), ("c05_coll.cpp", 10, 2), ("c06_comm.cpp", 10, 2), ("c24_timing.cpp", 8, 2), ("c25_binio.cpp", 4, 1), ("c26_traffic.cpp", 16, 4), ("c27_several.cpp", 30, 6), ("c28_plans.cpp", 24, 4), ("c29_reports.cpp", 16, 3), ("c30_groups.cpp", 12, 3)]],
    "technique": MODEL,
    "bounds": "the cases of C01-C11, C13-C20, C22, C24-C30 (those without faults) whose mixed number is a multiple of 1 to 30 (of 1 to 6 in the thorough tier), each under two schedules, executed with AddressSanitizer and bounds and division instrumentation of library and harness; a fixed fill of fresh memory makes reads of unset memory repeatable",
    "note": note("The other oracles are off: only invalid memory accesses, array index errors and fatal signals are judged."), "assumptions": SIM + SMALL},
  "C22": {"harness": [{"src": "c22_vtk.cpp"}], "technique": MODEL,
    "bounds": "every hypergraph (<=3 edges) and digraph (with loops) on 1..3 vertices, pairs of types and curated 4-vertex graphs, every distribution to 1..3 ranks (4 strided), built there or migrated there, with coordinates; no tag, a vertex tag, a tag on either edge type, a tag without a type; short and long paths; larger graphs and up to 17 ranks",
    "note": note("Every file is parsed and its points, cells, tags and index compared with those of the reference graph."), "assumptions": SIM + SMALL + ["an edge end or pin held by another part is not drawn"]},
  "C23": {"harness": [{"src": "c23_memory.cpp"}], "technique": MODEL,
    "bounds": "every single operation out of 35 (construction, migration, balancing, splitting, tags, adjacencies, files, rendering, communicators, phases, the C interface...), and pairs and triples (strided; every pair in the thorough tier) on six graphs with 0..2 edge types in every cut into blocks and some other distributions on 1..3 ranks, through the three construction calls, with and without log and (re)initialisation; each history carried out five times; selected operations and pairs on larger graphs and on 5, 9 and 10 ranks",
    "note": note("A ledger of every allocation of the library and the harness, the open files and the communicators must not grow from one repetition to the next."), "assumptions": SIM + SMALL},
  "C24": {"harness": [{"src": "c24_timing.cpp"}], "technique": MODEL,
    "bounds": "every single operation out of 35 and (strided) pairs and triples on five graphs with 1..2 edge types in every cut into blocks and some other distributions on 2..4 ranks, each under all scheduling policies (run to block in either order, switching at every call, messages delayed, each rank starved or favoured); selected single operations also under every single deviation at every choice point; selected operations and pairs on larger graphs and on 5, 9 and 10 ranks",
    "note": note("Everything the graph says on every rank, in the order it says it, and the bytes of the files are compared with those of the first schedule of the same case."), "assumptions": SIM + SMALL},
  "C25": {"harness": [{"src": "c25_binio.cpp"}], "technique": MODEL,
    "bounds": "every sequence of up to 3 items out of 22 (unsigneds, doubles, strings and bytes of 0..70 and more than 4096 bytes, several value patterns; 3 ranks and 4 items strided in the thorough tier) written and read back on 1..3 ranks, in the order of the world or the reverse; for single items and (strided) pairs every length to which a file can be cut, every stream call that can fail or be short (unbuffered and with three buffer sizes), failing to open and close; debug files",
    "note": note("The bytes on the disk are compared with the portable format, the values read with those written; with a fault the program has to stop."), "assumptions": SIM + SMALL},
  "C26": {"harness": [{"src": "c26_traffic.cpp"}], "technique": MODEL,
    "bounds": "every single operation out of 36 on three graphs on 1..3 ranks (4 in the thorough tier) from selected distributions under four scheduling policies, pairs and triples strided; before, around and within the operations messages of the application on the world and on a communicator of its own, which the library was given or not: sent before and received after, or awaited (any source, any tag) before and sent after; a message phase with messages of the application in between under all scheduling policies; selected operations and pairs on larger graphs and on 5, 9 and 10 ranks",
    "note": note("Every message of the application is compared with what was sent; everything the graph says with what it says in an execution without such messages."), "assumptions": SIM + SMALL},
  "C27": {"harness": [{"src": "c27_several.cpp"}], "technique": MODEL,
    "bounds": "two graphs out of six (0..2 edge types), each with one operation out of 35 (strided; all pairs in the thorough tier) or two (strided), in every order of the operations, the second graph built early or late, on 1..3 ranks from a selected distribution, with and without log; selected pairs with larger graphs on 2, 5 and 10 ranks",
    "note": note("Everything either graph says after each of its operations, its tags included, is compared with what it says when it is alone."), "assumptions": SIM + SMALL},
  "C28": {"harness": [{"src": "c28_plans.cpp"}], "technique": MODEL,
    "bounds": "every history of depth 3..4 (5 in the thorough tier) over 20 operations {insert any of 3 vertices or pairs for any of 3 parts or 2 weights, clear} on two plans living on one graph, for migration plans and weight migration plans, on graphs of 3 and 4 vertices in selected distributions to 1..3 ranks; histories of 1..4 operations then carried out (3 and more strided), plans of hundreds of insertions on larger graphs and on up to 17 ranks; every history of up to 4 updates of 3 timers and 2 of 40 on 1..5 ranks; three migrations with timers; every query of a timer that was not added",
    "note": note("Plans and timers are compared with a model after every history."), "assumptions": SIM + SMALL},
  "C29": {"harness": [{"src": "c29_reports.cpp"}], "technique": MODEL,
    "bounds": "every kind of message at levels -4..5 and verbosities -3..4 on 1..3 ranks; statistics of every hypergraph (<=2 edges) and digraph on 3 vertices, curated graphs and graphs of 3..7 edge types, strided distributions to 1..3 ranks, larger graphs and up to 17 ranks; the reports of both balancers at verbosities 0..2 on strips, rings, grids and small graphs in every cut into blocks (or every distribution of 4 vertices) on 2 and 3 ranks, selected on 5 and 10; the log of user functions nested up to 4 levels around every operation out of 22 and (strided) pairs; every sequence of opening, printing to and closing debug files of up to 2 openings in four modes at verbosities -1..2 (one rank)",
    "note": note("What is printed is compared with the reference."), "assumptions": SIM + SMALL},
  "C30": {"harness": [{"src": "c30_groups.cpp"}], "technique": MODEL,
    "bounds": "groups of 1..4 out of 2..4 processes in every order, working on one of five graphs (0..2 edge types) with one to three operations out of 35 (strided), alone and while the other processes, as one group or each on its own, do one or two other operations on another graph; selected groups of up to 18 out of 18 processes and larger graphs",
    "note": note("Everything the graph of the group says after each operation is compared, process by process, with what it says when the group consists of the first processes and the others do nothing."), "assumptions": SIM + SMALL},
}
NOT_APPLICABLE = {}
def _rest():
    import json, os
    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
    for line in open(f):
        p = json.loads(line)["id"]
        if p not in PROPS: NOT_APPLICABLE.setdefault(p, "no check built yet")
_rest()
