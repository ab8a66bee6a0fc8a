#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A reused calculator answers every query of any history exactly",
 "Whatever sequence of queries a path calculator has already served, and on whichever prepared graphs with the same number of nodes, each single source/target query returns a path whose weight is the minimum total edge weight from source to target in the input graph the queried prepared graph was built from. It returns nothing exactly when the target cannot be reached from the source, and a query from a node to itself has weight zero. This holds for the calculator methods and the free query functions alike, as long as all path weights fit the weight type.",
 ["histories", "inputs"], "every history of queries (single, multi, rejected) over every set of prepared graphs of equal node count, on every input graph whose path sums fit in usize",
 "The tests run fresh random graphs of 50 nodes with weights 1..99, one calculator per graph and never mix graphs, tie-heavy weights, rejected queries or long histories on one calculator.",
 ["src/path_calculator.rs", "src/lib.rs", "src/valid_flags.rs", "src/fast_graph.rs"],
 [("bidirectional upward search with stall-on-demand", "src/path_calculator.rs calc_path_multiple_sources_and_targets"), ("reset of per-query state", "src/path_calculator.rs, src/valid_flags.rs invalidate_all")],
 [("PathCalculator", "per-calculator search state that survives between queries", "src/path_calculator.rs")],
 ["ShortestPath::get_weight", "Option returned by calc_path"])

prop("C02", "Every returned path is a real path of exactly the reported weight",
 "Every path a query returns, at any point of any history on a calculator, is a sequence of nodes in which each consecutive pair is an edge of the input graph, and the lightest weights of those edges plus the start and target weights add up to exactly the reported weight. Its first and last nodes are one of the requested sources and one of the requested targets, and equal the reported source and target.",
 ["histories", "inputs"], "every query in every history of queries, on every input graph and however it was prepared (default, any parameters, any node order) or restored",
 "The tests compare node lists with Dijkstra only statistically (up to 10% may differ), so a path that is not connected or does not add up goes unnoticed.",
 ["src/path_calculator.rs", "src/fast_graph_builder.rs", "src/preparation_graph.rs"],
 [("shortcut unpacking", "src/path_calculator.rs extract_nodes, unpack_fwd, unpack_bwd"), ("resolution of replaced edges", "src/fast_graph_builder.rs finish_contraction")],
 [("replaced_in_edge/replaced_out_edge", "the two edges a shortcut stands for", "src/fast_graph.rs FastGraphEdge")],
 ["ShortestPath::get_nodes", "get_source", "get_target"])

prop("C03", "Weighted multi-source/multi-target queries are optimal in any history",
 "A query with several weighted sources and targets returns the minimum over all source/target pairs of start weight + shortest path weight + target weight, at any point of any history on a calculator. Entries with the maximum weight value are never used, duplicate entries count with their lowest weight, and nothing is returned exactly when no remaining source reaches any remaining target.",
 ["histories", "inputs"], "every list of weighted sources and targets (duplicates, overlaps, maximum weights) at every point of every query history",
 "The tests draw three sources and three targets with weights below 100 on 50-node graphs, with one query form per calculator.",
 ["src/path_calculator.rs", "src/lib.rs"],
 [("seeding of both heaps and the common-node shortcut", "src/path_calculator.rs calc_path_multiple_sources_and_targets")],
 [("best_weight, meeting_node", "best connection known so far", "src/path_calculator.rs")],
 ["calc_path_multiple_sources_and_targets"])

prop("C04", "Queries on other threads never change an answer",
 "Any number of threads may share one prepared graph, each with its own calculator (or one handed over from another thread, or the free query functions), and every query returns the same weight, or the same absence of a path, as when its thread runs alone, together with a real path of that weight. This holds for every interleaving of the threads.",
 ["schedules", "histories"], "every interleaving, at the granularity of single memory accesses of the library's code, of the queries of several threads",
 "No existing test uses more than one thread.",
 ["src/path_calculator.rs", "src/fast_graph.rs", "src/lib.rs"],
 [("the prepared graph is immutable during queries; all search state is owned by the calculator", "src/path_calculator.rs")],
 [("FastGraph", "shared, read-only", "src/fast_graph.rs")],
 ["answers of concurrent calc_path calls"])

prop("C05", "Rejected or aborted queries are refused and leave no trace",
 "A query naming a node outside the graph, an empty list of sources or targets, or a prepared graph with another number of nodes than the calculator is refused by a panic and never answered. After a query that was refused, or that unwound anywhere in the middle because the prepared graph handed to it was damaged, the same calculator and all healthy prepared graphs answer every later query exactly as if that query had not been made.",
 ["fault_sequences", "histories"], "every kind of refused query and every point at which a query on a damaged prepared graph unwinds, anywhere in every history",
 "No existing test issues an invalid query or reuses a calculator after a panic.",
 ["src/path_calculator.rs"],
 [("argument checks before any state is touched", "src/path_calculator.rs"), ("state is reset when a query starts, not when it ends", "src/path_calculator.rs")],
 [("heaps and flags", "left in an arbitrary state by an unwound query", "src/path_calculator.rs")],
 ["panic or answer of each query"])

prop("C06", "Answers stay exact however many searches have been run before",
 "A calculator keeps returning minimum weights and real paths after any number of earlier queries, including across 2^32 of them, and a preparation stays exact however many internal searches it runs.",
 ["histories"], "every length of history, with the internal search counters started anywhere, in particular just before they wrap",
 "2^32 queries cannot be run by a test; the existing test of the flags does a single reset.",
 ["src/valid_flags.rs", "src/path_calculator.rs", "src/witness_search.rs"],
 [("wrap-around of the generation counter", "src/valid_flags.rs invalidate_all")],
 [("valid_flag", "generation counter", "src/valid_flags.rs")],
 ["answers of queries around the wrap"], "starting value of the generation counter (cfg fast_paths_sim)")

prop("C07", "Valid operations complete in bounded work on a small stack",
 "Every valid query and every valid preparation returns without panicking or aborting the process, for any node order and parameters and whichever other threads are running. A query's work is bounded by a small multiple of the prepared graph's edges, the number of pairs of requested sources and targets, and the length of the result, and the thread stack it needs does not grow with the graph.",
 ["schedules", "configurations", "inputs"], "every valid operation under every interleaving, every node order and parameter setting, on threads with a small stack",
 "The tests run on the default stack with orders chosen by the library, so hierarchies stay shallow, and they measure no bound on work.",
 ["src/path_calculator.rs", "src/fast_graph_builder.rs", "src/witness_search.rs"],
 [("settled marks stop re-expansion", "src/path_calculator.rs"), ("unpacking of nested shortcuts", "src/path_calculator.rs unpack_fwd, unpack_bwd")],
 [("depth of nested shortcuts", "can be linear in the number of nodes", "src/fast_graph_builder.rs")],
 ["completion of calls; instrumented steps"])

prop("C08", "Preparation is deterministic whatever the environment",
 "Preparing equal frozen input graphs with equal parameters or node order always yields the same prepared graph, byte for byte when serialized. The result does not depend on the order in which the edges had been added, the process's hash seeds, wall clock, number of CPUs, memory addresses, log level, earlier work on the thread, or other preparations and queries running at the same time.",
 ["schedules", "configurations"], "every combination of hash seed, clock, CPU count, address layout, log level, thread history and interleaving",
 "The existing test prepares the same graph twice in one thread under whatever hash seeds the process got.",
 ["src/fast_graph_builder.rs", "src/node_contractor.rs", "src/input_graph.rs", "src/witness_search.rs"],
 [("ordered set of neighbours", "src/fast_graph_builder.rs run_contraction"), ("total sort of the edges", "src/input_graph.rs sort")],
 [("contraction queue", "hash-based priority queue with randomly keyed hasher", "src/fast_graph_builder.rs")],
 ["bincode bytes of the FastGraph"])

prop("C09", "Preparation stays exact when witness searches are cut short",
 "Whatever parameters are given to a preparation, and even if any of its internal searches stops early at an arbitrary point, queries on the prepared graph return exact minimum weights and real paths. Cutting searches short may only cost preparation or query time.",
 ["fault_sequences", "configurations", "inputs"], "every choice of budgets and heuristic factors, and every sequence of early terminations of individual internal searches",
 "The tests use the default budgets of 500/100 on 50-node graphs, where hardly any search is ever cut off, and fixed budgets on the performance maps with a checksum of weights only.",
 ["src/witness_search.rs", "src/node_contractor.rs", "src/fast_graph_builder.rs", "src/preparation_graph.rs"],
 [("an unfinished search only yields an upper bound, and the shortcut is then added", "src/witness_search.rs find_max_weight, src/node_contractor.rs handle_shortcuts")],
 [("search tree reused for all targets of one start node", "partial after a cut", "src/witness_search.rs")],
 ["answers of queries on the prepared graph"], "budget of each witness search (cfg fast_paths_sim)")

prop("C10", "Re-preparing after changes serves the new graph; old snapshots stay",
 "Preparing with any permutation of the node ids, such as the ordering of an earlier prepared graph, yields a prepared graph that answers exactly for the input graph it was given, also when a reader queries while an editor changes input graphs and prepares again, or a preparation is aborted and repeated. Prepared graphs made earlier keep answering for the input they were made from, and the ordering of a prepared graph is a permutation of its nodes, the given one if it was prepared with one. An order of the wrong length, or one that names a node twice, yields an error, and an order naming a node that does not exist never yields a prepared graph.",
 ["histories", "schedules", "fault_sequences"], "every sequence of edits, re-preparations (some aborted) and interleaved queries on old and new prepared graphs",
 "The tests prepare with an order only on three hand-written graphs and on two unchanged maps; nothing edits, re-prepares or queries older versions.",
 ["src/fast_graph_builder.rs", "src/lib.rs", "src/input_graph.rs", "src/fast_graph.rs"],
 [("contraction in a given order", "src/fast_graph_builder.rs run_contraction_with_order"), ("length check", "src/fast_graph_builder.rs build_with_order_with_params")],
 [("ranks", "position of each node in the contraction order", "src/fast_graph.rs")],
 ["prepare_with_order result", "get_node_ordering", "answers per version"])

prop("C11", "The input graph is an exact ledger of accepted edges",
 "After any sequence of adding edges, freezing, thawing, cloning and inspecting, a frozen input graph holds exactly one edge per ordered node pair that was ever accepted, with the lowest accepted weight, and as many nodes as the highest accepted node id plus one. Self-loops and zero weights are not accepted, an edge naming the reserved node id (the maximum of the id type) is refused by a panic, the number of edges accepted is returned by each call, and adding while frozen, freezing twice or inspecting while not frozen panics. An operation that panics, also because the installed logger panics, loses and invents no edge, and operations on other input graphs by other threads at the same time change nothing.",
 ["histories", "fault_sequences"], "every sequence of operations, with misuse and a failing logger at any record",
 "The tests check a handful of short fixed sequences; none continues after a panic.",
 ["src/input_graph.rs"],
 [("sort and dedup on freeze", "src/input_graph.rs freeze, sort, remove_duplicate_edges"), ("frozen checks", "src/input_graph.rs check_frozen, do_add_edge")],
 [("edges, num_nodes, frozen", "the ledger", "src/input_graph.rs InputGraph")],
 ["get_edges", "get_num_nodes", "get_num_edges", "return value of add_edge and add_edge_bidir"])

prop("C12", "A saved graph comes back identical or not at all",
 "A prepared graph or frozen input graph whose serialization reported success is restored from those bytes as an equivalent object: it serializes to the same bytes again, and a restored prepared graph gives the same answers and node ordering and can be used with existing calculators. If the stream fails at any point while writing or reading, the failure is reported as an error, and bytes cut short by a crash at any point are refused instead of yielding a graph. Short transfers, interrupted calls and other threads that save or load other graphs at the same time do not matter.",
 ["crash_points", "fault_sequences"], "every chunking, interruption, error or end of the stream, and every crash point of a save",
 "The tests write to a healthy disk once, load it and compare only three counts, without ever querying the restored graph.",
 ["src/fast_graph.rs", "src/input_graph.rs", "src/lib.rs"],
 [("derived serde implementations", "src/fast_graph.rs, src/input_graph.rs")],
 [("FastGraph fields", "all needed to answer queries", "src/fast_graph.rs")],
 ["serialize/deserialize results", "answers before and after"])

prop("C13", "The 32-bit image is exact or refused",
 "Saving a prepared graph in the 32-bit representation (either interface) and restoring it gives a graph that answers every query exactly as before, or saving is refused. It is never refused while all node and edge counts and weights, including the sums the preparation forms, are below 2^32 - 1, and a graph holding a value the image cannot represent is refused rather than altered. Stream failures and crashes while saving or loading are reported or refused as for any other image.",
 ["crash_points", "fault_sequences", "inputs"], "every prepared graph, with weights around the 32-bit limit, and every stream failure or crash point of save and load",
 "The tests convert one hand-made object field by field and save one four-node graph, comparing only counts.",
 ["src/fast_graph32.rs", "src/lib.rs"],
 [("checked narrowing with a reserved value", "src/fast_graph32.rs usize_to_u32, u32_to_usize"), ("serialize_32/deserialize_32", "src/lib.rs")],
 [("u32::MAX", "stands for the invalid id", "src/fast_graph32.rs")],
 ["answers before and after a 32-bit save and restore"])

prop("C14", "A text export that reports success is completely on disk",
 "When writing an input graph to a text file (plain or DIMACS) reports success, the file contains every edge with its weight, and for DIMACS the right header. If opening or any write fails, in particular because the disk is full, the call reports an error, and short or interrupted writes, or other threads that export or import other files at the same time, neither lose data nor fail the call. An export changes no other file, and no exported file is changed afterwards.",
 ["fault_sequences"], "every position and kind of failing, short or interrupted system call and every disk capacity during an export",
 "No existing test writes an input graph to a file at all.",
 ["src/input_graph.rs"],
 [("buffered writer and error propagation", "src/input_graph.rs to_file, to_dimacs_file")],
 [("buffered tail of the file", "written last", "src/input_graph.rs")],
 ["Result of to_file/to_dimacs_file and bytes on disk"])

prop("C15", "A text import yields exactly the file's graph or fails loudly",
 "Reading an input graph from a text file (plain or DIMACS) yields a frozen graph with exactly the edges of the file, under the same cleaning rules as adding them by hand, or panics. A read error or undecodable data anywhere never yields a graph with part of the edges, and short or interrupted reads, earlier failed imports and imports of other files by other threads at the same time do not matter; what was exported without error is imported unchanged. A file with a malformed arc line, or a DIMACS file with no, a second or a wrong problem line, is refused.",
 ["fault_sequences", "inputs"], "every position and kind of failing, short or interrupted read, over every well-formed file",
 "The tests read five healthy maps in the ignored performance tests and never the DIMACS format.",
 ["src/input_graph.rs"],
 [("line-wise reading with unwrap on every line", "src/input_graph.rs read_from_file, read_from_dimacs, read_arc_line")],
 [], ["InputGraph returned by from_file/from_dimacs_file"])

prop("C16", "A DIMACS file damaged by a crash is refused",
 "A DIMACS file that an interrupted export left cut short, empty, or with unwritten zero-filled blocks, or that lost some of its lines or holds some of them twice (but not both), is never read as a graph other than the exported one: reading it panics. The only damage that may go unnoticed is a cut inside the digits of the last weight in the file.",
 ["crash_points", "fault_sequences"], "every crash point of an export with every set of blocks that reached the disk, and every lost or repeated line",
 "No existing test reads a DIMACS file.",
 ["src/input_graph.rs"],
 [("declared counts compared with what was read", "src/input_graph.rs read_from_dimacs")],
 [("problem line", "declares number of nodes and edges", "src/input_graph.rs")],
 ["panic or graph from from_dimacs_file"])

prop("C17", "Path weights beyond the weight range are never reported wrong",
 "However large the edge, start and target weights are, a query returns the minimum total weight, with a real path of that weight, whenever that minimum is below the maximum value of the weight type. It returns nothing when every path's total is at or beyond that maximum, and no sum ever wraps around. Preparations and queries on such graphs do not panic, in any history of queries, under any parameters or node order, and even if internal searches of the preparation stop early.",
 ["histories", "inputs", "configurations"], "every input graph with weights up to the maximum of the weight type, however prepared, and every history of single and multi queries on it",
 "The tests contain two large-weight cases of the internal search only; no test prepares or queries a graph whose sums exceed the range, and the tests are built with overflow checks while releases are not.",
 ["src/path_calculator.rs", "src/node_contractor.rs", "src/witness_search.rs", "src/fast_graph_builder.rs"],
 [("sums of weights during contraction and witness searches", "src/node_contractor.rs handle_shortcuts, src/witness_search.rs"), ("sums of weights in queries", "src/path_calculator.rs")],
 [("WEIGHT_MAX", "stands for unreachable", "src/constants.rs")],
 ["answers of queries; completion of preparations"])

prop("C18", "Memory and open files stay bounded in any history",
 "The memory the library holds after any history of edits, preparations, queries, clones, saves, loads, exports and imports, including refused, aborted and failed ones, is bounded by a multiple of the size of the objects the caller still owns, however many operations there were. What a calculator keeps depends on the largest prepared graph and query it was used with, not on the number of queries, and dropping everything gives everything back. While it runs, an operation needs working memory at most proportional to its graphs, arguments and result, and no file stays open after an export or import returns or panics.",
 ["histories", "fault_sequences"], "every history of operations of every length, with failures and refusals anywhere in it",
 "No test observes memory or open files, and none repeats an operation often enough to notice growth.",
 ["src/path_calculator.rs", "src/fast_graph_builder.rs", "src/input_graph.rs", "src/fast_graph32.rs"],
 [("heaps are cleared for every query", "src/path_calculator.rs"), ("scratch data is owned by the builder", "src/fast_graph_builder.rs, src/node_contractor.rs, src/witness_search.rs"), ("files are closed when they go out of scope", "src/input_graph.rs")],
 [("capacity of heaps and node data", "kept by a calculator between queries", "src/path_calculator.rs")],
 ["bytes held by the library at each checkpoint; peak of each operation; open files"])

prop("C19", "Equal queries get identical answers",
 "Two equal queries (both single or both multi, with the same start and target lists in the same order and with the same weights) on equal prepared graphs (the same object, a clone, an image of it restored through any format, or the result of the same preparation of an equal input graph) return identical answers: both nothing, or the same weight and the same nodes in the same order, even where several shortest paths exist. It does not matter which calculator answers, what it was used for before (including refused or aborted queries), on which thread or in which process it runs, or what else runs at the same time.",
 ["schedules", "histories", "configurations"], "every pair of histories, environments and interleavings that contain equal queries",
 "The tests compare weights, or single answers with hand-written paths; none asks the same question in two different situations on a graph with ties.",
 ["src/path_calculator.rs", "src/valid_flags.rs", "src/fast_graph_builder.rs", "src/fast_graph32.rs"],
 [("all state of earlier queries is cleared or invalidated before a search", "src/path_calculator.rs, src/valid_flags.rs invalidate_all"), ("order in which nodes of equal weight are settled", "src/path_calculator.rs, src/heap_item.rs"), ("deterministic preparation", "src/fast_graph_builder.rs"), ("images keep the order of edges", "src/fast_graph32.rs")],
 [("tie between shortest paths", "decided by the order of edges and of the heaps only", "src/path_calculator.rs")],
 ["get_weight and get_nodes of answers to equal queries"])

prop("C20", "Street networks are queried and prepared with little work",
 "On a network of streets (3,000 or more crossings in the plane, each joined to its up to four neighbours, most streets usable in both directions, weights about the lengths, some through roads faster) that was prepared with the default parameters, the prepared graph has at most twice as many edges per direction as the input graph, the preparation did at most one and a half times the work of a Dijkstra search from every node, and queries between random nodes on a calculator that is already in use do on average at most half of the work of Dijkstra searches on the input graph for the same queries, and no more than one and a half times the work of the same queries on new calculators. The same holds, and the preparation takes at most half of the work, when the network is prepared again with the node ordering of the earlier prepared graph, also after up to a fifth of the weights has changed. All this holds for restored prepared graphs, in any history of a calculator, including refused and aborted queries, and whatever other threads do.",
 ["histories", "schedules", "inputs"], "every street network and every history of queries on it",
 "The performance tests are ignored by default, print timings and do not judge them; a test that passes says nothing about the work it took.",
 ["src/path_calculator.rs", "src/fast_graph_builder.rs", "src/node_contractor.rs", "src/witness_search.rs", "src/fast_graph.rs"],
 [("node ordering heuristic", "src/fast_graph_builder.rs run_contraction, src/node_contractor.rs calc_relevance"), ("limits of witness searches", "src/witness_search.rs find_max_weight"), ("both searches stop at the best weight found; stall-on-demand", "src/path_calculator.rs"), ("node ordering for later preparations", "src/fast_graph.rs get_node_ordering, src/fast_graph_builder.rs run_contraction_with_order")],
 [("work", "executed blocks and memory accesses of the library, a simulated clock that does not depend on the machine", "simulator")],
 ["steps of preparations and queries; get_num_out_edges, get_num_in_edges"])

prop("N03", "A 32-bit image works on a 32-bit or WebAssembly host",
 "A 32-bit image written on a 64-bit host is restored on a 32-bit host, such as WebAssembly, with the same answers.",
 ["configurations"], "every pair of host word sizes",
 "The tests run on one 64-bit host.",
 ["src/fast_graph32.rs"],
 [("conversion to and from usize", "src/fast_graph32.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
