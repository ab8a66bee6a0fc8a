#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CHECKS = {
 "C01": (T + "seeded query histories on reused calculators under a simulated scheduler, checked against an independent Dijkstra of the input graph",
         "Every answer of every simulated history is compared with a reference computed from the accepted edges only."),
 "C02": (T + "as C01, every returned path checked edge by edge against the input graph",
         "Every returned path is walked over the ledger of accepted edges; endpoints, start and target weights included."),
 "C03": (T + "as C01, for histories of weighted multi-source/multi-target queries",
         "Every answer is compared with the minimum over all pairs, computed by the reference."),
 "C04": (T + "seeded preemption of reader threads at instrumented memory accesses and blocks, answers compared with the reference, and a control run of the suspect thread alone",
         "Interleavings are sampled at the granularity of the library's instrumented loads, stores and basic blocks, sequentially consistent; a violation counts only if the thread alone does not show it."),
 "C05": (T + "seeded injection of refused and poisoned queries that unwind in the middle, later answers compared with the reference, and a control run without them",
         "Unwinding is provoked by invalid arguments and by damaged prepared graphs at seeded places."),
 "C06": (T + "histories with the epoch counter driven to its wrap-around through a guarded seam, compared with the reference and with a control run on fresh state",
         "The counter's room is set by the hook (src/sim_hooks.rs), so that 2^32 queries need not be run; if the hook does not compile, long real histories only."),
 "C07": (T + "seeded histories, orders, parameters and interleavings under a step counter and small stacks; panics, aborts, hangs and excess work reported",
         "Work is counted in instrumented blocks and bounded about ten times above the largest value seen; stacks of 96 to 192 KiB."),
 "C08": (T + "the same preparation in several simulated environments (hash seeds, clocks, CPU counts, addresses, log levels, concurrent work), serialized results compared byte by byte",
         "All environment reads go through seams; a result that depends on one of them differs under another seed."),
 "C09": (T + "seeded early ends of witness searches through a guarded seam and seeded parameters, answers compared with the reference",
         "Without the hook only the public budgets cut searches."),
 "C10": (T + "seeded interleaved histories of an editor that edits, prepares (some aborted by a panicking logger) and publishes and of readers, each answer compared with the reference for its version",
         "Aborts happen at log records, the only foreign code a preparation calls."),
 "C11": (T + "seeded operation histories with misuse and failing logger against an executable ledger model",
         "Every observable of the graph is compared with the model after each step."),
 "C12": (T + "seeded saves and loads over simulated streams with short, interrupted, failing and full writes, crash and restart; restored objects compared with the saved ones",
         "Restored graphs are compared byte by byte and by answers with the reference."),
 "C13": (T + "as C12 for both 32-bit interfaces, with weights and sums around 2^32",
         "Restored graphs are compared by answers with the reference; refusals are checked against what the image can hold."),
 "C14": (T + "seeded exports onto a simulated disk with short, interrupted and failing writes and a full disk; file content compared with the graph",
         "The library's real std::fs calls end at simulated open/write/close calls."),
 "C15": (T + "seeded imports from a simulated disk with short, interrupted and failing reads, undecodable data; imported graph compared with an independent reader of the file",
         "The library's real std::fs calls end at simulated open/read/close calls."),
 "C16": (T + "seeded crash points in DIMACS exports and damage of the file before restart; the import must refuse every file but the exported one",
         "Damage models: cut, empty, zero-filled blocks, lost lines, repeated lines."),
 "C17": (T + "seeded query histories and preparations (with parameters, orders and early ends of witness searches) on graphs whose weights and sums reach the end of the weight range, checked against a 128-bit reference",
         "The library is built as for release (sums wrap instead of panicking), so that a wrapped sum shows as a wrong answer."),
 "C18": (T + "long seeded histories with refused, aborted and failing operations under the simulator's allocator and disk; bytes held, peak of each operation and open files compared with bounds",
         "Every allocation the library makes is counted; bounds are at least three times the largest values seen, so slow growth shows only in the long histories."),
 "C19": (T + "equal queries asked in different seeded histories, interleavings and environments, of used, aborted, borrowed and fresh calculators and of copied, restored and re-prepared graphs; answers compared with each other node for node",
         "Needs no reference: the first answer to a query is the oracle for the later ones of the same run."),
 "C20": (T + "seeded street networks, prepared and prepared again with traffic, and seeded query histories with refused and aborted queries under the simulated scheduler; work measured in simulated steps and compared with that of a Dijkstra search compiled and counted in the same way",
         "Steps are executed blocks and memory accesses, so that the comparison does not depend on the machine; the bounds are two to four times the largest values seen."),
}
NA = {
 "N03": "Needs a 32-bit or WebAssembly target; none is installed and simulation of the 64-bit build says nothing about it. The 64-bit side is C13.",
}
m = {
 "version": 1,
 "setup_cmd": "bin/build.sh",
 "hooks": {
  "guard": "cfg fast_paths_sim",
  "enable": "bin/build.sh builds with RUSTC_WRAPPER=sim/rustc-wrap.sh and FPSIM_HOOKS=1, which adds --cfg fast_paths_sim for the fast_paths crate only",
  "source_commits": ["16e41eb", "ce6e703"],
 },
 "checks": [
  {"property": p, "quick_cmd": f"bin/check.sh {p} quick", "thorough_cmd": f"bin/check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration",
   "level_note": n + " Seeded sampling: a clean batch is evidence, not proof."}
  for p, (t, n) in CHECKS.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
