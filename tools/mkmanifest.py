#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json, os
T = {
 "S01": "deterministic simulation: seeded short reads, interruptions and storage damage on the caller's stream; differential against whole delivery",
 "S02": "deterministic simulation: hard stream faults and early ends at seeded and enumerated calls of a load; refinement against the complete content's value",
 "S03": "deterministic simulation: seeded short and interrupted writes on the caller's stream and the simulated disk; byte equality with a perfect destination",
 "S04": "deterministic simulation: hard write, seek and space faults at seeded and enumerated calls of a save; history check of report, image and value",
 "D01": "deterministic simulation: seeded histories of saves, crashes, restarts and reloads on a simulated disk against a map model (raw and derived types)",
 "D02": "deterministic simulation: seeded histories of saves, edits, crashes, restarts and generations on a simulated disk against a model of the stored precision",
 "D03": "deterministic simulation: seeded histories of animation saves, crashes, restarts and generations on a simulated disk against a precision model",
 "D04": "deterministic simulation: seeded storage faults and foreign layouts taken through load-and-save generations; fixed-point check",
 "D05": "deterministic simulation: seeded histories of good and limit-breaking saves over streams and a simulated disk with short and interrupted transfers; history check of refusal, prior file and later saves",
 "D06": "deterministic simulation: mixed-version histories on one simulated store: the library of the tree and the pinned release take turns through upgrades, downgrades and crashes; differential check of every state",
 "F01": "deterministic simulation: real std file layer on a simulated disk with open, read, stat, write and space faults; contents checked against a map model",
 "F02": "deterministic simulation: process death and power loss at enumerated and seeded points of the write journal; post-restart read checked against old and new",
 "R01": "deterministic simulation: seeded storage damage under work, allocation and stack budgets of the simulator",
 "R02": "deterministic simulation: misdirected and header-corrupted files delivered to every reader",
 "N01": "deterministic simulation: the same operations replayed in processes with other histories, hash seeds, heap layouts, clocks and call order",
 "N02": "deterministic simulation: seeded thread scheduler switching at basic blocks, allocations, stream calls and locks; each call compared with its solo run",
 "J01": "deterministic simulation: the real tools on a simulated disk and clock with short and interrupted transfers; round trip against the library",
 "J02": "deterministic simulation: the real tools on a simulated disk with faults and kills at enumerated and seeded file operations; history check",
}
N = {}
BASE = "A clean batch of seeded runs is evidence, not proof. Trusted: the simulator's stream and disk model, the generators' reach, the comparison functions. "
N = {
 "S01": "Every reader runs on the same content under a whole and 1-3 seeded deliveries per run.",
 "S02": "Small stream histories get every call index over a batch; larger ones seeded indices. Faults are errors of several kinds, failing seeks and early ends.",
 "S03": "Writers run whole, typed, by path and through seeded acceptance plans; images must be identical.",
 "S04": "Fault positions are drawn over the exact number of calls and bytes of the fault-free save, so every position of a small image is met over a batch.",
 "D01": "Equality is the types' own plus a bitwise comparison of floats; generators cover every raw format and version and derived types.",
 "D02": "Comparison follows the component type each version stores; generation after generation must be stable.",
 "D03": "Compressed components of non-finite values are excluded; the allowed error follows the bit counts of the format.",
 "D04": "Inputs are generated images relocated, aliased and damaged, so acceptance is not limited to the library's own layout.",
 "D05": "Each run breaks one documented limit at a seeded place of a savable value; the limits are those the error types and documentation of the library name.",
 "D06": "The pinned release is a real node of the simulation (a copy of its sources in pinned/, without tests), not a model; floats of high-level values are compared up to rounding, everything else exactly.",
 "F01": "std's file layer and buffering are real; the kernel's file calls under /simdisk/ are simulated.",
 "F02": "Every journal prefix of small images and 40 seeded ones of larger images; bytes within one file keep their order.",
 "R01": "Budgets are proportional to the content plus a fixed allowance; a run above budget, a panic, an abort or a stack overflow is a violation.",
 "R02": "Every other reader is tried with every file; tags and versions are replaced by other supported, near and random ones.",
 "N01": "Both processes run the real code; the second has another history before each operation.",
 "N02": "Threads run one at a time; interleavings are at basic-block granularity under sequential consistency.",
 "J01": "Tool binaries are the shipped ones built from /repo; strings are text and floats finite, as the property says.",
 "J02": "Tool binaries are the shipped ones built from /repo; output is judged with the library in the checking process.",
}
FE = {"F02", "S02", "S04"}
checks = [{"property": k, "quick_cmd": f"./run.sh {k} quick", "thorough_cmd": f"./run.sh {k} thorough", "evidence_file": f"evidence/{k}.json",
           "technique": T[k], "level": "fault_enumeration" if k in FE else "exploration", "level_note": BASE + N[k]} for k in T]
PURE = "A pure function of its arguments: it reads no stream, disk, clock, randomness or shared state and no schedule, fault or history can reach it, so simulation would only be input sampling. "
NA = [
 {"property": "X01", "reason": PURE + "(SkelData::calculate_world_transform; saving and reloading skeletons is decided by D02, and damaged parent indices at load by R01.)"},
 {"property": "X02", "reason": PURE + "(Bounding volumes are computed from positions in memory; that they are the same in every process and for every caller is decided by N01 and N02.)"},
 {"property": "X03", "reason": PURE + "(Vector transforms and normal/tangent generation work on slices in memory; storage of their results is decided by D02.)"},
 {"property": "X04", "reason": PURE + "(Adjacency generation works on indices in memory; storage of adjacency is decided by D02.)"},
 {"property": "X05", "reason": "A static fact about one image per value: no schedule, fault or history changes the layout (S03, N01 decide that it never varies; D01 and D04 that it is read back, D06 that it is the same in the released version). Deciding the layout rules themselves is a comparison with a second serialiser, not a simulation."},
]
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": NA,
     "notes": "No hooks in /repo: the streams are generic parameters, the disk, clock, entropy and futex seams are libc symbols, and preemption points are compiler-inserted callbacks added by the harness's own build (sim/bin/rustcw). ./run.sh replay FILE replays a violation exactly."}
open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
