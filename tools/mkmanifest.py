#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=deterministic simulation"], capture_output=True, text=True).stdout.split()
PUB = "Samples images, call histories, interleavings (sequentially consistent, switching at basic blocks, allocations and system calls), environments and faults; each run is one seed and exactly repeatable. A clean batch is evidence, not proof. Runs the unmodified library (no hooks) through its public API. "
INT = "Samples data, parameters, random streams and weight callbacks (both with faults), interleavings, environments and histories; each run is one seed and exactly repeatable. A clean batch is evidence, not proof. Runs the real component through entry points behind --cfg auto_palette_dst. "
note = {
 "C01": PUB + "Oracle: equality with the first answer to the same question in any universe of the run.",
 "C02": PUB + "Oracle: an independent exhaustive grouping of the pixels (interval arithmetic around the radius; images too close to call are skipped and counted).",
 "C03": PUB + "Oracle: integrality, order, bounds and the number of pixels that an independent exhaustive grouping does not call noise.",
 "C04": PUB + "Oracle: one-to-one matching between swatches and the groups of an independent exhaustive grouping.",
 "C05": PUB + "Oracle: the answer of the same call running alone in a fresh simulated process.",
 "C06": PUB + "Oracle: every caller returns within 600 n^2 + 10^7 own steps (measured worst case on this tree: below 7 n^2), no deadlock, no wait on a stalled caller; 256 KiB stacks.",
 "C07": PUB + "Oracle: after injected allocation failures a call aborts, panics, or returns the fault-free run's palette. Failure positions are sampled, not enumerated.",
 "C08": INT + "Oracle: size, membership and multiplicity of the seeds; a step bound per operation.",
 "C09": INT + "Oracle: exact furthest-first check (coordinates chosen so that squared distances are exact); first seeds over sweeps of independent streams.",
 "C10": INT + "Oracle: conservation of sizes and of the coordinate sums; bounding box.",
 "C11": INT + "Oracle: an independent Lloyd step with error intervals between the results of consecutive iteration limits; settled rounds exactly.",
 "C12": INT + "Oracle: bitwise equality of repeated fits, across histories with failing random sources, callers, schedules and environments.",
 "C13": INT + "Oracle: independent Prim over exact weights; structure checks; bitwise equality across universes.",
 "C14": INT + "Oracle: a partition is accepted only if removing the k-1 heaviest edges of some minimum spanning tree yields it; nesting; equality across universes.",
 "C15": INT + "Oracle: exhaustive grouping with exact distances, one-to-one matching of sizes and means, exact outliers; equality across universes.",
 "C19": PUB + "Oracle: bytes allocated through the simulated allocator: at most 1 MiB + 1 KiB per pixel and caller at once (measured worst case on this tree: below 160 bytes per pixel); no growth from the second to the fourth quarter of a history of equal or always different calls; no simulated thread left.",
 "C20": PUB + "Oracle: every call that changes the outside world is replaced by a stand-in that records it; there must be none, and pixels, panic hook and floating-point mode must be as before. Covers libc calls by name (output, files, sockets, processes, environment, signals, working directory), not raw system calls.",
}
na = {
 "C16": "The neighbour searches are pure single-threaded functions of their arguments: no scheduling, time, randomness, I/O or allocation outcome can change what they return, so a simulated schedule or fault adds nothing over plain input generation. Their effect on results is decided inside C04, C11 and C15.",
 "C17": "Colour conversions are pure arithmetic on a few floats without allocation, state, randomness or concurrency: there is nothing for a simulator to schedule or to fail.",
 "C18": "Core distances are a pure function of the dataset and nothing in the crate uses them; no nondeterminism or fault can reach them.",
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {"guard": "--cfg auto_palette_dst", "enable": "RUSTFLAGS='--cfg auto_palette_dst' cargo build (check.sh does it for C08-C15; C01-C07, C19 and C20 build /repo without it)", "source_commits": hook},
 "checks": [{"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}", "evidence_file": f"evidence/{p}.json",
   "technique": "deterministic simulation with fault injection (seeded search over schedules, environments, inputs and faults)",
   "level": "exploration", "level_note": n} for p, n in note.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in na.items()],
 "notes": "VERIF_SEED selects the batch, VERIF_TIER=thorough the deep one; ./check.sh replay FILE re-executes a replay file. See DESIGN.md.",
}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
