#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: "
claimed = {
"C01": ("seeded scans over a simulated stream against a generated box tree", "Seeded search over generated files, deliveries and callback histories; the oracle is the generator's own tree. Samples, does not enumerate. Trusts the layout rules in sim/model/tree.go."),
"C02": ("seeded callback failures, cancellations and values against the generated tree", "Seeded search; errors are compared by identity, parameters and values exactly."),
"C03": ("seeded delivery schedules of the simulated stream, compared with whole delivery", "Differential over deliveries of the same bytes, well-formed and corrupted; equality of results and of error classes."),
"C04": ("read/seek faults placed on operations of a recorded fault-free run", "Each faulted run is compared with the fault-free run of the same operation; faults are sampled, not enumerated."),
"C05": ("transient faults with retries on the same handle or stream", "Each retried history is compared with the fault-free one."),
"C06": ("sequences of payloads over simulated streams against a bit-level reference model", "Oracle is an independent generator of (bytes, value) pairs for every supported type (sim/model/boxes.go)."),
"C07": ("sequences of encodings to a simulated device and reload under seeded delivery", "Oracle is the same independent bit-level model; re-encoding of what was decoded is compared byte for byte."),
"C08": ("write, seek, full-disk, short-write and copy-source faults placed on operations of writer histories", "The fault-free run of the same history is the oracle: error reported, and what is on the simulated disk is a prefix of the fault-free image. Sampled."),
"C09": ("seeded writer histories on a simulated disk (window store, sizes beyond 4 GiB) against a reference writer", "Oracle is a reference writer (sim/checks/hist.go) of the documented header rules; the image is compared byte for byte and scanned back."),
"C10": ("crashes at every kind of write point with torn writes, and concurrent readers of the growing file", "At sampled instants of a history the disk is frozen (torn last write) and scanned; finished boxes must be final, writing must continue to the reference image."),
"C13": ("two to five tasks as goroutines under a seeded cooperative scheduler whose hand-over the Go race detector does not take for synchronisation, compared with each task alone", "Race reports are violations, results and stream operations are compared with the solo run; 400 runs have a process of their own so that lazily built state is met cold. The race build lays sync.Pool without random drops and fmt without its pool over the standard library. Schedules are sampled; hand-over points are stream operations and callbacks."),
"C14": ("seeded extraction requests over simulated files against the filtered generator tree", "Oracle is the generator's tree filtered by the request; payloads are compared with what a scan decodes."),
"C19": ("header write/read/seek histories on a sparse simulated stream with offsets beyond 4 GiB", "Oracle is the header layout of the format in the harness."),
"C20": ("seeded sequences over 140 generated user box declarations with hooks that observe and fail, over simulated streams with faults, and lookups under many context-dependent registrations", "Oracle is an independent codec (sim/userbox/box.go) driven by specs kept beside the declarations, and the list of registrations. The hook signatures name an internal type; a bridge package with type aliases is laid over /repo at build time."),
"C21": ("operation accounting of the simulated stream: which bytes were touched and by how many operations", "Every byte range read is checked against the ranges the request justifies; media payloads are sparse and terabytes long."),
"C11": ("corruption, truncation and mutation-while-reading faults with step and memory bounds", "Any panic, exceeded I/O step bound, exceeded address space or hang is a violation; sampled. Sample counts of tables that the format lets expand without backing bytes are clamped (see known findings)."),
"C12": ("faults on the bytes around a box (lost, torn, flipped, moved) and relocated boxes", "Differential over neighbours and offsets of the same box bytes; bounds invariants on everything reported."),
"C16": ("the whole edit command as a simulated process over a simulated file system with I/O faults, full disks, cut inputs and aliased paths", "Oracle is an independent edit of the generated box tree; every faulted run must fail or give exactly that file. Command sources are compiled from the working tree with package os, fmt, flag and log replaced by simulations (sim/cmd/rewrite)."),
"C17": ("the whole divide command as a simulated process over a simulated file system with I/O faults, seeded map order, full disks and cut inputs", "Oracle is the generated movie's own tracks and fragments; all files of the output directory are compared byte for byte, playlists by meaning. Faulted runs must fail or give exactly that."),
"C18": ("the whole extract, dump, probe and psshdump commands as simulated processes over a simulated file system with I/O faults, cut and corrupted inputs", "Oracle is the generated tree or movie; dump may abbreviate what was not asked for; the text of decoded values is taken from the library's own Stringify."),
"C15": ("seeded media files and deliveries against the generator's declared summary", "Oracle is the generator's own record of what it declared (sim/model/media.go)."),
}
names = {}
na = {
"C22": "pure function of one decoded value: no stream, schedule, clock, fault or history takes part in rendering (its freedom from crashes on arbitrary input is part of C11, its independence of concurrent tasks of C13)",
"C23": "pure functions of a field value: nothing a simulator controls takes part",
}
for l in open(os.path.join(root, "properties.jsonl")):
    q = json.loads(l)
    names[q["id"]] = q["title"]
    if q["id"] not in claimed and q["id"] not in na:
        na[q["id"]] = "check not built yet"
m = dict(version=1,
  setup_cmd="./setup.sh",
  hooks=dict(guard="none: no hook is committed in /repo", enable="the checks lay a bridge package and rewritten imports over /repo at build time (go build -overlay, tools/overlay.py); /repo itself carries no hooks", source_commits=[]),
  checks=[dict(property=i, quick_cmd="./check.sh "+i, thorough_cmd="./check.sh "+i+" thorough", technique=T+t, level="exploration", level_note=n) for i,(t,n) in sorted(claimed.items())],
  not_applicable=[dict(property=i, reason=r) for i,r in sorted(na.items())])
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
