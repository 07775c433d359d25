#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (one entry per claimed property)."""
import json, os
CLAIMED = os.environ.get("CLAIMED", "").split() or ["C%02d" % i for i in range(1, 17)]
NOTES = {
    "C01": "Seeded search over archives x sink/source schedules x access paths; oracle: the specification that was written.",
    "C02": "Seeded search; oracles: an independent strict ZIP parser and byte equality with an unperturbed run.",
    "C03": "Seeded search over histories of failing, rejected, cancelled and dropped entry writes; oracle: the list of operations reported successful.",
    "C04": "Seeded search over sink fault placements; oracle: the bytes of the fault-free run and the sink's own log.",
    "C05": "Seeded search over write/flush interleavings with crashes; oracle: independent incremental decoding of the durable bytes.",
    "C06": "Seeded search over truncation points, record boundaries favoured; oracle: the untorn archive.",
    "C07": "Seeded search over read histories with injected read/seek errors, short files, cancellations and retries; oracle: the original content.",
    "C08": "Seeded search over stored-byte damage (flips, zeroed/overwritten ranges, transient damage); oracle: the original content.",
    "C09": "Seeded search over own and foreign archives x read/skip choices x schedules; oracle: the specification and the record positions.",
    "C10": "Seeded search over task interleavings on shared readers with cancellations and file faults; oracle: the original content.",
    "C11": "Seeded search over mutated bytes with a counting allocator, step bounds and panic capture.",
    "C12": "Seeded search over sizes, offsets and counts around the 16/32-bit limits on sparse simulated storage; oracles: true values and the independent parser.",
    "C13": "Seeded search over copy chains; oracles: first-generation description and content, and the independent parser.",
    "C14": "Seeded search over poll/wake schedules with strict wakers, spurious polls and one-byte I/O; invariants: no lost wake-up, step bounds, position bounds.",
    "C15": "Seeded search over comments, sizes, alignments and read chunkings; oracle: the archive as constructed.",
    "C16": "Seeded search comparing every access path on the same bytes (differential).",
}
NA = {"C17": "Pure functions of their arguments: no scheduling, time, I/O or fault for a simulator to vary. (Their effects on archives are still exercised through C01, C02 and C13.)"}
PENDING = "The check for this property is still being built."
doc = {
    "version": 1,
    "setup_cmd": "bash /verif/check.sh build",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"bash /verif/check.sh {p}",
            "thorough_cmd": f"VERIF_TIER=thorough bash /verif/check.sh {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
            "level": "exploration",
            "level_note": NOTES[p] + " Sampling, not proof; trusts the simulator and the oracle, the dependencies' codecs run for real.",
        }
        for p in CLAIMED
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()]
    + [{"property": p, "reason": PENDING} for p in NOTES if p not in CLAIMED],
    "notes": "No hooks in /repo: the library's own seams (AsyncRead/AsyncSeek/AsyncWrite, tokio traits, libc file calls) are enough. Every run is one decision tape; replay with check.sh replay FILE.",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(doc, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
