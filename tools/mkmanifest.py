"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/../properties.jsonl")]
COMMON = "runtime monitoring of the real library under generated hostile workloads"
T = {
 "C01": "pointer and length of every slice that the iterators yield is watched under random iterator call sequences",
 "C02": "online monitor of every returned position: in range, past the last one, and no endless repetition",
 "C03": "differential monitor: cuts of one stream under several segmentations, with a trace comparison",
 "C04": "differential monitor: edge search over buffers that grow in different ways, discarding as told or less",
 "C05": "differential monitor: cuts by search, push and both slice iterators compared",
 "C06": "panic, overflow-check, crash, step-limit and allocation monitors; AddressSanitizer and Miri on small cases",
 "C07": "range and crash monitors on search states that are deliberately given unrelated data",
 "C08": "differential monitor: a chunker after an edge against a fresh one on the rest of the data",
 "C09": "monitor of cut locality: edited streams must cut alike once the window has passed the edit",
 "C10": "online monitor of chunk lengths against the configured bounds, on streams made to reach them",
 "C21": "differential monitor: instances made in every possible way, and constructor parameters, compared by their cuts",
 "C22": "differential monitor over interleaved, parallel and repeated runs; ThreadSanitizer and Miri's race detector with varied schedules",
 "C23": "differential monitor: clones taken at random moments against their originals, effects of one on the other, equality",
 "C24": "counting allocator watches live and peak bytes against a bound from the window alone",
 "C25": "online monitor of the discard amounts: bytes a caller must keep, against the window",
 "C26": "step counts (control-flow edges counted by SanitizerCoverage) and examined bytes, against a linear bound",
 "C27": "cuts of the same cases compared between builds of the real library: every feature alone, every one left out, optimisation levels, overflow checks, and Miri for 32-bit and big-endian machines",
 "C28": "range predicates evaluated on generated ranges and values, against membership as RangeBounds::contains and the order define it",
 "C29": "mean chunk length observed over long random streams, against the expectation with its standard error",
 "C30": "streams and mapped slices of more than 4 GiB run through the library, edges compared with those the definition gives",
}
for p in props:
    if p["id"] not in T:
        T[p["id"]] = "online oracle: an independent executable definition of the algorithm judges every cut the library makes"
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "./check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.py " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": COMMON + ": " + T[i],
        "level": "exploration",
        "level_note": "Decided on the executions observed (counts in the evidence file); workloads are generated from VERIF_SEED, not enumerated.",
    })
json.dump({"version": 1, "setup_cmd": "./check.py setup", "checks": checks, "not_applicable": []},
          open(here + "/../MANIFEST.json", "w"), indent=1)
