"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TRUST = " Trusted: TLC, the encoder (lib/pbf.py), Python's zlib, and the executor (harness/), which only records what the public API returns."
NOTES = {
    "C01": "TLC enumerates all files of up to 3 abstract blobs (4 in thorough) with every tail; each is executed with random contents and the callback sequence is validated by TLC against Files!SeqRead.",
    "C02": "The map/reduce algorithm is model-checked for every schedule (safety and liveness); every identity, map and reduce call of real runs on 1 to 16 threads is validated as a step of Par.",
    "C03": "Iteration of random, sparse (beyond 4 GiB) and TLC-generated streams; every item is validated against Stream!Next.",
    "C04": "Random and TLC-generated mixtures of skipping, full and positioned reads, also over contents of 2 GiB; validated against Stream!Hdr.",
    "C05": "Every cut position of sample streams and damaged frame headers, with every reader; validated against Wire!FrameIn and Stream.",
    "C06": "Iteration far beyond the first error and the end on damaged and TLC-generated streams; the Fused property is model-checked on MC_Stream and every step validated.",
    "C07": "All operation sequences of bounded length of MC_Stream (with failures) are model-checked for history independence; each transition is executed on the real readers and validated.",
    "C08": "Buffered and mapped readers run in one session over random, damaged and mutated streams; both are validated against the same specification and unspecified outcomes have to agree.",
    "C09": "Sizes at and around both limits for every reader and storage; validated against Wire's limits.",
    "C10": "The same message in many storages and damaged contents; the decoded block is validated against Block!DecodeBlock.",
    "C11": "All small dense groups (TLC) and random ones with 64-bit values; every element is validated against Block.",
    "C12": "All key/value arrays over a small alphabet (TLC) and random ones; the tags of every node are validated against Block!KvOfNodes.",
    "C13": "All small combinations of present and absent metadata (TLC) and random ones; validated against Block!InfoOf and DenseInfoOf.",
    "C14": "All small ways and relations (TLC) and random ones with 64-bit deltas; validated against Block.",
    "C15": "All combinations of interesting coordinates, granularities and offsets (TLC) and random ones; validated with exact 64-bit arithmetic in TLA+.",
    "C16": "All string resolutions of small tables (TLC) and random tables with invalid UTF-8; validated against Block!Resolved.",
    "C17": "All iterator scripts of bounded length (TLC) executed on real iterators and every result, length and clone validated against Iter.",
    "C18": "Small files, filters and call histories enumerated by TLC and random ones; validated against Files!AllWays, Accepted, Deps.",
    "C19": "As C18, for node iteration; validated against Files!NodeGroups.",
    "C20": "The indexed reader's implementation state machine (with failures) is model-checked against the history-free definition; its behaviours are executed and validated.",
    "C21": "Hostile messages, mutated bytes, exaggerated sizes and expanding contents through every reader under memory and time limits; a panic, hang or excess is not a step of the specification. Exploration of an unbounded input space.",
    "C22": "All presence combinations of header fields and random values; validated against the message.",
    "C23": "Every I/O call of sample sessions fails in turn with every kind of error, and MC_Stream's behaviours with failures; validated against Stream and Files with failures.",
    "C24": "Cut, corrupt and mutated streams, undecodable contents, unresolvable strings, refused seeks of every kind, missing files and the failing behaviours of MC_Stream and MC_Files; every error is validated against Errors for its cause.",
    "C25": "Blobs kept from random histories and from MC_Stream's behaviours are decoded repeatedly, as clones, concurrently and after the reader is gone; every decoding is validated against the frame that was read.",
}

props = [json.loads(x) for x in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
        "technique": "TLA+ specification model-checked by TLC; TLC-generated behaviours executed on the real library and its traces validated by TLC",
        "level": "model_checking",
        "level_note": NOTES[i] + TRUST,
    })
man = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the harness uses the public API, its own Read/Seek implementations and closures. "
             "Known findings and repairs are in KNOWN_FINDINGS.txt. Replay a violation with: python3 run.py Cxx --replay FILE",
}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
