#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py and the notes below."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from props import PROPS
T = "exhaustive bounded exploration of the real code "
N = {
"C01": (T + "(encode/decode of every input of bounded families)", "Every input of the stated families is executed; holds within those bounds, not beyond."),
"C02": (T + "against an executable reference model of the format", "Every delta of the bounded families is decoded and compared with an independent model; trusts the model."),
"C03": (T + "against an executable reference model (all edits of a corpus, all field values)", "Every byte string of the bounded families that the model rejects must be rejected; trusts the model."),
"C04": (T + "over all chunk partitions", "All partitions of short deltas, all 1-3 cut sets and uniform sizes of longer ones, valid and corrupted."),
"C05": (T + "in sanitizer-instrumented builds, with a hang watchdog", "Every delta/limit/chunking of the bounded families under ASan+UBSan, debug and release builds."),
"C06": (T + "over limits x window-size sequences against the reference model", "Complete product of small limits and window sizes plus exact default boundaries; heap use is measured."),
"C07": (T + "over window contents and all corruptions", "All small contents, checksum values at every reduction boundary, every single-byte corruption."),
"C08": (T + "with a strict reference parser as monitor", "Same input families as C01; parser is independent of the repository's decoder."),
"C09": (T + "over all session histories up to a depth", "Every sequence of up to three sessions of the listed kinds on one object, compared with a fresh object."),
"C10": (T + "over all API call sequences up to a depth against a protocol model", "All sequences up to the stated length; release build, where misuse is defined."),
"C11": (T + "over all instruction sequences up to a depth", "All sequences of the bounded alphabet x tables x cache sizes x formats, executed by the model and by the real decoder."),
"C12": (T + "over all 2^31 values and all short byte strings", "Complete for 32-bit values; boundary-complete for 64-bit."),
"C13": (T + "with an independent strict JSON parser", "Bounded input families; trusts the small JSON parser."),
"C14": ("stateless model checking: controlled scheduler over instrumented memory accesses, all interleavings to a preemption bound, happens-before race check", "All schedules of 2-3 threads up to the preemption bound at the granularity of shared accesses."),
"C15": (T + "over the option/input product of the command-line tool", "Every combination of the listed options and input shapes is run on the real binary."),
"C16": ("exhaustive fault enumeration: every I/O call of each run failed or cut short in turn", "Single faults at every system call and output offset of the listed runs."),
"C17": (T + "over all positions, alignments and lengths", "Complete over the stated grid of alignments and lengths; instruction stream read by the reference parser."),
"C18": (T + "over all prefixes and chunkings against the reference model", "Output inspected after every call of every listed chunking."),
"C19": (T + "over all address histories up to a depth against a cache model", "All sequences to the stated depth x cache sizes, encoder and decoder side, plus all mode/value pairs."),
"C20": (T + "over every single-entry table variant", "All 6x256x256 single-entry changes; every instruction and pair lookup for a set of tables."),
"C21": (T + "in sanitizer-instrumented builds (encoder side)", "Every input of the bounded families under ASan+UBSan with exact-size buffers, debug and release builds."),
"C22": (T + "with a recording writer as monitor (all inputs of bounded families, all call histories to a depth)", "Every call made on the supplied writer is checked against a small protocol automaton."),
"C23": (T + "with edge-count instrumentation over adversarial families at growing sizes", "Complete over the listed families and sizes; super-linear growth is detected by comparing effort per byte at 1x, 4x, 16x."),
"C24": (T + "with heap accounting (all edits/prefixes of a corpus, all session pairs, encoder histories)", "Every operator new/delete of library and harness is counted."),
}
NA = {}
M = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "Every check builds its harness from /repo's working tree (no hooks in /repo are needed) and explores its spaces on all cores; see DESIGN.md."}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PROPS:
        M["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": N[p][0], "level": PROPS[p][0], "level_note": N[p][1]})
    else:
        M["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(M["checks"]), "checks")
