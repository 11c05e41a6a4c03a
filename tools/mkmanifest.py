#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import PLANS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "TLA+ specification; every transition of bounded state graphs and seeded random histories replayed into the real code, recorded traces validated by TLC"
BOUNDED = ("Exhaustive for the bounded instances of the specification's state graph given in the evidence, sampled beyond them. "
           "Trusts TLC, the Rust compiler and the script interpreter in driver/, which has no oracle of its own. ")
NOTES = {
    "C01": "Debug and release builds; objects up to a few hundred bits, positions around word boundaries exhaustively.",
    "C02": "Windows up to nesting depth 3 (4 in the thorough tier), all nine bound kinds, both builds.",
    "C03": "Rejections compared call by call in both builds; memory errors show as crashes under guard pages, silent reads of other live memory would be missed only if they do not change a result.",
    "C04": "Iterators of bit vectors, views and integer vectors, borrowing and consuming.",
    "C05": "Pairs of windows with equal, nearly equal and unequal contents over all combinations of storage types the library can compare.",
    "C06": "The words are compared bit for bit after histories over all routes of writing.",
    "C07": "All 64 widths in every run.",
    "C08": "All 64 widths and every rejected width up to 80 plus very large ones.",
    "C09": "Packed words compared limb by limb for all 64 widths.",
    "C10": "One known finding: vectors whose inner view was replaced by one that does not start at their first bit. Whole vectors are swept; the segment arithmetic of the trace specification is itself checked against the definition of rank by TLC.",
    "C11": "One known finding: vectors whose inner view was replaced by one that does not start at their first bit. Whole vectors are swept, including selects past the last one.",
    "C12": "Index entries drawn around their boundary cases; the vectorised strategy needs ssse3 and sse4.1 on the machine.",
    "C13": "Heap use is counted by the driver's allocator after every step; the growth rule of the design is checked by TLC for all widths and capacities of a bounded instance.",
    "C14": "Two-thread runs are sampled, not enumerated; the interleavings are enumerated in the SplitRace model. One known finding: halves sharing a word.",
    "C15": "Clones, clones of clones and dropped originals.",
    "C16": "Every wrapper route the driver offers, nested views included.",
    "C17": "Unchecked routes within their contract, both builds.",
    "C18": "Thread schedules are those of the machine; each thread's answers are validated against a specification in which queries have no effect.",
    "C19": "Debug text compared character by character.",
    "C20": "The real program runs in a scratch directory as an unprivileged user with stand-ins for cargo and grcov; all combinations of task, format and outcomes of a bounded model.",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = []
    na = []
    for p in ids:
        if p in PLANS:
            checks.append({
                "property": p, "quick_cmd": f"python3 tools/check.py {p}", "thorough_cmd": f"python3 tools/check.py {p}",
                "evidence_file": f"evidence/{p}.json", "technique": TLA, "level": "model_checking",
                "level_note": BOUNDED + NOTES[p]})
        else:
            na.append({"property": p, "reason": "its check is not finished yet"})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks: the checks use the public interface only. KNOWN-FINDINGS.txt lists repaired and known defects."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
