#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
M = "stateful property-based testing (proptest histories, per-operation specification over observed content)"
S = "stateful property-based testing (proptest histories, invariant oracle in every reached state)"
T = {
 "C01": M, "C02": M, "C03": M, "C04": M, "C05": M, "C06": M, "C07": M,
 "C08": S + ": independent fold of the content", "C09": S + ": structure walked from outside",
 "C10": S + ": linear scan", "C11": S + ": element order", "C12": S + ": prefix fold", "C13": S + ": element list",
 "C14": S + ": recursive reading of the filter; and per-operation specification of the filtered update",
 "C15": S + ": handle bookkeeping from reports alone", "C16": S + ": snapshots kept beside the tree",
 "C17": "model-based property testing against std BTreeMap", "C18": "model-based property testing against std BTreeSet",
 "C19": "model-based property testing against String", "C20": "property-based testing against directly computed parts",
 "C21": M + " for element counts and unmerged neighbours",
 "C22": "property-based testing with counted user-function calls and key comparisons against a logarithmic bound",
 "C23": "model-based property testing of a client against an array of runs",
 "C25": S + ": contract assertions inside the element functions, and element boundaries before and after",
 "C26": "property-based testing with counted user-function calls against a bound linear in the touched part",
 "C27": "metamorphic property-based testing: the same history run again, and continued on clones",
 "C28": "model-based property testing on very large trees against an implicit model (segments of consecutive units)",
 "C29": "property-based testing of churn histories with counted element instances and a counting allocator",
 "C30": "model-based property testing with elements of up to 2^52 units against a model of segments",
 "C24": "model-based property testing of a client against std BTreeMap",
}
note = ("Holds on every generated case of a fixed-size, seeded search (counts, class histogram and samples in the evidence); "
        "no exhaustiveness. Trusts the harness's own element and summary implementations (which meet the documented contracts), "
        "the oracle code, rustc and proptest. The library is built optimised with debug assertions and overflow checks on.")
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [{
   "property": p["id"],
   "quick_cmd": f"VERIF_TIER=quick bash check.sh {p['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": T[p["id"]],
   "level": "exploration",
   "level_note": note,
 } for p in props],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything is observed through the public interface. Repaired defects: KNOWN_FINDINGS.txt; design and planted-bug results: DESIGN.md.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
