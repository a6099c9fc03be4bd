#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": "stateful model-based testing (proptest histories vs ordered-map model)",
    "C02": "stateful model-based testing (proptest histories vs ordered-map model)",
    "C03": "stateful model-based testing (proptest histories vs ordered-map model)",
    "C04": "stateful model-based testing of writes (proptest histories vs ordered-map model)",
    "C05": "stateful model-based testing of iterators (proptest histories vs ordered-map model)",
    "C06": "stateful model-based testing of size answers (proptest histories vs entry count)",
    "C07": "algebraic laws (round trip, order, injectivity) on generated and enumerated keys",
    "C08": "stateful model-based testing (proptest histories vs map of ordered maps)",
    "C09": "stateful testing with a drop ledger, heap counter and injected key panics",
    "C10": "differential testing of all assemblies on the same generated histories",
    "C11": "generated histories with counted key operations and requests to parts against a linear budget",
    "C12": "stateful model-based testing of clone pairs on generated histories",
    "C13": "metamorphic testing: full observation before and after declined operations",
    "C14": "metamorphic testing: same contents by different generated routes, then common continuations",
    "C15": "stateful model-based testing (generated histories vs array of 256 booleans) plus all pairs",
    "C16": "stateful model-based testing (generated histories vs plain vectors)",
    "C17": "property-based testing of all owned/borrowed form combinations",
    "C18": "property-based testing against masked integer arithmetic, byte pairs enumerated",
    "C19": "stateful model-based testing with instrumented user-supplied parts",
}
NOTE = ("Searched, not proved: holds on every generated case of this run, on builds with and without debug assertions. "
        "Trusts the harness's reference model and the sandbox's toolchain. ")
X = {
    "C07": "8-bit key types are covered for all pairs and 16-bit types for all keys. The CARDINALITY constant is not judged (see DESIGN.md).",
    "C09": "Faults are injected into comparison, cloning, hashing, equality, splitting and joining of user keys; values and hashers do not panic.",
    "C11": "The budget is 1.7 to 2 times what the crate uses today; requests to parts are allowed 4d+12; hashing is not counted.",
    "C18": "All byte pairs with all shifts below 8 are enumerated; longer shifts panic by design of the storage type and are out of domain.",
}
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": T[p["id"]],
        "level": "exploration",
        "level_note": NOTE + X.get(p["id"], ""),
    } for p in props],
    "not_applicable": [],
    "notes": "No hooks in /repo: every property is judged through the public interface. Repaired defects: known_findings.txt.",
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
