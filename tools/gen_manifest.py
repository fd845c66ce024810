#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": "property-based testing: metamorphic relations over generated token multisets",
 "C02": "property-based testing: generated experiments against a statistical oracle with stated tolerance",
 "C03": "property-based testing against an exact counting reference",
 "C04": "property-based testing against the S-curve formula",
 "C05": "stateful model-based testing of generated histories against a brute-force index model",
 "C06": "stateful model-based testing of ranked queries against a brute-force index model",
 "C07": "stateful model-based testing of bookkeeping against a brute-force index model",
 "C08": "differential property-based testing, bulk against one by one, over thread-pool sizes",
 "C09": "differential stateful testing across id containers plus a multiset model",
 "C10": "stateful model-based testing with generated capacity, shrink and clear operations",
 "C11": "property-based testing against brute-force band frequencies",
 "C12": "property-based testing against a reference bit-majority vote over an own SipHash",
 "C13": "property-based testing: generated experiments against a statistical oracle with stated tolerance",
 "C14": "stateful model-based testing against a linear scan",
 "C15": "stateful differential testing against a linear scan and across call forms and thread counts",
 "C16": "property-based testing against a character-level reference tokenizer",
 "C17": "property-based testing against n-gram enumeration",
 "C18": "stateful model-based testing with generated files and injected read faults",
 "C19": "property-based testing of generated graphs and call sequences against a validity predicate",
 "C20": "property-based testing with schedule perturbation against a validity predicate",
 "C21": "stateful Hypothesis testing of the built extension against a pure-Python model",
 "C22": "stateful Hypothesis testing of the built extension against a pure-Python model",
 "C23": "property-based testing: generated corpora against binomial bounds from the S-curve",
 "C25": "stateful Hypothesis testing with injected faults, differential against an index that never saw the failing calls",
 "C24": "property-based testing of generated write splits against own SHA-1 and SipHash implementations",
}
NOTE = {
 "C02": "Search, not proof. Pooled z-score tests; a margin far outside sampling noise separates noise from a broken hash family, so small biases are not seen.",
 "C13": "Search, not proof. Statistical margins far outside sampling noise; small biases are not seen.",
 "C23": "Search, not proof. Binomial bounds with negligible error probability on the unchanged tree; small rate shifts are not seen.",
 "C20": "Search, not proof. Schedules are perturbed (yields and rendezvous inside user callbacks), not enumerated; a rare interleaving inside the library can be missed.",
}
D = "Search, not proof: the property held on every generated case of this run; the oracle shares no code with the library except where DESIGN.md says so."
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/check --setup",
     "checks": [{"property": i, "quick_cmd": f"bin/check {i} --tier quick", "thorough_cmd": f"bin/check {i} --tier thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "exploration", "level_note": NOTE.get(i, D)} for i in ids],
     "not_applicable": [],
     "notes": "No hooks: only public API of gaoya is used. /repo carries fix: commits for the defects listed in KNOWN_FINDINGS.md."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
