#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below."""
import json
DST = "deterministic simulation with fault injection"
CLAIMS = {
 "C01": ("exploration", "seeded honest sessions under random-source, clock and memory faults", "Seeded search over circuits x entropy behaviour x clock x memory contents with the real prover and verifier; trusts nothing but the verdict. Bounded circuit sizes, so exploration, not proof."),
 "C02": ("fault_enumeration", "seeded cheating provers and wire faults, each steered past all checks but one, against a reference verifier", "Every kind of check at drawn layers/rounds is attacked separately (lies carried exactly up to it, or that check alone violated); trusts the reference protocol in sim/circ.h and 93-bit challenges."),
 "C03": ("exploration", "seeded honest sessions compared message by message with a reference protocol", "Every output and message of the real prover is compared with an independently written reference; bounded circuit sizes."),
 "C05": ("exploration", "seeded honest sessions (verdict and every message) against a reference protocol", "As C01 and C03 for the traditional pair."),
 "C06": ("fault_enumeration", "seeded cheating provers and wire faults against a reference verifier", "As C02 for the traditional pair."),
 "C07": ("exploration", "seeded honest sessions (verdict and every message) against a reference protocol, with address sanitizer", "As C01 and C03 for the data-parallel pair; 1 to 8 copies."),
 "C08": ("fault_enumeration", "seeded cheating provers and wire faults against a reference verifier", "As C02 for the data-parallel pair."),
}
NA = {}
exec(open(__file__.replace("mkmanifest.py", "claims_more.py")).read())
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "LIBRA_SIM", "enable": "check.py compiles /repo's sources with -DLIBRA_SIM (prover message functions become virtual)", "source_commits": ["926f69e"]},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIMS:
        lv, how, note = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": DST + ": " + how, "level": lv, "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
