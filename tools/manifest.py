#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of checks below.
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("Randomised search with shrinking over structured inputs, so no proof: it shows the property on every case "
        "generated and finds a violation whose trigger lies in the generators' reach. Trusts the reference model in "
        "harness/model_test.go, written from the standards and not from the code. ")
NOTES = {
 "C01": "Model: bit-string prefix matching. All byte engines and both build-from-scratch and decoded subscriptions, all tag lengths.",
 "C02": "Model: a map URI -> prefixes. Histories of up to about 40 operations with a sweep of all tags of the world after them.",
 "C03": "Differential against the un-saved engine and the model; every truncation of the saved bytes up to a bound.",
 "C04": "Model: pure identity text and field-wise pattern match.",
 "C05": "Model: table of GS1 partitions with big integers.",
 "C06": "Model: AFI table, 6-bit decoding.",
 "C07": "Model: bit layout of the standard and round trip through Translate.",
 "C08": "Relation: prefix equals leading bits of the tags made from the same fields; parser against generator.",
 "C09": "Metamorphic: a set with malformed patterns behaves as the set without them; refusal is checked per malformed kind.",
 "C10": "Arbitrary bytes; process death and time-outs count as violations.",
 "C11": "Model: ISO 6346 check digit, padding and PC bits; round trip.",
 "C12": "Model: bit-by-bit comparison on strings.",
 "C13": "Relation between originals and composite+child on random and mutated identifiers.",
 "C14": "Model of the CSV format; copy aliasing by mutation; codec round trip.",
 "C15": "Model of grouping; deep snapshots before and after engine operations.",
}
TODO = json.load(open(os.path.join(here, "tools/extra_notes.json"))) if os.path.exists(os.path.join(here, "tools/extra_notes.json")) else {}
NOTES.update(TODO)
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTES.setdefault("C21", "Model: set of (prefix, URI) lines; paths joined through the tree.")
m = {"version": 1,
     "setup_cmd": "./check.sh setup",
     "checks": [], "not_applicable": [],
     "notes": "All checks are one Go test binary (harness/) built against /repo's working tree by check.sh. Replay: ./check.sh replay <file>. No hooks in /repo."}
for i in ids:
    if i in NOTES:
        guided = i not in ("C16", "C17", "C18", "C19", "C20", "C22", "C23")
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json",
          "technique": "property-based testing (rapid, shrinking) against a reference model" + (", plain and coverage-guided" if guided else ""),
          "level": "exploration", "level_note": BASE + NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
