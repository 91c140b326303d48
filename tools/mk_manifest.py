"""Writes MANIFEST.json from properties.jsonl (run by hand after a property is added)."""
import json
TECH = {
 "P21": "stateful property-based testing: generated call histories and thread groups in fresh processes, each call compared with the same call alone, data races watched (ThreadSanitizer)",
 "P25": "property-based testing with injected faults: each memory request of a generated call is refused in turn, under ASan and UBSan; blocks in use and results are compared with the undisturbed call",
 "P26": "metamorphic property-based testing: the same generated call on texts four times as long, CPU time and peak memory compared",
 "P27": "differential property-based testing: the same generated calls in eight builds of the library loaded side by side, by different compilers, standards, options and char signedness",
 "P28": "property-based testing with generated programs: random translation units, header orders, standards and times of call, built, run and compared with a model",
 "P22": "property-based testing of the tool as a process: generated data files and injected file faults against a model of the output",
}
DEF = "property-based testing: exhaustive small domains, seeded structured generation and coverage-guided fuzzing (libFuzzer) against a reference model, under ASan and UBSan"
checks = []
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    p = d["id"]
    checks.append({"property": p, "quick_cmd": "python3 /verif/check.py --property %s --tier quick" % p, "thorough_cmd": "python3 /verif/check.py --property %s --tier thorough" % p,
                   "technique": TECH.get(p, DEF), "level": "exploration",
                   "level_note": "Exhaustive on the small domains named in DESIGN.md, sampled beyond them; a failure is shrunk and replayed three times before it is reported."})
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)'", "checks": checks, "not_applicable": []}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
