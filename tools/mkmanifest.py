"""Writes MANIFEST.json from properties.jsonl and the available property modules."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(here, "vlib", "props", pid.lower() + ".py")):
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"./check {pid} --tier quick",
                "thorough_cmd": f"./check {pid} --tier thorough",
                "technique": TECH.get(pid, "property-based testing (Hypothesis) against a reference model"),
                "level": "exploration",
                "level_note": "generated-input search with an explicit oracle; absence of violations is shown only for the explored cases (counts in the evidence file)",
                "evidence_file": f"evidence/{pid}.json",
            }
        )
    else:
        na.append({"property": pid, "reason": "check is under construction"})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
