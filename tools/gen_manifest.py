"""Writes MANIFEST.json from properties.jsonl, harness/meta.json and the implemented checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(f"{V}/harness/meta.json"))
checks, na = [], []
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(f"{V}/harness/props/{i.lower()}.py"):
        m = meta.get(i, {})
        checks.append(dict(
            property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="property-based testing (Hypothesis): " + m.get("oracle", "generated inputs against a reference"),
            level="exploration",
            level_note=m.get("note", "Randomized search with a fixed seed; float64 and float32; no exhaustiveness claim.")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="Python 3.12 from /opt/venv runs MagPI; Hypothesis comes from the pre-installed tooling venv. See DESIGN.md."),
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
