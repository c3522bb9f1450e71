"""Writes the per-property section of DESIGN.md (between the markers) from properties.jsonl, meta.json and seeded results."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(f"{V}/harness/meta.json"))
det = json.load(open(f"{V}/tools/design_detail.json"))
out = []
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    src = open(f"{V}/harness/props/{i.lower()}.py").read()
    groups = re.findall(r'Group\("(\w+)",.*?chk\w*, (\d+), (\d+)', src)
    out.append(f"### {i} — {p['title']}\n")
    out.append(f"- **Generated:** {det[i]['gen']}")
    out.append(f"- **Oracle:** {meta[i]['oracle']}.")
    out.append(f"- **Groups (cases quick/thorough):** " + ", ".join(f"`{g}` {q}/{t}" for g, q, t in groups))
    out.append(f"- **Bounds:** {det[i]['bounds']}")
    out.append(f"- **Beyond the tests:** {p['why_tests_cant']}\n")
s = open(f"{V}/DESIGN.md").read()
a, b = "<!-- properties -->\n", "<!-- /properties -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):]
# seeded table
rows = []
res = f"{V}/tools/seeded_results.json"
if os.path.exists(res):
    R = json.load(open(res))
    for k in sorted(R):
        r = R[k]
        rows.append(f"| `{k}` | {r['property']} | {r['needs']} | {r['caught']} |")
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
s = s[:s.index(a) + len(a)] + "\n| change | property | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n\n" + s[s.index(b):]
open(f"{V}/DESIGN.md", "w").write(s)
