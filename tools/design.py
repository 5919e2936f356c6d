"""Writes DESIGN.md: tools/design_head.md, then one section per property from the registry, then the planted bugs."""
import glob, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/vp")
import registry
P = [json.loads(l) for l in open(H + "/properties.jsonl")]
out = open(H + "/tools/design_head.md").read()
out += "## 5. The properties, and how each is decided\n"
for p in P:
    r = registry.PROPS.get(p["id"])
    out += "\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if not r:
        out += "Not claimed.\n"
        continue
    out += "*Proved by* `vp/units/{%s}.py` over `vp/harness`; *replayed by* `native/%s`. %s\n\n" % (",".join(m if isinstance(m, str) else m[0] for m in r["modules"]), ", ".join(m if isinstance(m, str) else m[0] for m in r["native"]), r["note"])
    out += "Assumed: " + "; ".join(a for a in r.get("assumptions", [])) + ".\n"
    if r.get("trusted"):
        out += "\nTrusted contracts: " + "; ".join(r["trusted"]) + ".\n"
out += "\n## 6. Planted bugs\n\nEach was written from the property's text and the code, compiles, passes the repository's tests, and has a demonstration. All are in `seeded/`.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
res = {}
if os.path.exists(H + "/tools/seed_results.json"):
    res = json.load(open(H + "/tools/seed_results.json"))
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    out += "| %s | %s | %s | %s | %s |\n" % (i, d["property"], d["what_it_breaks"], d["needs"], res.get(i, "its property's check"))
tail = H + "/tools/design_tail.md"
if os.path.exists(tail):
    out += "\n" + open(tail).read()
open(H + "/DESIGN.md", "w").write(out)
