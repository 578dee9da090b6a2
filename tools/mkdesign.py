"""Write DESIGN.md from design/, properties.jsonl, MANIFEST.json, known_findings.json and seeded/."""
import glob
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rd(p):
    with open(os.path.join(H, p)) as fh:
        return fh.read()


props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
man = {c["property_id" if "property_id" in c else "property"]: c for c in json.loads(rd("MANIFEST.json"))["checks"]}
notes = json.loads(rd("design/notes.json"))
known = json.loads(rd("known_findings.json"))
catches = json.loads(rd("design/catches.json")) if os.path.exists(os.path.join(H, "design/catches.json")) else {}
seeds = {}
for f in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = [rd("design/head.md").rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), ""]
    if i not in man:
        out += ["Not claimed.", ""]
        continue
    c, n = man[i], notes.get(i, {})
    out += ["*Technique:* %s." % c["technique"].rstrip("."), "",
            "*Bounds:* %s" % c["level_note"], "",
            "*Oracle:* %s" % n.get("oracle", "-"), "",
            "*Not judged:* %s" % n.get("not", "-"), ""]
    if n.get("more"):
        out += [n["more"], ""]
    fx = [x.split(" ", 3) for x in known["fixed"] if "property=%s " % i in x]
    if fx:
        out += ["*Repaired:*", ""] + ["- %s: %s" % (x[2], x[3]) for x in fx] + [""]
    if i in seeds:
        out += ["*Planted:*", ""]
        for s, m in seeds[i]:
            out.append("- `%s` (%s): %s" % (s, catches.get(s, "not run yet"), m["what_it_breaks"]))
        out.append("")
out += [rd("design/tail.md").rstrip(), ""]
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))
