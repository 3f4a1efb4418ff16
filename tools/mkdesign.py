#!/usr/bin/env python3
# assembles DESIGN.md
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(V + "/tools/design_head.md").read()
how = json.load(open(V + "/tools/design_props.json"))
na = {x["property"]: x["reason"] for x in json.load(open(V + "/MANIFEST.json"))["not_applicable"]}
out += "## 2. Properties\n\n"
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out += f"### {i} {p['title']}\n\n"
    if i in na:
        out += f"Not applicable: {na[i]}\n\n"
        continue
    h = open(f"{V}/harness/{i}.cpp").read()
    d = how.get(i, {})
    for k, t in (("how", "Decided by"), ("oracle", "Oracle"), ("why", "Beyond the tests"), ("cost", "Quick cost")):
        if k in d: out += f"* **{t}:** {d[k]}\n"
    for m in re.findall(r"^// @bound (.*)$", h, re.M): out += f"* **Bounds:** {m}.\n"
    for m in re.findall(r"^// @assume (.*)$", h, re.M): out += f"* **Assumes:** {m}.\n"
    out += "\n"
out += open(V + "/tools/design_tail.md").read()
out += "\n## 5. Planted bugs\n\nEvery change compiles, passes the 589 tests and fails its demonstration. All are caught by the quick check of their property unless noted.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n"
caught = json.load(open(V + "/tools/caught.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out += f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, m['property'])} |\n"
open(V + "/DESIGN.md", "w").write(out)
