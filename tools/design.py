#!/usr/bin/env python3
"""Fill the generated parts of DESIGN.md: the not-applicable list and the seed table."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(V, "tools", "design.tmpl.md")).read()
m = json.load(open(os.path.join(V, "MANIFEST.json")))
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(V, "properties.jsonl"))}
na = "\n".join("* **%s %s** – %s" % (x["property"], titles[x["property"]], x["reason"]) for x in m["not_applicable"])
seeds = "\n".join("* `%s` (%s): %s" % (os.path.basename(os.path.dirname(f)), j["property"], j["what_it_breaks"]) for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))) for j in [json.load(open(f))])
s = s.replace("@@NA@@", "## 4. What is not claimed\n\n" + na).replace("@@SEEDS@@", seeds)
open(os.path.join(V, "DESIGN.md"), "w").write(s)
