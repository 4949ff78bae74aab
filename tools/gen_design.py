"""DESIGN.md and levels.json from their parts"""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(root, "tools", f)).read()
D = json.loads(rd("design.json"))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
out = rd("design_head.md") + "\n"
levels = {}
for p in props:
    spec, what, oracle, bounds, cost = D[p["id"]]
    out += "### %s %s\n\n*Specification:* %s. %s\n\n*Oracle:* %s\n\n*Bounds:* %s. *Cost (quick):* %s.\n\n" % (p["id"], p["title"], spec, what, oracle, bounds, cost)
    levels[p["id"]] = {"technique": "TLA+ (%s) explored exhaustively by TLC; emitted transitions replayed on the real code" % spec,
                       "note": "Exhaustive over the bounded specification: %s. Concrete values are seeded draws. Trusts TLC, the replay adapter and the stated numeric tolerances." % bounds}
out += rd("design_tail.md")
rf = os.path.join(root, "tools", "seed_results.json")
res = json.load(open(rf)) if os.path.exists(rf) else {}
out += "| bug | property | needs | quick check |\n|---|---|---|---|\n"
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    r = res.get(i, {})
    out += "| %s | %s | %s | %s |\n" % (i, d["property"], d["needs"].replace("|", "/"), ", ".join("seed %s: %s" % (s, v) for s, v in sorted(r.items())) or "see text")
open(os.path.join(root, "DESIGN.md"), "w").write(out)
json.dump(levels, open(os.path.join(root, "tools", "levels.json"), "w"), indent=1)
