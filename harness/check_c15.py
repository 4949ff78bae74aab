import copy, warnings
from vlib import *
from ad_catalogue import *
warnings.simplefilter("ignore")


def one(chk, ad, files, disk, op):
    ad.reset(op["lay"][0] if op.get("lay") else None)
    ad.last_saved = None
    ad.prepare(files)
    byname = {f["m"] + "/" + f["id"]: f for f in files}
    for name, v in disk:
        ad.put(byname[name], v)
    ad.step(op)


def files_of(edges):
    out = {}
    for e in edges:
        for f in ([e["o"]["f"]] if e["o"].get("f") else []) + [r["f"] for r in e["o"].get("rows", [])]:
            out[f["m"] + "/" + f["id"]] = f
    return list(out.values())


def run(chk):
    ad = Cat(chk)
    for label, fs, confs, reps, lays in [("user files", "UserFiles", "FullConf", chk.pick(1, 6), 0), ("more files", "UserFiles2", "FullConf", chk.pick(1, 6), 0),
                                   ("library pages", "Pages", "FullConf", chk.pick(2, 20), 0),
                                         ("layouts of the database", "PagesFew", "FullConf", chk.pick(1, 6), 1), ("pages with the same data file", "TwinPages", "FullConf", chk.pick(12, 100), 0), ("ranges that end at the reference", "EdgeFiles", "FullConf", chk.pick(3, 40), 0), ("modules", "Mixed", "AllConfs", chk.pick(1, 10), 0)]:
        r = chk.tlc("CatalogueMC", cfg(fs, "add open", confs=confs, layouts="EveryLayout" if lays else "NoLayouts"), label=label, workers=4)
        files = files_of(r.edges)
        cases = {}
        for e in r.edges:
            if e["o"]["n"] == "open":
                cases[key([sorted(map(tuple, e["f"][0])), e["o"]["mods"], e["o"]["lay"]])] = (e["f"][0], e["o"])
        for _ in range(reps):
            for k in sorted(cases):
                disk, op = cases[k]
                def go(x):
                    try:
                        one(chk, ad, files, x["disk"], x["op"])
                    except Exception:
                        x["instance"] = ad.describe()
                        raise
                chk.case("catalogue build (%s)" % label, go, {"disk": disk, "op": op}, per_step=60)
        chk.cov.setdefault("builds", {})[label] = len(cases) * reps
        chk.sample({"disk": disk, "op": op}, 4)
    # self test: an unlisted file
    disk, op = max(cases.values(), key=lambda c: len(c[1]["rows"]))
    op = copy.deepcopy(op)
    op["rows"] = op["rows"][:-1]
    try:
        one(chk, ad, files, disk, op); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "additional row")
    ad.close()
