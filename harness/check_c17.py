import copy, warnings
from vlib import *
from ad_catalogue import *
warnings.simplefilter("ignore")
THREE = [F("U", "u1", "txt", "nk", "", "in"), F("R", "p1", "yml", "model", "", "in"), F("U", "u2", "csv", "nk", "ev", "out")]


def run(chk):
    ids = {f["id"] for f in THREE}
    explore(chk, "registrations", cfg("Three", "open register badregister get", first="Three", names=chk.pick("TwoAlias", "ThreeAlias")), THREE, ids, cover=True, rand=chk.pick(30, 500))
    g, init, w = explore(chk, "registrations, saves and reloads", cfg("Three", "open save register", first="Three", rebuilds="LoadAll", names="TwoAlias"),
                         THREE, ids, cover=True, cap=chk.pick(150, None), rand=chk.pick(100, 1500), length=40,
                         weight=lambda o: 4 if o["n"] == "register" else 2 if o["n"] == "save" or o["n"] == "open" and o["reb"] == ["None"] else .3)
    explore(chk, "registrations on rearranged tables", cfg("Three", "open save register reorder drop badregister", first="Three", rebuilds="LoadAll", names="TwoAlias"),
            THREE, ids, rand=chk.pick(250, 4000), length=25, weight=lambda o: {"badregister": .2, "register": 3, "reorder": 6}.get(o["n"], 1))
    explore(chk, "registrations with two objects", cfg("Duo", "open save register switch", first="Duo", rebuilds="LoadAll", names="TwoAlias"),
            THREE[:2], {"u1", "p1"}, cover=True, cap=chk.pick(60, None), rand=chk.pick(60, 1500), length=30,
            weight=lambda o: {"register": 3, "save": 2, "switch": 1.5}.get(o["n"], .7 if o.get("reb") == ["None"] else .3))
    same = [F("U", "u1", "txt", "nk", "", "in"), F("M", "m1", "txt", "nk", "", "out"), F("U", "u2", "txt", "nk", "ev", "out")]
    explore(chk, "files of the same name", cfg("Namesakes", "open save register", first="Namesakes", rebuilds="LoadAll", names="TwoAlias"),
            same, {"u1", "m1", "u2"}, rand=chk.pick(60, 1000), length=25, weight=lambda o: {"register": 4}.get(o["n"], .5))
    ok = False
    for walk in g.random_walks(init, 300, 25, chk.rng):
        i = next((i for i, o in enumerate(walk) if o["n"] == "register" and o["res"] == "ValueError"), None)
        if i is None:
            continue
        walk = copy.deepcopy(walk[:i + 1])
        walk[i]["res"] = "ok"
        w.reset()
        try:
            for o in walk:
                w.step(o)
        except Mismatch:
            ok = True
        break
    w.close()
    chk.canary(ok, "alias taken twice")
    chk.assumptions += ["aliases are non-empty strings; row labels of the table are unique"]
