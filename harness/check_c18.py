import copy, warnings
from vlib import *
from ad_catalogue import *
warnings.simplefilter("ignore")
FOUR = [F("U", "u1", "txt", "nk", "", "in"), F("R", "p1", "yml", "model", "", "in"), F("R", "p2", "yml", "nk", "", "out"), F("U", "u2", "csv", "nk", "ev", "out")]
THREE = [FOUR[0], FOUR[1], FOUR[3]]


def every(chk, name, files, reps):
    """each file of a pool is looked up, by row and by alias"""
    r = chk.tlc("CatalogueMC", cfg(name, "open get register", first=name, names="OneAlias"), label="lookups in " + name, workers=4)
    g = Graph(r.edges)
    w = Walker(chk)
    w.files = w.first = files
    init = g.init(r.first)
    for _ in range(reps):
        for walk in g.cover_walks(init, maxlen=60, rng=chk.rng):
            chk.replay_walk(w, walk, "lookup in " + name)
    w.close()


def run(chk):
    from check_c15 import files_of
    for name in ("UserFiles", "UserFiles2", "Pages", "Mixed", "TwinPages"):
        r = run_tlc("CatalogueMC", cfg(name, "add open"), workers=2)
        every(chk, name, files_of(r.edges), chk.pick(3, 40))
    ids = lambda l: {f["id"] for f in l}
    W = lambda o: {"getalias": .5, "getrow": 2, "getbad": .2, "register": 3, "reorder": 4, "drop": .5, "exchange": 2, "relabel": 2, "change": 2, "save": 2, "open": .7 if o["n"] == "open" and o["reb"] == ["None"] else .3}.get(o["n"], 1)
    g, init, w = explore(chk, "lookup histories", cfg("Three", "open save register reorder get getbad change", first="Three", rebuilds="LoadAll", names=chk.pick("OneAlias", "TwoAlias"), ver=2),
                         THREE, ids(THREE), rand=chk.pick(250, 6000), length=25, weight=W)
    explore(chk, "lookups of removed files", cfg("Duo", "open save register reorder get remove add change", first="Duo", confs="DuoConfs", rebuilds="LoadAll", names="OneAlias"),
            THREE[:2], {"u1", "p1"}, cover=True, cap=chk.pick(60, None), rand=chk.pick(60, 1000), length=25, weight=W)
    explore(chk, "lookups after rearranging", cfg("Four", "open register reorder drop get exchange", first="Four", names="TwoAlias"),
            FOUR, ids(FOUR), cover=True, rand=chk.pick(100, 3000), length=25, weight=W)
    explore(chk, "lookups with two objects", cfg("Duo", "open save register get switch exchange", first="Duo", rebuilds="LoadAll", names="OneAlias"),
            THREE[:2], {"u1", "p1"}, cover=True, cap=chk.pick(60, None), rand=chk.pick(60, 1000), length=25, weight=W)
    explore(chk, "lookups after correcting units", cfg("Four", "open save register get relabel", first="Four", rebuilds="LoadAll", names="OneAlias"),
            FOUR, ids(FOUR), rand=chk.pick(150, 4000), length=25, weight=W)
    ok = False
    for walk in g.random_walks(init, 400, 25, chk.rng):
        i = next((i for i, o in enumerate(walk) if o["n"] == "getrow" and o["res"] == "ok"), None)
        if i is None:
            continue
        walk = copy.deepcopy(walk[:i + 1])
        other = [f for f in THREE if f["id"] != walk[i]["f"]["id"]][0]
        walk[i]["row"][0]["f"] = other
        w.reset()
        try:
            for o in walk:
                w.step(o)
        except (Mismatch, ValueError):
            ok = True
        break
    w.close()
    chk.canary(ok, "another material returned")
    chk.assumptions += ["a row whose file is gone may raise any error"]
