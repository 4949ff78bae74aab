import copy, warnings
from vlib import *
from ad_catalogue import *
warnings.simplefilter("ignore")
TRIO = [F("U", "u1", "txt", "nk", "", "in"), F("R", "p1", "yml", "model", "", "in"), F("M", "m1", "csv", "nk", "um", "out")]
JUNK = [TRIO[0], TRIO[1], F("U", "j1", "txt", "junk", "", "in")]
DUO = TRIO[:2]
W = lambda o: {"open": 1 if o["n"] == "open" and o["res"] == "ok" else .4, "save": 4, "change": 3, "add": 3, "remove": 3, "register": 4}.get(o["n"], 1)


def run(chk):
    ids = lambda l: {f["id"] for f in l}
    explore(chk, "one module at a time", cfg("Duo", "open save change remove add", first="Duo", confs="DuoConfs", rebuilds="DuoRebuilds", ver=2),
            DUO, ids(DUO), cover=True, cap=chk.pick(300, None), rand=chk.pick(60, 1000))
    explore(chk, "three modules", cfg("Trio", "open save change register", first="Trio", confs=chk.pick("TwoConfs", "RebuildConfs"), rebuilds="AllRebuilds", names="OneAlias",
                                      ver=2), TRIO, ids(TRIO), rand=chk.pick(400, 6000), length=25, weight=W)
    twin = [DUO[0], DUO[1], dict(DUO[1], id="t1", of="p1")]
    explore(chk, "pages with the same data file", cfg("TwinDuo", "open save change register", first="TwinDuo", confs="DuoConfs", rebuilds="DuoRebuilds", names="OneAlias", ver=2),
            twin, ids(twin), cover=True, cap=chk.pick(100, None), rand=chk.pick(60, 1000), weight=W)
    g, init, w = explore(chk, "builds that fail", cfg("TrioJunk", "open save add remove", first="NoJunk", confs="DuoConfs", rebuilds="DuoRebuilds"),
                         JUNK, {"u1", "p1"}, cover=True, rand=chk.pick(100, 2000), weight=W)
    # self test: a row that the rebuild should have kept
    ok = False
    for walk in g.random_walks(init, 300, 25, chk.rng):
        i = next((i for i, o in enumerate(walk) if o["n"] == "open" and o["rows"]), None)
        if i is None:
            continue
        walk = copy.deepcopy(walk[:i + 1])
        walk[i]["rows"].pop()
        w.reset()
        try:
            for o in walk:
                w.step(o)
        except Mismatch:
            ok = True
        break
    w.close()
    chk.canary(ok, "dropped row")
    chk.assumptions += ["an unreadable data file or missing catalogue makes the build fail; which error is not specified"]
