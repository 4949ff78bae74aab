import copy, warnings
from vlib import *
from ad_catalogue import *
warnings.simplefilter("ignore")
THREE = [F("U", "u1", "txt", "nk", "", "in"), F("R", "p1", "yml", "model", "", "in"), F("U", "u2", "csv", "nk", "ev", "out")]


class Resave(Walker):
    """after every load of the stored catalogue, saving it again gives the same bytes"""
    def do_open(self, op):
        super().do_open(op)
        if op["res"] == "ok" and op["reb"] == ["None"]:
            b = self.csvbytes()
            self.cat.save_to_file()
            if self.csvbytes() != b:
                raise Mismatch("saving a reloaded catalogue wrote other bytes: %r" % next((x, y) for x, y in zip(self.csvbytes().splitlines(), b.splitlines()) if x != y))


def run(chk):
    from check_c15 import files_of
    for name, confs in (("UserFiles", "FullConf"), ("UserFiles2", "FullConf"), ("Pages", "FullConf"), ("Mixed", "AllConfs")):
        r = chk.tlc("CatalogueMC", cfg(name, "open save register", first=name, confs=confs, rebuilds="LoadAll", names="TwoAlias", targets="FirstOnly" if name in ("UserFiles", "Mixed") else "Nothing"),
                    label="entries of " + name, workers=4)
        files = files_of(run_tlc("CatalogueMC", cfg(name, "add"), workers=2).edges)
        g = Graph(r.edges)
        w = Resave(chk)
        w.files = w.first = files
        init = g.init(r.first)
        for walk in g.random_walks(init, chk.pick(60, 1000), 12, chk.rng, lambda o: 3 if o["n"] == "save" else 1 if o["n"] != "open" or o["res"] == "ok" else .1):
            chk.replay_walk(w, walk, "save and reload")
        w.close()
    ids = {f["id"] for f in THREE}
    g, init, w = explore(chk, "save and reload histories", cfg("Three", "open save register reorder drop relabel", first="Three", rebuilds="LoadAll", names="TwoAlias"),
                         THREE, ids, rand=chk.pick(250, 5000), length=25, weight=lambda o: {"save": 5, "reorder": 3, "drop": .7}.get(o["n"], 1))
    explore(chk, "two objects saving in turns", cfg("Duo", "open save register switch", first="Duo", rebuilds="LoadAll", names="OneAlias"),
            THREE[:2], {"u1", "p1"}, cover=True, cap=chk.pick(120, None), rand=chk.pick(100, 1500), length=30,
            weight=lambda o: {"register": 1, "save": 4, "switch": 3}.get(o["n"], .8 if o.get("reb") == ["None"] else .2))
    ok = False
    for walk in g.random_walks(init, 400, 25, chk.rng, lambda o: 5 if o["n"] in ("save", "register") else 1):
        i = next((i for i, o in enumerate(walk) if o["n"] == "open" and o["res"] == "ok" and o["reb"] == ["None"] and any(r["a"] for r in o["rows"])), None)
        if i is None:
            continue
        walk = copy.deepcopy(walk[:i + 1])
        for r in walk[i]["rows"]:
            r["a"] = ""
        w.reset()
        try:
            for o in walk:
                w.step(o)
        except Mismatch:
            ok = True
        break
    w.close()
    chk.canary(ok, "aliases not persisted")
