import copy
from vlib import *
from ad_spectrum import SpectrumAdapter

CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 CreateTypes <- Types
 CreateUnits <- CanonUnits
 ConvTypes <- Types
 ConvUnits <- CanonUnits
 Styles = {"lower"}
 Vectors <- ConvVectors
 OnlyValid = TRUE
 Uses = {"keep", "overwrite"}
INVARIANTS TypeOK Conserved
PROPERTIES NeverRedefined RejectionKeeps
ACTION_CONSTRAINT Emit
"""

def run(chk):
    r = chk.tlc("SpectrumMC", CFG, label="conversion algebra and object histories", workers=1)
    g = Graph(r.edges)
    init = g.init([])
    ad = SpectrumAdapter(chk)
    for rep in range(chk.pick(2, 25)):
        for walk in g.cover_walks(init, maxlen=60, rng=chk.rng):
            chk.replay_walk(ad, walk, "conversion")
            chk.sample({"walk": [(o["n"], o["t"], o["u"]) for o in walk[:6]], "instance": ad.describe()}, 3)
    for walk in g.random_walks(init, chk.pick(300, 20000), 25, chk.rng):
        chk.replay_walk(ad, walk, "conversion chain")
    # self test: one corrupted exponent must be rejected
    bad = copy.deepcopy(next(o for f, o, t in g.edges if o["n"] == "create" and o["vec"]["kind"] == "farray" and o["vec"]["v"] == ["x1"]))
    bad["obs"]["values"][0]["e"] += 1
    ad.reset()
    try:
        ad.step(bad); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "exponent of a monomial")
    chk.assumptions += ["values range over 1e-9..1e9 times the optical magnitude of each unit, plus 0 and inf",
                        "constants h, c, e have their exact SI values"]
