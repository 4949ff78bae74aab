import copy, warnings
from vlib import *
from ad_ranges import Ranges
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 RealParts <- %s
 ImagParts <- %s
 QueryPairs <- %s
 Near = %d
 Far = 90000000
 ExtValues <- Ext2
 ExtPairs <- Ext2Pairs
 MaxExt = %d
 WithHistory = %s
 VecShapes <- %s
INVARIANTS NonEmpty ReportedIsEvaluable PositionIrrelevant
PROPERTIES ExtrapolationGrows FailureKeeps
ACTION_CONSTRAINT Emit
"""


def run(chk):
    ad = Ranges(chk)
    # every kind of data x unit x query vector
    for real, imag, label in (("RKinds", "OnlyConst", "every kind of data"), ("RNarrow", "OnlyConst", "short and narrow ranges"), ("R1", "I1", "mixtures")):
        r = chk.tlc("RangesMC", CFG % (real, imag, chk.pick("C03Query", "Pairs"), 400, 0, "FALSE",
                                          "AllShapes" if real != "RNarrow" or chk.thorough else "FewShapes"),
                    label=label, workers=4)
        g = Graph(r.edges)
        init = g.init([[], 0])
        for rep in range(chk.pick(1, 6)):
            for walk in g.cover_walks(init, maxlen=300, rng=chk.rng):
                chk.replay_walk(ad, walk, "range")
                chk.sample({"walk": walk[:3]}, 3)
    # after histories of removal, replacement and extrapolation
    r = chk.tlc("RangesMC", CFG % ("R2", "I2", "Ext2Pairs", 400, chk.pick(1, 2), "TRUE", "FewShapes"),
                label="histories", workers=4)
    g2 = Graph(r.edges)
    init = g2.init([[], 0])
    for walk in g2.random_walks(init, chk.pick(400, 8000), 40, chk.rng,
                                weight=lambda o: 1.0 if o["n"] == "query" else 12.0 if o["n"] == "extrapolate" and o["res"] == "ok" else 3.0):
        chk.replay_walk(ad, walk, "range history")
    bad = copy.deepcopy(next((f, o) for f, o, t in g.edges if o["n"] == "query" and o["res"] == "ValueError"))
    con = next(o for f, o, t in g.edges if o["n"] == "construct" and t == bad[0])
    ad.reset(); ad.step(con)
    bad[1]["res"] = "ok"
    try:
        ad.step(bad[1]); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "range verdict")
    chk.assumptions += ["outliers are at least 1e-6 (relative) outside; positions on a bound converted between units are left open (float rounding)"]
