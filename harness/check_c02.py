import copy
import numpy as np
from vlib import *
from ad_spectrum import SpectrumAdapter
from physics import style
import dispersion.spectral_data as sd
from dispersion import Material

CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 CreateTypes <- AllTypes
 CreateUnits <- AllUnits
 ConvTypes <- AllTypes
 ConvUnits <- AllUnits
 Styles = {%s}
 Vectors <- NameVectors%s
 OnlyValid = FALSE
 Uses = {"keep"}
INVARIANTS TypeOK Conserved
PROPERTIES NeverRedefined RejectionKeeps
ACTION_CONSTRAINT Emit
"""
CFG2 = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 TryTypes <- AllTypes
 TryUnits <- AllUnits
 Styles = {"lower", "upper", "title", "mixed"}
INVARIANT OnlyRequired
ACTION_CONSTRAINT Emit
"""
PARAMS = {"Sellmeier": [0.1, 0.5, 0.1], "Sellmeier2": [0.1, 0.5, 0.01], "Polynomial": [2.0, 0.1, -2.0],
          "RefractiveIndexInfo": [2.0, 0.1, 0.0, 0.1, 2.0, 0.1, 0.0, 0.1, 2.0], "Cauchy": [1.5, 0.01, -2.0],
          "Gases": [0.0, 0.01, 60.0], "Herzberger": [1.5, 0.01, 0.01, 0.0, 0.0, 0.0],
          "Retro": [0.2, 0.1, 0.01, 0.01], "Exotic": [2.0, 0.01, 0.01, 0.1, 0.2, 1.0],
          "Drude": [3.0, 0.1], "DrudeLorentz": [3.0, 0.5, 2.0, 0.1], "TaucLorentz": [100.0, 3.0, 1.0, 1.2, 1.0]}


def make(op):
    t, u = style(op["t"], op["style"]), style(op["u"], op["style"])
    par, rng = np.array(PARAMS[op["m"]]), np.array([0.5, 2.0])
    try:
        if op["via"] == "class":
            getattr(sd, op["m"])(par, rng, spectrum_type=t, unit=u)
        else:
            Material(model_kw={"name": op["m"], "spectrum_type": t, "unit": u, "valid_range": rng, "parameters": par})
        res = "ok"
    except ValueError:
        res = "ValueError"
    if res != op["res"]:
        raise Mismatch("%s(%s) with %r/%r gave %s, specification says %s" % (op["m"], op["via"], t, u, res, op["res"]))


def run(chk):
    styles = chk.pick('"lower", "mixed"', '"lower", "upper", "title", "mixed"')
    r = chk.tlc("SpectrumMC", CFG % (styles, chk.pick("", "Big")), label="names, aliases, rejection")
    g = Graph(r.edges)
    init = g.init([])
    ad = SpectrumAdapter(chk)
    for walk in g.cover_walks(init, maxlen=400, rng=chk.rng):
        chk.replay_walk(ad, walk, "names")
        chk.sample({"walk": [(o["n"], o["t"], o["u"], o["style"], o["res"]) for o in walk[:6]]}, 3)
    for walk in g.random_walks(init, chk.pick(200, 5000), 30, chk.rng,
                               weight=lambda o: 6.0 if o["n"] == "inplace" and o["res"] == "ok" else 1.0):
        chk.replay_walk(ad, walk, "names history")
    r2 = chk.tlc("ModelUnits", CFG2, label="required unit of each model")
    seen = set()
    for e in r2.edges:
        chk.case("model unit", make, e["o"])
        seen.add((e["o"]["m"], e["o"]["res"]))
    if len(seen) != 24:
        raise MachineryError("model enumeration incomplete: %r" % seen)
    bad = copy.deepcopy(next(o for f, o, t in g.edges if o["n"] == "create" and o["res"] == "ok"))
    bad["obs"]["label"][1] = "xx"
    ad.reset()
    try:
        ad.step(bad); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "axis label")
    bad = copy.deepcopy(next(e["o"] for e in r2.edges if e["o"]["res"] == "ok"))
    bad["res"] = "ValueError"
    try:
        make(bad); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "model unit verdict")
