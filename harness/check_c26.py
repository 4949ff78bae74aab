import copy, warnings
import numpy as np
from vlib import *
from physics import *
from mats import NAMES, fm_to
from dispersion import Spectrum
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Seqs <- %s
 ConvPairs <- %s
 MaxConv = %d
INVARIANTS Both Reflexive
ACTION_CONSTRAINT Emit
"""


class Contain:
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng

    def reset(self):
        self.sp, self.log = [], []

    def describe(self):
        return {"log": self.log}

    def step(self, op):
        rng = self.rng
        self.log.append(op)
        if op["n"] == "make":
            pair = tuple(op["p"])
            pos = list(op["pos"])
            fill = len(pos) > 1 and rng.random() < .1 and op["form"] != "float" and 0 not in pos and 2147483647 not in pos and -1 not in pos
            if fill:        # many further elements between the first two
                a, b = min(pos), max(pos)
                pos += [rng.randint(a, b) for _ in range(rng.choice([40, 700, 3000, 6000]))]
                rng.shuffle(pos)
            v = [fm_to(pair, x) for x in pos]
            v = {"float": lambda: v[0], "list": lambda: v, "tuple": lambda: tuple(v), "array": lambda: np.array(v)}[op["form"]]()
            self.sp.append(Spectrum(v, spectrum_type=pair[0], unit=rng.choice([pair[1], NAMES[pair[1]]])))
        elif op["n"] == "convert":
            pair = tuple(op["p"])
            self.sp[op["k"] - 1].convert_to(pair[0], pair[1], in_place=True)
        else:
            a, b = self.sp[op["i"] - 1], self.sp[op["j"] - 1]
            keep = copy.deepcopy([(s.values, s.spectrum_type, s.unit) for s in (a, b)])
            try:
                got = a.contains(b)
                res = "ok"
            except ValueError as exc:
                got, res = exc, "ValueError"
            self.chk.cov["values_compared"] += 1
            if res == "ok" and got is not True and not (isinstance(got, np.bool_) and got):
                raise Mismatch("contains returned %r" % (got,))
            if op["res"] != "either" and res != op["res"]:
                raise Mismatch("%r %s contains %r %s gave %s, specification says %s" % (a.values, a.unit, b.values, b.unit, res, op["res"]))
            for s, k in zip((a, b), keep):
                if not np.array_equal(np.asarray(s.values), np.asarray(k[0]), equal_nan=True) or type(s.values) is not type(k[0]) or (s.spectrum_type, s.unit) != k[1:]:
                    raise Mismatch("asking changed a spectrum from %r to %r" % (k, (s.values, s.spectrum_type, s.unit)))


def run(chk):
    ad = Contain(chk)
    for label, seqs, pairs, conv, n in [("every pair of units", "Small", "Pairs", 0, chk.pick(4000, None)),
                                     ("after conversions", chk.pick("Small", "Big"), "Some", chk.pick(1, 2), chk.pick(2500, 60000))]:
        r = chk.tlc("ContainMC", CFG % (seqs, pairs, conv), label=label, workers=4, heap="6g")
        g = Graph(r.edges)
        init = g.init([[], 0])
        if n is None:
            walks = g.cover_walks(init, maxlen=12, rng=chk.rng, only=lambda o: o["n"] == "ask")
        else:
            walks = g.random_walks(init, n, 8 + 3 * conv, chk.rng, weight=lambda o: 6.0 if o["n"] == "ask" and o["i"] != o["j"] else 1.0)
        k = 0
        for walk in walks:
            chk.replay_walk(ad, walk, label)
            chk.sample({"walk": walk[:4]}, 3)
            k += 1
        chk.cov.setdefault("walks", {})[label] = k
    ad.reset()
    for o in ({"n": "make", "pos": [400000000, 800000000], "p": ["wavelength", "nm"], "form": "list"}, {"n": "make", "pos": [900000000], "p": ["energy", "ev"], "form": "float"}):
        ad.step(o)
    try:
        ad.step({"n": "ask", "i": 1, "j": 2, "res": "ok"}); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "value outside")
    chk.assumptions += ["values on an end of the other spectrum in another or converted unit are left open (rounding); outliers differ by 1e-6 at least"]
