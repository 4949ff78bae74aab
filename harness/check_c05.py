import math, copy, warnings
import numpy as np
from vlib import *
from physics import *
from expr import ev
import dispersion.spectral_data as sd
from dispersion import Material, Spectrum

CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 MaxTerms = %d
 QueryPairs <- Pairs
INVARIANT UsesAllCoefficients
ACTION_CONSTRAINT Emit
"""
warnings.simplefilter("ignore")
PLAIN = {"zero": [], "same": False, "whole": False}


def draw(rng, m, k):
    """coefficients in the ranges real materials have"""
    u = rng.uniform
    if m in ("Sellmeier", "Sellmeier2"):
        p = [u(-0.3, 0.8)]
        while len(p) < k:
            p += [u(0.1, 1.5), u(0.05, 0.3) if rng.random() < 0.7 else u(5.0, 20.0)]
            if rng.random() < 0.25:     # squared in one formula, not in the other: the denominator of the latter is larger
                p[-1] = -p[-1]
        return p
    if m in ("Polynomial", "Cauchy"):
        p = [u(1.5, 4.0)]
        while len(p) < k:
            p += [u(-0.02, 0.05), rng.choice([-6., -4., -2., -1., 1., 2., 3., 0.5])]
        return p
    if m == "RefractiveIndexInfo":
        p = [u(1.5, 4.0)]
        for _ in range(2):
            if len(p) < k:
                p += [u(0.01, 0.4), rng.choice([0., 1., 2., 3.]), u(0.05, 0.3) * rng.choice([1, 1, -1]), rng.choice([1., 2., 3.])]
        while len(p) < k:
            p += [u(-0.02, 0.05), rng.choice([-6., -4., -2., -1., 1., 2., 3., 0.5])]
        return p
    if m == "Gases":
        p = [u(0.0, 0.01)]
        while len(p) < k:
            p += [u(0.001, 0.05) * rng.choice([1, 1, 1, -1]), u(30., 300.)]
        return p
    if m == "Herzberger":
        return [u(1.3, 3.0), u(-0.05, 0.05), u(-0.01, 0.01), u(-0.02, 0.02), u(-2e-3, 2e-3), u(-2e-4, 2e-4)]
    if m == "Retro":
        return [u(0.1, 0.3), u(0.05, 0.2), u(0.01, 0.08) * rng.choice([1, 1, -1]), u(-0.01, 0.01)]
    if m == "Exotic":
        return [u(1.5, 4.0), u(-0.05, 0.05), u(0.01, 0.05) * rng.choice([1, 1, -1]), u(-0.3, 0.3), u(0.2, 1.2) * rng.choice([1, 1, -1]), u(0.5, 2.0)]
    if m == "Drude":
        return [u(2., 10.), u(0.01, 0.5)]
    if m == "DrudeLorentz":
        return [u(2., 10.), u(0.1, 1.0), u(1.0, 4.0), u(0.01, 0.8)]
    if m == "TaucLorentz":
        E0 = u(2.5, 5.0)
        return [u(10., 200.), E0, u(0.2, 2.5), u(0.5, min(2.4, E0 - 0.1)) if rng.random() < .8 else u(0.9, 1.2) * E0, u(1.0, 4.0)]
    if m == "Fano":
        return [u(-5., 5.), u(1.0, 4.0), u(0.05, 1.0)]


def shaped(rng, m, k, sh):
    p = [float("%.9g" % x) for x in draw(rng, m, k)]
    if sh["whole"]:
        c = rng.choice
        p = {"Drude": [c([3., 5., 9.]), c([1., 2.])], "DrudeLorentz": [c([3., 8.]), 1., c([2., 3.]), c([1., 2.])],
             "TaucLorentz": [c([20., 90.]), c([3., 4.]), c([1., 2.]), c([1., 2.]), c([1., 3.])],
             "Fano": [c([-3., 0., 2.]), c([2., 3.]), 1.], "Herzberger": [c([2., 3.]), 1., c([0., 1.]), 0., 0., 0.],
             "Retro": [0., c([0., 1.]), c([-1., -9.]), 0.], "Exotic": [c([3., 9.]), c([1., 2.]), c([-1., -4.]), c([-1., 1.]), c([1., 2.]), c([1., 2.])]}.get(m, p)
        if m in ("Sellmeier", "Sellmeier2"):
            p = [c([0., 1., 2.])] + [c([1., 2.]) if i % 2 == 0 else c([0., 5., 16.]) for i in range(k - 1)]
        elif m in ("Polynomial", "Cauchy"):
            p = [c([2., 3., 30.])] + [c([1., 0., 2.]) if i % 2 == 0 else c([-4., -2., -1., 0., 1., 2.]) for i in range(k - 1)]
        elif m == "RefractiveIndexInfo":
            p = [c([2., 3., 30.])] + [(c([1., 2.]), c([0., 2., 3.]), c([0., 4.]), c([1., 2., 3.]))[i % 4] if i < 8 else
                                      (c([1., 0.]), c([-2., 1., 2.]))[i % 2] for i in range(k - 1)]
        elif m == "Gases":
            p = [c([0., 1.])] + [c([1., 2.]) if i % 2 == 0 else c([30., 100.]) for i in range(k - 1)]
    if sh["same"]:
        step = 4 if m == "RefractiveIndexInfo" and k >= 9 else 2
        p[1 + step:1 + 2 * step] = p[1:1 + step]
    for i in sh["zero"]:
        p[i - 1] = 0.0
    return p


class Formulas:
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng

    def describe(self):
        return {"model": self.m, "parameters": self.par, "last": repr(getattr(self, "last", None))}

    def reset(self):
        self.m = None
        self.par = None

    def step(self, op):
        if op["n"] == "make":
            self.at_gap = False
            self.m, self.own, self.q = op["m"], tuple(op["own"]), op["quantity"]
            sh = op["shape"]
            self.par = shaped(self.rng, self.m, op["k"], sh)
            r = self.rng.random()
            if self.own[1] == "um":
                self.range = (0.35, 2.4) if r < 0.6 else (1.9, 18.0) if r < 0.8 else (0.19, 0.5)
            else:
                self.range = (0.4, 6.0) if r < 0.6 or self.m == "TaucLorentz" else (0.02, 0.5) if r < 0.8 else (5.0, 45.0)
            arr = np.array(self.par, dtype=int) if sh["whole"] and self.rng.random() < 0.6 else np.array(self.par)
            self.given = arr.copy()
            self.obj = getattr(sd, self.m)(arr, np.array(self.range), spectrum_type=self.own[0], unit=self.own[1])
            self.arr = arr
            self.mat = None
            if self.m != "Fano":
                self.mat = Material(model_kw={"name": self.m, "spectrum_type": self.own[0], "unit": self.own[1],
                                              "valid_range": np.array(self.range), "parameters": arr.copy()})
            return
        pair = tuple(op["pair"])
        # spectral values as wavelengths (nm), expressed in the query's unit
        lo, hi = self.range
        n = 1 if op["container"] == "float" else self.rng.randint(1, 4)
        own = [float("%.7g" % self.rng.uniform(lo * 1.01, hi * 0.99)) for _ in range(n)]
        if self.m == "TaucLorentz" and pair == self.own and not self.at_gap and lo < self.par[3] < hi:
            own[0], self.at_gap = self.par[3], True          # the gap energy itself
        elif self.m == "TaucLorentz" and self.rng.random() < 0.3:
            own[0] = self.par[3] * self.rng.uniform(0.9, 0.99) if self.par[3] * 0.9 > lo else own[0]
        nm = [o * 1e3 if self.own[1] == "um" else H * C / Q / o * 1e9 for o in own]
        q = own if pair == self.own else [nm_to(pair, x) for x in nm]
        cont = q[0] if op["container"] == "float" else q if op["container"] == "list" else np.array(q)
        spec = Spectrum(cont, spectrum_type=pair[0], unit=pair[1])
        rel = op["rel"]
        # skip spectral values at which the published formula has no real solution
        rhs0 = [ev(rel["rhs"], self.par, {"x": x}) for x in own]
        if self.own[1] == "um":
            for r in rhs0:
                val = {"Sellmeier": r + 1, "Sellmeier2": r + 1, "Polynomial": r, "RefractiveIndexInfo": r,
                       "Exotic": r, "Cauchy": r, "Herzberger": r, "Gases": 1 + r, "Retro": (1 - r) if -0.4 < r < 0.95 else -1}.get(self.m, 1.0)
                if val < 0.05 or abs(r) > 1e3:
                    return
        if op["via"] == "class":
            got = self.obj.evaluate(spec)
        elif self.q == "n":
            got = self.mat.get_nk_data(spec)
        else:
            got = self.mat.get_permittivity(spec)
        self.last = (pair, cont, got)
        if not np.array_equal(self.arr, self.given):
            raise Mismatch("evaluation changed the caller's coefficients")
        if np.ndim(cont) == 0:
            if np.ndim(got) != 0:
                raise Mismatch("a float gave %r" % (got,))
            got = [complex(got)]
        else:
            if np.shape(got) != (len(q),):
                raise Mismatch("%d values gave %r" % (len(q), got))
            got = [complex(x) for x in got]
        dx = 0.0 if pair == self.own else 0.51 * ROUND[self.own[1]]
        for x, g, r0 in zip(own, got, rhs0):
            self.chk.cov["values_compared"] += 1
            lhs = ev(rel["lhs"], self.par, {"r": g})
            tol = (2e-8 if self.m == "TaucLorentz" else 1e-11) * (1 + abs(r0))
            if self.m == "TaucLorentz":
                tol = 2e-7 * (1 + abs(r0))
            elif dx or pair != self.own:
                d = dx + 4e-15 * abs(x)
                tol += 2 * max(abs(ev(rel["rhs"], self.par, {"x": x + s * d}) - r0) for s in (1, -1))
            if self.q == "n" and (g.real < 0 or abs(g.imag) > 0):
                raise Mismatch("%s: index %r at %r %s is not real and positive" % (self.m, g, x, self.own[1]))
            if not abs(lhs - r0) <= tol:
                raise Mismatch("%s%r at x=%r %s (query %s %s via %s): result %r, lhs=%r but formula rhs=%r" % (
                    self.m, self.par, x, self.own[1], pair, op["container"], op["via"], g, lhs, r0))


def run(chk):
    r = chk.tlc("FormulasMC", CFG % chk.pick(9, 14), label="formulas x arities x query forms")
    g = Graph(r.edges)
    init = g.init([])
    ad = Formulas(chk)
    tl = lambda o: True
    for rep in range(chk.pick(20, 80)):
        for walk in g.cover_walks(init, maxlen=100, rng=chk.rng):
            if walk[0]["m"] == "TaucLorentz" and not chk.thorough and rep > 0:
                continue
            if walk[0]["shape"] != PLAIN and rep >= chk.pick(3, 20):
                continue
            chk.replay_walk(ad, walk, "formula", per_step=120)
            chk.sample({"walk": [(o["n"], o.get("m"), o.get("k"), o.get("pair"), o.get("via")) for o in walk[:4]], "instance": ad.describe()}, 4)
    # self test
    for m in ("Sellmeier", "Drude"):
        ad.reset()
        ad.step(next(o for f, o, t in g.edges if o["n"] == "make" and o["m"] == m and o["shape"] == PLAIN))
        e = copy.deepcopy(next(o for f, o, t in g.edges if o["n"] == "eval" and o["via"] == "class" and f == g.ids[key([m, 2 if m == "Drude" else 1, PLAIN])]))
        e["rel"]["rhs"] = ["mul", ["rat", 1001, 1000], ["add", e["rel"]["rhs"], ["rat", 1, 100]]]
        try:
            ad.step(e); ok = False
        except Mismatch:
            ok = True
        chk.canary(ok, "formula of " + m)
    chk.assumptions += ["coefficients are drawn from the ranges of real materials; spectral values where a formula has no real solution are skipped",
                        "the real part of TaucLorentz is checked against the numerically integrated Kramers-Kronig transform (2e-7)"]
