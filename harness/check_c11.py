import copy, warnings, math, cmath
import numpy as np
from vlib import *
from physics import *
from expr import ev
from dispersion import Material, Spectrum
from dispersion.material import Simple, MaxwellGarnett, Bruggeman
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Bases <- %s
 Spectra <- %s
 Fracs <- %s
 Rules = {"Simple", "MaxwellGarnett", "Bruggeman"}
 QueryPairs <- QP
 MaxEff = %d
INVARIANT Covered
INVARIANT Earlier
ACTION_CONSTRAINT Emit
"""
CLS = {"Simple": Simple, "MaxwellGarnett": MaxwellGarnett, "Bruggeman": Bruggeman}


class Mixing:
    def __init__(self, chk, laws=None):
        self.chk, self.rng = chk, chk.rng
        self.laws = laws or {}

    def describe(self):
        return {"positions_nm": self.pos, "last": repr(self.last)}

    def reset(self):
        rng = self.rng
        self.last = None
        self.effs = []
        self.pos = {i: float("%.6g" % (400 + 60 * i + rng.uniform(0, 40))) for i in range(1, 8)}
        P = [self.pos[i] for i in range(2, 7)]
        self.eps = {}
        self.base = {}
        U = lambda a, b: round(rng.uniform(a, b), 4)
        const = {"one": 1, "four": 4, "minus2": -2, "minus5": -5, "minus12": -12}
        for k, v in const.items():
            self.eps[k] = {i: complex(v) for i in self.pos}
            self.base[k] = Material(fixed_eps_r=float(v)) if v < 0 or rng.random() < .5 else Material(fixed_n=math.sqrt(v))
        z = complex(U(1, 5), U(0.01, 2))
        self.eps["cplx"] = {i: z for i in self.pos}
        self.base["cplx"] = Material(fixed_eps=z)
        z = complex(U(1, 5), -U(0.01, 1))
        self.eps["gain"] = {i: z for i in self.pos}
        self.base["gain"] = Material(fixed_eps=z)
        z = complex(U(-30, -3), U(0.05, 3))
        self.eps["metal"] = {i: z for i in self.pos}
        self.base["metal"] = Material(fixed_eps=z)
        n, k = [U(1.1, 2.5) for _ in P], [U(0.01, 1) for _ in P]
        self.base["tabnk"] = Material(tabulated_nk=np.array([P, n, k]).T, spectrum_type="wavelength", unit="nm")
        self.eps["tabnk"] = {i + 2: complex(n[i], k[i]) ** 2 for i in range(5)}
        n, k = [U(1.1, 2.5) for _ in P], [-U(0.01, .5) for _ in P]
        self.base["gaintab"] = Material(tabulated_nk=np.array([P, n, k]).T, spectrum_type="wavelength", unit="nm")
        self.eps["gaintab"] = {i + 2: complex(n[i], k[i]) ** 2 for i in range(5)}
        er, ei = [U(1.5, 6) for _ in P], [U(0.01, 2) for _ in P]
        E = [nm_to(("energy", "ev"), p) for p in P]
        # the energies the implementation gets for the wavelengths are rounded to 1e-9 eV
        self.base["tabeps"] = Material(tabulated_eps=np.array([[E[0] + 1e-6, er[0], ei[0]]] + [list(r) for r in zip(E, er, ei)] + [[E[-1] - 1e-6, er[-1], ei[-1]]]),
                                       spectrum_type="energy", unit="eV")
        self.eps["tabeps"] = {i + 2: complex(er[i], ei[i]) for i in range(5)}
        n2 = [U(1.1, 2.5) for _ in P]
        self.base["tabn"] = Material(tabulated_n=np.array([P, n2]).T, spectrum_type="wavelength", unit="nm")
        self.eps["tabn"] = {i + 2: complex(n2[i]) ** 2 for i in range(5)}
        lo, hi = self.pos[2], self.pos[6]
        wp, g = U(6, 9), U(0.05, 0.5)
        self.base["drude"] = Material(model_kw={"name": "Drude", "spectrum_type": "energy", "unit": "ev", "parameters": np.array([wp, g]),
                                                "valid_range": np.array([nm_to(("energy", "ev"), hi) * (1 - 1e-6), nm_to(("energy", "ev"), lo) * (1 + 1e-6)])})
        self.eps["drude"] = {i: 1 - wp ** 2 / (nm_to(("energy", "ev"), self.pos[i]) ** 2 + 1j * g * nm_to(("energy", "ev"), self.pos[i])) for i in range(2, 7)}
        c1, c2, c3 = 0.1, U(0.5, 3), 0.1
        self.base["sell"] = Material(model_kw={"name": "Sellmeier", "spectrum_type": "wavelength", "unit": "um", "parameters": np.array([c1, c2, c3]),
                                               "valid_range": np.array([lo / 1e3, hi / 1e3])})
        self.eps["sell"] = {i: complex(1 + c1 + c2 * (self.pos[i] / 1e3) ** 2 / ((self.pos[i] / 1e3) ** 2 - c3 ** 2)) for i in range(2, 7)}

    # expected permittivity of a tree at a position
    def want(self, tree, x):
        if tree[0] == "base":
            return self.eps[tree[1]][x]
        _, rule, f, a, b = tree
        e1, e2 = self.want(a, x), self.want(b, x)
        f = f["num"] / f["den"]
        law = self.laws[rule]
        if law["k"] == "value":
            return ev(law["e"], (), {"f": f, "e1": e1, "e2": e2})
        # the Bruggeman equation is a quadratic in e: recover its coefficients from the law itself
        val = lambda e: ev(law["e"], (), {"f": f, "e1": e1, "e2": e2, "e": e})
        c = val(0.0); A = (val(1.0) + val(-1.0)) / 2 - c; Bq = (val(1.0) - val(-1.0)) / 2
        d = cmath.sqrt(Bq * Bq - 4 * A * c)
        r = [(-Bq + d) / (2 * A), (-Bq - d) / (2 * A)]
        if abs(r[0].imag - r[1].imag) <= 1e-10 * abs(r[0] - r[1]):   # lossless up to round off
            return max(r, key=lambda z: z.real)
        return max(r, key=lambda z: z.imag)

    def mat(self, ref):
        return self.base[ref[1]] if ref[0] == "base" else self.effs[ref[1] - 1]

    def spectrum(self, s):
        pair = tuple(s["pair"])
        v = [nm_to(pair, self.pos[x]) for x in s["pos"]]
        c = v[0] if s["form"] == "float" else v if s["form"] == "list" else np.array(v)
        return Spectrum(c, spectrum_type=pair[0], unit=pair[1])

    def near(self, got, w, what, tol=2e-6):
        self.chk.cov["values_compared"] += 1
        if not abs(got - w) <= tol * (1 + abs(w)):
            raise Mismatch("%s is %r, specification says %r" % (what, got, w))

    def mix(self, op):
        f = op["f"]["num"] / op["f"]["den"]
        if self.rng.random() < .2 and f in (0.0, 1.0, 2.0, -1.0):
            f = int(f)
        s = self.spectrum(op["s"])
        keep = copy.deepcopy((s.values, s.spectrum_type, s.unit))
        self.last = (op["rule"], f, op["ta"], op["tb"], op["s"])
        try:
            e = CLS[op["rule"]](s, self.mat(op["a"]), self.mat(op["b"]), f)
            res = "ok"
        except ValueError:
            res = "ValueError"
        if res != op["res"]:
            raise Mismatch("%s(f=%r) of %s and %s gave %s, specification says %s" % (op["rule"], f, op["ta"], op["tb"], res, op["res"]))
        if not np.array_equal(keep[0], s.values) or keep[1:] != (s.spectrum_type, s.unit):
            raise Mismatch("mixing changed the caller's spectrum")
        if res != "ok":
            return
        if op["keep"]:
            self.effs.append(e)
        got = np.atleast_1d(e.get_permittivity(s))
        nk = np.atleast_1d(e.get_nk_data(s))
        if len(got) != len(op["s"]["pos"]):
            raise Mismatch("%d values gave %d" % (len(op["s"]["pos"]), len(got)))
        for x, g, n in zip(op["s"]["pos"], got, nk):
            g = complex(g)
            e1, e2 = self.want(op["ta"], x), self.want(op["tb"], x)
            env = {"f": op["f"]["num"] / op["f"]["den"], "e1": e1, "e2": e2, "e": g}
            v = ev(op["law"]["e"], (), env)
            what = "%s(f=%s) of %r and %r at position %d" % (op["rule"], f, e1, e2, x)
            if op["law"]["k"] == "value":
                self.near(g, v, what)
            else:
                scale = (abs(e1) + abs(g)) * (abs(e2) + abs(g))
                if not abs(v) <= 1e-5 * scale:
                    raise Mismatch("%s: %r does not solve the Bruggeman equation (residual %r)" % (what, g, v))
                if g.imag < -1e-7 * (1 + abs(g)):
                    raise Mismatch("%s: root %r has negative imaginary part" % (what, g))
                if op["passive"] and (g.real <= 0 or abs(g.imag) > 1e-9):
                    raise Mismatch("%s: root %r for lossless dielectrics" % (what, g))
            if op["same"] != "neither":
                self.near(g, e1 if op["same"] == "first" else e2, what + " (limit)", 1e-5)
            if not abs(n * n - g) <= 1e-9 * (1 + abs(g)) or n.real < 0:
                raise Mismatch("%s: index %r is not the root of %r" % (what, n, g))

    def query(self, op):
        pair = tuple(op["q"])
        v = nm_to(pair, self.pos[op["x"]])
        v = v if self.rng.random() < .5 else np.array([v])
        try:
            got = self.effs[op["k"] - 1].get_permittivity(v, spectrum_type=pair[0], unit=pair[1])
            res = "ok"
        except ValueError:
            res = "ValueError"
        if res != op["res"]:
            raise Mismatch("querying %s at position %d gave %s, specification says %s" % (op["tree"], op["x"], res, op["res"]))
        if res == "ok":
            self.near(complex(np.squeeze(got)), self.want(op["tree"], op["x"]), "effective medium %s at %d in %s" % (op["tree"], op["x"], pair), 1e-5)

    def report(self, op):
        e = self.effs[op["k"] - 1]
        r = e.get_maximum_valid_range()
        pair = None
        d = e.defaults
        got = sorted(complex(x).real for x in np.atleast_1d(Spectrum(np.array(r), spectrum_type=d["spectrum_type"], unit=d["unit"]).convert_to("wavelength", "nm")))
        want = [self.pos[op["lo"]], self.pos[op["hi"]]]
        if not np.allclose(got, want, rtol=1e-7):
            raise Mismatch("range of the effective medium is %r nm, specification says %r" % (got, want))

    def step(self, op):
        getattr(self, op["n"])(op)


def run(chk):
    r = chk.tlc("MixingMC", CFG % ("BaseSet", "SpecSet", "FracSet", 0), label="two-component mixtures", workers=4)
    laws = {e["o"]["rule"]: e["o"]["law"] for e in r.edges if e["o"]["n"] == "mix"}
    ad = Mixing(chk, laws)
    ops = [e["o"] for e in r.edges]
    for rep in range(chk.pick(1, 8)):
        chk.rng.shuffle(ops)
        n = len(ops)
        for i in range(0, n, 60):
            chk.replay_walk(ad, ops[i:i + 60], "mixture")
    chk.sample({k: ops[0][k] for k in ("rule", "f", "ta", "tb", "s", "res")})
    r = chk.tlc("MixingMC", CFG % (chk.pick("BaseFew", "BaseMid"), chk.pick("SpecFew", "SpecMid"), "FracFew", 2), label="nested mixtures", workers=4, heap="6g")
    g = Graph(r.edges)
    init = g.init([])
    for walk in g.random_walks(init, chk.pick(500, 6000), 10, chk.rng, weight=lambda o: {"mix": 1.0, "query": 20.0, "report": 60.0}[o["n"]]):
        chk.replay_walk(ad, walk, "nested mixture")
    chk.sample({"walk": [(o["n"], o.get("rule"), o.get("f"), o.get("ta"), o.get("tb"), o.get("x")) for o in walk]})
    ad.reset()
    bad = copy.deepcopy(next(o for o in ops if o["rule"] == "MaxwellGarnett" and o["res"] == "ok" and o["f"]["num"] == 1 and o["f"]["den"] == 4 and o["a"][1] == "cplx" and o["b"][1] == "tabnk"))
    bad["law"] = laws["Simple"]
    try:
        ad.step(bad); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "mixing rule")
    bad = copy.deepcopy(bad); bad["law"], bad["rule"] = laws["Bruggeman"], "Simple"
    try:
        ad.step(bad); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "Bruggeman equation")
    chk.assumptions += ["Bruggeman mixtures are of passive media (no gain); Bruggeman with two lossless media of which one is metallic has no determined branch"]
