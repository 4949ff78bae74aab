import copy, warnings, math, cmath, os
import numpy as np
from vlib import *
from physics import *
from mats import NAMES, dress
from expr import ev
import dispersion.spectral_data as sd
from dispersion import Material, Spectrum, Interpolation, Constant
from dispersion.material import Simple
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Sources <- SrcSet
 Replacements = {%s}
 Queries <- QSet
 MaxHist = %d
INVARIANT Consistent
PROPERTY OnlyImag
ACTION_CONSTRAINT Emit
"""
PAIRSET = [("wavelength", "nm"), ("wavelength", "um"), ("wavelength", "cm"), ("wavelength", "a"), ("energy", "ev"), ("frequency", "hz"),
           ("wavenumber", "1/cm"), ("angularfrequency", "1/s")]
QP = {"nm": ("wavelength", "nm"), "ev": ("energy", "ev"), "hz": ("frequency", "hz")}


class Views:
    """positions are the table's own abscissae (knots), so that every part's value there is known exactly"""
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng

    def describe(self):
        return {"src": getattr(self, "src", None), "pair": getattr(self, "pair", None), "knots": getattr(self, "x", None),
                "columns": {k: (repr(v)) for k, v in getattr(self, "sym", {}).items()}, "last": repr(getattr(self, "last", None))}

    def reset(self):
        self.mat = None
        self.sym = {}

    def num(self, neg=False, weak=False):
        v = round(self.rng.choice([self.rng.uniform(0.01, 5), self.rng.uniform(0.01, 5), self.rng.uniform(1e-6, 1e-2)]), 9)
        if weak and self.rng.random() < .25:        # hardly any absorption
            v = float("%.9g" % 10 ** self.rng.uniform(-14, -5))
        return -v if neg and self.rng.random() < 0.4 else v

    def knots(self, n):
        a = ANCHOR[self.pair[1]]
        self.x = [float("%.7g" % (a * (0.8 + 0.14 * i + self.rng.uniform(0, 0.08)))) for i in range(n)]

    def nm(self, x):
        t, u = self.pair
        return x * {"m": 1e9, "cm": 1e7, "um": 1e3, "nm": 1.0, "a": 0.1}[u] if t == "wavelength" else nm_to(self.pair, 1.0) / x

    def construct(self, op):
        rng = self.rng
        self.src = src = op["src"]
        fixed_units = src in ("model_n", "file_formula_k", "model_eps", "effective")
        self.pair = rng.choice(PAIRSET) if not fixed_units else \
            ("energy", "ev") if src == "model_eps" else ("wavelength", "m") if src == "effective" else ("wavelength", "um")
        n = 1 if src.startswith("onerow") else 4
        self.knots(n)
        neg = "eps" in src or src in ("fixed_nk", "tabulated_nk")
        a = [self.num(neg) for _ in range(n)]
        b = [self.num(neg and src != "effective", src != "effective") for _ in range(n)]
        if rng.random() < 0.2:
            b[rng.randrange(n)] = 0.0
        kw = dict(spectrum_type=self.pair[0], unit=rng.choice([self.pair[1], NAMES[self.pair[1]]]))
        if rng.random() < 0.4 and src.startswith(("tabulated", "onerow")):      # a table of whole numbers
            a, b = [float(rng.randint(1, 5)) for _ in a], [float(rng.randint(0, 9) * (10 ** rng.randint(0, 4) if "alpha" in src else 1)) for _ in b]
            if self.pair[1] in ("nm", "a", "hz", "1/cm", "1/s"):
                self.x = [float(round(w)) for w in self.x]
        x = self.x
        T = lambda *c: dress(rng, np.array(sorted(zip(x, *c), key=lambda r: rng.random()), dtype=float))
        if src.startswith("fixed"):
            a, b = [a[0]] * n, [b[0]] * n
            v = a[0] if src in ("fixed_n", "fixed_eps_r") else complex(a[0], b[0])
            self.mat = Material(**{src: v}, **kw)
        elif src in ("tabulated_n",):
            self.mat = Material(tabulated_n=T(a), **kw)
        elif src in ("tabulated_nk", "tabulated_n_alpha", "tabulated_eps"):
            self.mat = Material(**{src: T(a, b)}, **kw)
        elif src.startswith("onerow"):
            self.mat = Material(**{"tabulated" + src[6:]: T(a, b)}, **kw)
        elif src == "model_n":
            par = np.array([0.2, rng.uniform(0.5, 1.5), 0.05])
            vr = np.array([x[0] * 0.9, x[-1] * 1.1])
            self.mat = Material(model_kw={"name": "Sellmeier", "spectrum_type": "wavelength", "unit": "um", "valid_range": vr, "parameters": par})
            a = [math.sqrt(1 + par[0] + par[1] * w * w / (w * w - par[2] ** 2)) for w in x]
        elif src == "model_eps":
            par = np.array([rng.uniform(2, 9), rng.uniform(0.01, 0.4)])
            vr = np.array([x[0] * 0.9, x[-1] * 1.1])
            self.mat = Material(model_kw={"name": "Drude", "spectrum_type": "energy", "unit": "ev", "valid_range": vr, "parameters": par})
            self.sym["z"] = [1 - par[0] ** 2 / (w * w + 1j * par[1] * w) for w in x]
        elif src.startswith("file"):
            p = os.path.join(SCRATCH, "views.yml")
            blk = lambda rows: "".join("      %s\n" % " ".join(repr(float(v)) for v in r) for r in rows)
            unit = "    Unit: %s\n    SpectrumType: %s\n" % (NAMES[self.pair[1]], self.pair[0])
            tab = lambda ident, *c: "  - DataType: tabulated %s\n%s    Data: |\n%s" % (ident, unit, blk(zip(x, *c)))
            form = "  - DataType: formula 1\n%s    ValidRange: %r %r\n    Parameters: 0.2 0.9 0.05\n" % (unit, x[0] * 0.9, x[-1] * 1.1)
            body = {"file_n": lambda: tab("n", a), "file_k": lambda: tab("k", b), "file_nk": lambda: tab("nk", a, b),
                    "file_n_k": lambda: tab("n", a) + tab("k", b), "file_formula_k": lambda: form + tab("k", b),
                    "file_eps": lambda: tab("eps", a, b), "file_eps_r": lambda: tab("eps_r", a), "file_eps_k": lambda: tab("eps_k", b)}[src]()
            if src == "file_formula_k":
                a = [math.sqrt(1.2 + 0.9 * w * w / (w * w - 0.05 ** 2)) for w in x]
            with open(p, "w") as fp:
                fp.write("DATA:\n" + body)
            self.mat = Material(file_path=p)
        elif src == "effective":
            m1 = Material(fixed_eps=complex(a[0], b[0])); m2 = Material(tabulated_eps=T(a, b), **kw)
            self.mat = Simple(Spectrum(np.array(x), "wavelength", "m"), m1, m2, 0.25)
            a, b = [0.75 * a[0] + 0.25 * v for v in a], [0.75 * b[0] + 0.25 * v for v in b]
        self.sym["a"], self.sym["b"] = a, b

    def partner(self):
        """another material made of the same spectral data, and what it gives"""
        m = Material(fixed_n=1.0)
        m.data.update(self.mat.data)
        x = np.array(self.x)
        return lambda: m.get_nk_data(x, spectrum_type=self.pair[0], unit=self.pair[1])

    def remove(self, op):
        other = self.partner()
        before = other()
        self.mat.remove_absorption()
        if not np.array_equal(before, other(), equal_nan=True):
            raise Mismatch("removing the absorption of one material changed another one made of the same spectral data: %r, before %r" % (other(), before))

    def replace(self, op):
        rng, tag = self.rng, op["tag"]
        n = len(self.x)
        if tag == "const":
            v = self.num(True)
            part, vals = Constant(v), [v] * n
        elif tag == "table":
            vals = [self.num(True, op["part"] == "imag") for _ in range(n)]
            if n == 1:
                part = Constant(vals[0], valid_range=(self.x[0], self.x[0]), spectrum_type=self.pair[0], unit=self.pair[1])
            else:
                part = Interpolation(np.array([self.x, vals]).T, spectrum_type=self.pair[0], unit=self.pair[1])
        elif tag == "model":
            um = [self.nm(w) / 1e3 for w in self.x]
            part = sd.Cauchy(np.array([0.4, 0.02, 2.0]), np.array([min(um) * 0.9, max(um) * 1.1]), spectrum_type="wavelength", unit="um")
            vals = [0.4 + 0.02 * w ** 2 for w in um]
        self.mat.data[op["part"]] = part
        self.sym[op["part"] + tag] = vals

    def step(self, op):
        if op["n"] != "query":
            getattr(self, op["n"])(op)
            return
        rng = self.rng
        pair = self.pair if op["q"] == "own" else QP[op["q"]]
        n = len(self.x)
        idx = [rng.randrange(n)] if op["c"] in ("float", "one") else rng.sample(range(n), n) if rng.random() < .7 else [rng.randrange(n) for _ in range(5)]
        vals = [self.x[i] if pair == self.pair else nm_to(pair, self.nm(self.x[i])) for i in idx]
        cont = vals[0] if op["c"] == "float" else list(vals) if op["c"] == "list" else np.array(vals)
        f = self.mat.get_nk_data if op["what"] == "nk" else self.mat.get_permittivity
        got = f(Spectrum(cont, pair[0], pair[1])) if rng.random() < .5 else f(cont, spectrum_type=pair[0], unit=pair[1])
        self.last = (op["what"], pair, vals, got)
        got = [complex(got)] if op["c"] == "float" else [complex(g) for g in got]
        if len(got) != len(idx):
            raise Mismatch("%d values gave %d results" % (len(idx), len(got)))
        for i, g in zip(idx, got):
            self.chk.cov["values_compared"] += 1
            s = {k: v[i] for k, v in self.sym.items()}
            s.update(lambda_cm=self.nm(self.x[i]) * 1e-7, pi=math.pi)
            want = complex(self.eval(op["ans"]["e"], s))
            # unit conversion moves the query off the knot by the rounding of the own unit
            tol = 1e-9 if pair == self.pair else 2e-6
            have = g * g if op["ans"]["k"] == "root" else g
            if not abs(have - want) <= tol * (1 + abs(want)):
                raise Mismatch("%s of %s at %r %s is %r, specification says %s %r" % (op["what"], self.src, vals[0], pair, g, op["ans"]["k"], want))
            # weak absorption has a value of its own, however large the real part is
            w = cmath.sqrt(want) if op["ans"]["k"] == "root" else want
            if w.real < 0 and op["ans"]["k"] == "root":
                w = -w
            if pair == self.pair and self.src != "effective" and want.imag and abs(want.imag) < 1e-3 * abs(want.real) \
                    and not abs(g.imag - w.imag) <= 1e-6 * abs(w.imag):
                raise Mismatch("%s of %s at %r %s has imaginary part %r, specification says %r" % (op["what"], self.src, vals[0], pair, g.imag, w.imag))
            if op["ans"]["k"] == "root" and g.real < -1e-9 * (1 + abs(g)):
                raise Mismatch("refractive index %r of %s has a negative real part" % (g, self.src))
            if op["ans"]["k"] == "root" and want.imag > 1e-9 and g.imag <= 0:
                raise Mismatch("refractive index %r of an absorbing permittivity %r" % (g, want))

    def eval(self, e, s):
        # replacement symbols are bound per part: the tree is Add(re, Im(im)), possibly squared
        if e[0] == "mul" and e[1] == e[2]:
            return self.eval(e[1], s) ** 2
        if e[0] == "add":
            s1 = dict(s); s2 = dict(s)
            for t in ("const", "table", "model"):
                s1[t], s2[t] = s.get("real" + t), s.get("imag" + t)
            return ev(e[1], (), s1) + ev(e[2], (), s2)
        return ev(e, (), s)


def run(chk):
    ad = Views(chk)
    r = chk.tlc("ViewsMC", CFG % ('"const", "table", "model"', chk.pick(2, 3)), label="sources x histories", workers=4)
    g = Graph(r.edges)
    init = g.init([{"src": "none"}, 0])
    for rep in range(chk.pick(2, 6)):
        for walk in g.cover_walks(init, maxlen=chk.pick(60, 60), rng=chk.rng):
            chk.replay_walk(ad, walk, "views")
            chk.sample({"walk": [(o["n"], o.get("src") or o.get("what") or o.get("tag")) for o in walk[:8]]}, 3)
    # table walks with a fresh instance per source
    q = copy.deepcopy(next(o for f, o, t in g.edges if o["n"] == "query" and o["ans"]["k"] == "root"))
    f0 = next(f for f, o, t in g.edges if o == q)
    con = next(o for f, o, t in g.edges if o["n"] == "construct" and o["src"] == "tabulated_eps")
    ad.reset(); ad.step(con)
    q["ans"] = {"k": "value", "e": ["add", ["sym", "a"], ["mul", ["imu"], ["sym", "b"]]]}
    q["what"] = "nk"
    try:
        ad.step(q); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "index taken for permittivity")
    chk.assumptions += ["values are compared at the abscissae of the tables (interpolation between them is C04)"]
