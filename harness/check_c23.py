import copy, warnings, math, os
import numpy as np
from vlib import *
from physics import *
from mats import NAMES, MODEL_PAR
from dispersion import Material, Spectrum
from dispersion.material import Simple
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Mats <- %s
 Axs <- %s
 Figs = {%s}
 Vals = {%s}
 TypeArgs = {%s}
 UnitArgs = {%s}
 Whats = {"nk", "eps"}
 MaxPlots = %d
 MaxPure = %d
INVARIANT Honest
PROPERTY OnePlace
PROPERTY GivenAxes
ACTION_CONSTRAINT Emit
"""
q = lambda l: ", ".join('"%s"' % x for x in l)
VALS = ["none", "float", "npfloat", "list", "tuple", "array", "desc", "one", "onelist", "outlow", "outhigh", "outscalar"]
NM = (320.0, 1600.0)      # the bounded materials' range


class Plots:
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng

    def describe(self):
        return {"last": repr(getattr(self, "last", None)), "materials": sorted(self.mats)}

    def close(self):
        plt.close("all")

    def reset(self):
        plt.close("all")
        self.mats = {}
        self.axs = {}
        self.figs = {}
        for i in (1, 2):
            self.figs[i] = plt.figure(10 + i)
        if self.rng.random() < .5:
            self.axs["A1"] = self.figs[1].add_subplot(211)
        else:
            self.axs["A1"] = self.figs[1].add_subplot(111)
        self.axs["A2"] = self.figs[2].add_subplot(122)
        self.started = False

    def mat(self, name):
        if name not in self.mats:
            m = self.make(name)
            self.mats[name] = (m, copy.deepcopy(m))
        return self.mats[name]

    def tab(self, pair, cols, n=None):
        rng = self.rng
        n = n or rng.randint(2, 8)
        w = [NM[0]] + sorted(rng.uniform(NM[0] * 1.05, NM[1] * .95) for _ in range(n - 2)) + [NM[1]]
        if n == 1:
            w = [700.0]
        sign = [rng.choice([1, 1, -1]) for _ in range(cols)]     # gain, metals
        if cols and pair[0] != "energy":
            sign[0] = 1
        rows = sorted([float("%.9g" % nm_to(pair, x))] + [s * round(rng.uniform(.3, 3), 4) for s in sign] for x in w)
        return np.array(rows)

    def make(self, name):
        rng = self.rng
        if name == "const":
            return Material(**rng.choice([{"fixed_n": 1.7}, {"fixed_nk": 1.2 + .3j}, {"fixed_nk": 1.2 - .3j}, {"fixed_eps": -2 + .5j}, {"fixed_eps": 2 - .5j}]), spectrum_type="wavelength", unit="nm")
        if name == "constev":
            return Material(fixed_eps_r=2.1, spectrum_type="energy", unit="eV")
        if name == "nk_nm":
            return Material(tabulated_nk=self.tab(("wavelength", "nm"), 2), spectrum_type="wavelength", unit=rng.choice(["nm", "nanometer"]))
        if name == "eps_ev":
            return Material(tabulated_eps=self.tab(("energy", "ev"), 2), spectrum_type="energy", unit=rng.choice(["ev", "electronvolt"]))
        if name == "alpha_cm":
            return Material(tabulated_n_alpha=self.tab(("wavenumber", "1/cm"), 2), spectrum_type="wavenumber", unit="1/cm")
        if name == "n_hz":
            return Material(tabulated_n=self.tab(("frequency", "hz"), 1), spectrum_type="frequency", unit="hertz")
        if name == "omega":
            return Material(tabulated_nk=self.tab(("angularfrequency", "1/s"), 2), spectrum_type="angularfrequency", unit="1/s")
        if name == "row":
            return Material(tabulated_nk=self.tab(("wavelength", "um"), 2, 1), spectrum_type="wavelength", unit="um")
        if name == "model":
            return Material(model_kw={"name": "Sellmeier", "spectrum_type": "wavelength", "unit": "um", "valid_range": np.array([.32, 1.6]), "parameters": np.array([.2, .9, .1])})
        if name == "drude":
            return Material(model_kw={"name": "Drude", "spectrum_type": "energy", "unit": "ev", "valid_range": np.array([nm_to(("energy", "ev"), NM[1]), nm_to(("energy", "ev"), NM[0])]), "parameters": np.array([7.0, .2])})
        if name == "file":
            p = os.path.join(SCRATCH, "plotted.yml")
            t = self.tab(("wavelength", "a"), 2)
            with open(p, "w") as fp:
                fp.write("DATA:\n  - DataType: tabulated nk\n    Unit: angstrom\n    SpectrumType: wavelength\n    Data: |\n"
                         + "".join("      %r %r %r\n" % tuple(float(x) for x in r) for r in t))
            return Material(file_path=p)
        if name == "mixed":
            x = np.array(sorted([NM[0] * 1e-9, NM[1] * 1e-9, 5e-7, 9e-7]))
            return Simple(Spectrum(x, "wavelength", "m"), Material(fixed_nk=1.3 + rng.choice([.1j, -.1j])), Material(fixed_eps=4 + .2j), .3)

    def values(self, v, pair, one):
        rng = self.rng
        lo, hi = sorted((nm_to(pair, 700.0 if one else NM[0]), nm_to(pair, 700.0 if one else NM[1])))
        draw = lambda: float("%.12g" % rng.uniform(lo, hi)) if one else float("%.7g" % rng.uniform(lo * 1.01, hi * .99))
        if v == "float":
            return draw()
        if v == "npfloat":
            return np.float64(draw())
        if v == "int":
            c = [i for i in range(math.ceil(lo), math.floor(hi) + 1)] if hi < 1e5 else [int((lo + hi) / 2)]
            return rng.choice(c) if c else draw()
        if v in ("one", "onelist"):
            return np.array([draw()]) if v == "one" else [draw()]
        if v == "outscalar":
            return hi * 1.3
        n = rng.randint(2, 6)
        l = [draw() for _ in range(n)]
        if one:
            l = [draw()] * n
        if v == "desc":
            return np.array(sorted(l)[::-1])
        if v == "outlow":
            l[rng.randrange(n)] = lo * .7
        if v == "outhigh":
            l[rng.randrange(n)] = hi * 1.4
        return tuple(l) if v == "tuple" else list(l) if v == "list" else np.array(l) if v == "array" else rng.choice([list, tuple, np.array])(l)

    def lines(self):
        return {id(a): list(a.lines) for i, f in self.figs.items() for a in f.axes}

    def step(self, op):
        if not self.started:
            plt.figure(10 + self.cur0)
            self.started = True
        if op["n"] == "select":
            plt.figure(10 + op["f"])
            return
        if op["n"] == "remove":
            for m in self.mat(op["m"]):
                m.remove_absorption()
            return
        rng = self.rng
        m, twin = self.mat(op["m"])
        c = op["curve"]
        pair = tuple(c["pair"])
        kw = {}
        if op["t"] != "default":
            kw["spectrum_type"] = style(op["t"], rng.choice(["lower", "lower", "title"]))
        if op["u"] != "default":
            kw["unit"] = rng.choice([op["u"], NAMES.get(op["u"], op["u"])])
        if op["v"] != "none":
            kw["values"] = self.values(op["v"], pair if pair[0] != "none" else ("wavelength", "nm"), op["m"] == "row")
        if op["ax"] != "new":
            kw["axes"] = self.axs[op["ax"]]
        given = copy.deepcopy(kw.get("values"))
        curfig = plt.gcf()
        before = self.lines()
        nfigs = set(plt.get_fignums())
        f = m.plot_nk_data if op["what"] == "nk" else m.plot_permittivity
        try:
            f(**kw)
            res = "ok"
        except ValueError as exc:
            res = "ValueError"
        self.last = (op["m"], op["what"], {k: v for k, v in kw.items() if k != "axes"}, res)
        if res != op["res"]:
            raise Mismatch("plotting %s with %r gave %s, specification says %s" % (op["m"], self.last[2], res, op["res"]))
        if "values" in kw and not np.array_equal(np.asarray(kw["values"]), np.asarray(given)):
            raise Mismatch("the caller's values were changed by plotting: %r -> %r" % (given, kw["values"]))
        if set(plt.get_fignums()) != nfigs:
            raise Mismatch("plotting opened another figure")
        if res != "ok":
            for i, fg in self.figs.items():
                for a in fg.axes:
                    if len(a.lines) != len(before.get(id(a), [])):
                        raise Mismatch("a rejected plot of %s drew lines" % op["m"])
            # (the harness keeps the specification's current figure)
            plt.figure(curfig.number)
            for fg in self.figs.values():
                for a in list(fg.axes):
                    if id(a) not in before:
                        fg.delaxes(a)
            return
        new = []
        for i, fg in self.figs.items():
            for a in fg.axes:
                old = before.get(id(a), [])
                if list(a.lines[:len(old)]) != old:
                    raise Mismatch("plotting removed earlier lines")
                if len(a.lines) > len(old):
                    new.append((fg, a, list(a.lines[len(old):])))
        if len(new) != 1:
            raise Mismatch("lines appeared on %d axes" % len(new))
        fg, ax, ls = new[0]
        if op["ax"] == "new":
            if fg is not curfig:
                raise Mismatch("the plot is not on the current figure")
        elif ax is not self.axs[op["ax"]]:
            raise Mismatch("the plot is not on the given axes")
        if len(ls) != 2:
            raise Mismatch("%d lines drawn" % len(ls))
        if [l.get_label() for l in ls] != c["labels"]:
            by = {l.get_label(): l for l in ls}
            if sorted(by) != sorted(c["labels"]):
                raise Mismatch("labels %r" % [l.get_label() for l in ls])
            ls = [by[x] for x in c["labels"]]
        if [l.get_linestyle() for l in ls] != c["styles"]:
            raise Mismatch("line styles %r" % [l.get_linestyle() for l in ls])
        lab = {"%s (%s)" % (pair[0], s) for s in SYMBOL.get(c["symbol"], {c["symbol"]})}
        if ax.get_xlabel() not in lab:
            raise Mismatch("x label %r, specification says %r" % (ax.get_xlabel(), sorted(lab)))
        self.curve(op, twin, pair, c, kw, ls)

    def curve(self, op, twin, pair, c, kw, ls):
        x = [np.asarray(l.get_xdata(), dtype=float).ravel() for l in ls]
        y = [np.asarray(l.get_ydata(), dtype=float).ravel() for l in ls]
        ev = twin.get_nk_data if c["what"] == "nk" else twin.get_permittivity
        one = op["m"] == "row"
        if c["flat"]:
            z = complex(np.ravel(ev(Spectrum(float(np.ravel(kw["values"])[0]), pair[0], pair[1])))[0])
            for yy, want in zip(y, (z.real, z.imag)):
                self.chk.cov["values_compared"] += 1
                if len(yy) < 2 or not np.allclose(yy, want, rtol=1e-9, atol=1e-12):
                    raise Mismatch("single value drawn at %r, evaluated %r" % (yy, z))
            # a horizontal line spans the axes, it is not a point
            for xx in x:
                if len(xx) < 2 or xx.min() == xx.max():
                    raise Mismatch("single value drawn as a point at x %r" % xx)
            return
        if len(x[0]) != len(x[1]) or not np.array_equal(x[0], x[1]):
            raise Mismatch("real and imaginary part have different x values")
        if c["xs"] == "given":
            want = np.asarray(kw["values"], dtype=float)
            if not np.array_equal(x[0], want):
                raise Mismatch("x values %r, given %r" % (x[0], want))
        elif one:
            if not np.allclose(x[0], nm_to(pair, 700.0), rtol=1e-8):
                raise Mismatch("one row material drawn at %r" % x[0][:3])
        elif op["m"] in ("const", "constev"):
            if len(x[0]) < 2 or not np.all(np.isfinite(x[0])) or x[0].min() <= 0 or x[0].min() == x[0].max():
                raise Mismatch("sample of an unbounded material: %r" % x[0][:5])
        else:
            lo, hi = sorted((nm_to(pair, NM[0]), nm_to(pair, NM[1])))
            if not (abs(x[0].min() - lo) <= 1e-8 * lo and abs(x[0].max() - hi) <= 1e-8 * hi):
                raise Mismatch("x range %r..%r, valid range %r..%r (%s)" % (x[0].min(), x[0].max(), lo, hi, pair))
            gaps = np.diff(np.sort(x[0]))
            if len(x[0]) < 20 or gaps.max() > .2 * (hi - lo):
                raise Mismatch("the range is sampled at %d points only" % len(x[0]))
        n = len(x[0])
        idx = range(n) if n <= 8 else [0, n - 1] + [self.rng.randrange(n) for _ in range(6)]
        for i in idx:
            self.chk.cov["values_compared"] += 1
            z = complex(np.ravel(ev(Spectrum(np.array([x[0][i]]), pair[0], pair[1])))[0])
            if not (abs(y[0][i] - z.real) <= 1e-7 * (1 + abs(z)) and abs(y[1][i] - z.imag) <= 1e-7 * (1 + abs(z))):
                raise Mismatch("drawn (%r, %r) at %r %s, evaluated %r" % (y[0][i], y[1][i], x[0][i], pair, z))


def start(chk, ad, g, figs, naxs, **kw):
    for cur in figs:
        ad.cur0 = cur
        d = {a: 0 for a in naxs}
        ex = [0] * len(figs)
        st = g.init([cur, d, ex, []])
        for walk in g.cover_walks(st, rng=chk.rng, **kw):
            yield walk


def run(chk):
    ad = Plots(chk)
    types = ["default", "wavelength", "energy", "frequency", "wavenumber", "angularfrequency"]
    units = ["default", "nm", "um", "ev", "hz", "1/cm"] + chk.pick([], ["m", "cm", "a", "1/s", "furlong"])
    r = chk.tlc("PlotMC", CFG % ("AllMats", "OneAx", "1", q(VALS), q(types if chk.thorough else types[:5]), q(units), 1, 0), label="arguments", workers=4)
    # one plot per behaviour: every combination of material, quantity, axes, values, type and unit
    seen = set()
    ops = []
    for e in r.edges:
        k = key(e["o"])
        if e["o"]["n"] == "plot" and k not in seen and not e["f"][3]:
            seen.add(k); ops.append(e["o"])
    chk.rng.shuffle(ops)
    bad = [o for o in ops if o["curve"]["pair"][0] == "none"]
    good = [o for o in ops if o["curve"]["pair"][0] != "none"]
    chk.count("argument_combinations", len(ops))
    sel = good[:chk.pick(4000, len(good))] + bad[:chk.pick(400, 4000)]
    chk.rng.shuffle(sel)
    ad.cur0 = 1
    for i in range(0, len(sel), 12):
        chk.replay_walk(ad, sel[i:i + 12], "arguments")
    r = chk.tlc("PlotMC", CFG % ("FewMats", "TwoAxs", "1, 2", q(["none", "array", "float", "outhigh"]), q(["default", "energy"]), q(["default", "ev"]), chk.pick(2, 3), 1),
                label="histories", workers=4)
    g = Graph(r.edges)
    n = 0
    for walk in start(chk, ad, g, [1, 2], ["A1", "A2"], maxlen=30):
        chk.replay_walk(ad, walk, "history")
        chk.sample({"walk": [(o["n"], o.get("m"), o.get("ax"), o.get("v")) for o in walk[:6]]}, 3)
        n += 1
        if n >= chk.pick(150, 1500):
            break
    # self test
    b = copy.deepcopy(next(o for o in good if o["m"] == "nk_nm" and o["v"] == "array" and o["res"] == "ok" and o["what"] == "nk"))
    b["curve"]["what"] = "eps"
    ad.reset(); ad.cur0 = 1
    try:
        ad.step(b); ok = False
    except Mismatch:
        ok = True
    ad.close()
    chk.canary(ok, "permittivity drawn for index")
    chk.assumptions += ["matplotlib with the Agg back end", "the number of sample points of a valid range is not specified (at least 20, no gap over a fifth of the range)"]
