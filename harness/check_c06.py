import copy, warnings, os, math, json
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from vlib import *
from physics import *
from mats import NAMES
import dispersion.spectral_data as sd
from dispersion import Material, Spectrum, Writer, Interpolation
from dispersion.material import Simple, MaxwellGarnett, Bruggeman
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Objs = {%s}
 Separable = {%s}
 Bounded = {%s}
 SharedSpecs <- SS
 Vecs <- VV
 QueryPairs <- QQ
 Containers = {"float", "array", "list", "tuple", "tiled", "reused", "inplace"}
 Rules = {"Simple", "MaxwellGarnett", "Bruggeman"}
 Exts <- ExtS
INVARIANT Elementwise
PROPERTY NonInterference
ACTION_CONSTRAINT Emit
"""
KINDS = {  # name: (separable, bounded)
    "fixed_nk": (1, 0), "fixed_eps": (1, 0), "tab_nk": (1, 1), "tab_nk_twin": (1, 1), "tab_eps_ev": (1, 1),
    "tab_nalpha": (1, 1), "model": (1, 1), "model_twin": (1, 1), "drude": (0, 0), "tauc": (0, 0), "mixed": (1, 1), "eff": (1, 1), "file": (1, 1),
    "exotic": (1, 1), "gases": (1, 1), "rii": (1, 1), "sellmeier2": (1, 1), "polynomial": (1, 1), "cauchy": (1, 1), "herzberger": (1, 1), "retro": (1, 1),
    "drudelorentz": (0, 0), "simple": (1, 1), "garnett": (1, 1), "tab_n": (1, 1), "yaml": (1, 1), "sharer": (1, 1)}
MODELS = {"exotic": ("Exotic", [2.0, 0.01, 0.01, 0.1, 0.2, 1.0]), "gases": ("Gases", [0.0, 0.01, 60.0]),
          "rii": ("RefractiveIndexInfo", [2.0, 0.1, 0.0, 0.1, 2.0, 0.1, 0.0, 0.1, 2.0, 0.01, 2.0]),
          "sellmeier2": ("Sellmeier2", [0.1, 0.9, 0.01, 0.2, 60.0]), "polynomial": ("Polynomial", [2.0, 0.1, -2.0, 0.02, 2.0]),
          "cauchy": ("Cauchy", [1.5, 0.01, -2.0, 0.001, -4.0]), "herzberger": ("Herzberger", [1.5, 0.01, 0.01, 0.02, 0.01, 0.001]),
          "retro": ("Retro", [0.2, 0.1, 0.01, 0.01])}


class Purity:
    def __init__(self, chk, objs):
        self.chk, self.rng, self.objs = chk, chk.rng, objs

    def describe(self):
        return {"objects": self.objs, "positions_nm": self.pos}

    def reset(self):
        rng = self.rng
        self.pos = {i + 1: float("%.5g" % (520 + 40 * i + rng.uniform(0, 30))) for i in range(5)}
        self.memo = {}
        self.kept = []
        self.buffers = {}
        # caller-owned data shared by several materials
        self.tab = np.array([[700., 1.4, .2], [450., 1.9, .1], [500., 1.7, .3], [610., 1.5, .25], [820., 1.35, .05]])
        e = np.linspace(1.4, 2.9, 7)
        self.tab_ev = np.column_stack([e, 2 + e ** 2 / 3, 0.1 * e])
        self.par = np.array([0.1, 0.9, 0.1, 0.3, 8.0])
        self.rng_arr = np.array([0.4, 0.9])
        self.model_kw = {"name": "Sellmeier", "spectrum_type": "wavelength", "unit": "micrometer",
                         "valid_range": self.rng_arr, "parameters": self.par}
        self.owned = {"tab": self.tab, "tab_ev": self.tab_ev, "par": self.par, "rng": self.rng_arr, "model_kw": self.model_kw}
        self.specs = []
        self.m = {}
        for o in self.objs:
            self.m[o] = self.make(o)
        self.spectra()
        self.base = self.snapshot()

    def spectra(self):
        self.shared = {
            "sA": Spectrum(np.array([self.pos[1], self.pos[3], self.pos[5]]), "wavelength", "nm"),
            "sB": Spectrum(np.array([nm_to(("energy", "ev"), self.pos[4]), nm_to(("energy", "ev"), self.pos[2])]), "energy", "eV"),
            "sF": Spectrum(self.pos[3] / 1e3, "wavelength", "um")}
        self.exts = {"e1": Spectrum(1000.0, "wavelength", "nm"),
                     "e2": Spectrum(np.array([nm_to(("energy", "ev"), 1100.), nm_to(("energy", "ev"), 350.)]), "energy", "ev")}

    def refill(self):
        """the caller overwrites everything it handed over and makes new spectra for later"""
        for a in [a for a in self.owned.values() if isinstance(a, np.ndarray)]:
            a[...] = self.rng.choice([0.0, 7.5, a + 1.0])
        self.model_kw.update(name="Cauchy", unit="nm")
        for s in [*self.shared.values(), *self.exts.values(), *self.specs]:
            if isinstance(s.values, np.ndarray):
                s.values[...] = 123.0
            s.convert_to("frequency", "hz", in_place=True)
        self.spectra()
        self.base = self.snapshot()

    def own(self, values):
        a = np.array(values)
        self.owned["array %d" % len(self.owned)] = a
        return a

    def model(self, name, par):
        return Material(model_kw={"name": name, "spectrum_type": "wavelength", "unit": "um",
                                  "valid_range": self.own([0.4, 0.9]), "parameters": self.own(par)})

    def make(self, o):
        if o == "fixed_nk":
            return Material(fixed_nk=1.4 + 0.3j)
        if o == "fixed_eps":
            return Material(fixed_eps=-2.0 + 0.7j)
        if o in ("tab_nk", "tab_nk_twin"):
            return Material(tabulated_nk=self.tab, spectrum_type="wavelength", unit="nm")
        if o == "tab_nalpha":
            return Material(tabulated_n_alpha=self.tab, spectrum_type="wavelength", unit="nm")
        if o == "tab_eps_ev":
            return Material(tabulated_eps=self.tab_ev, spectrum_type="energy", unit="eV", interp_order=2)
        if o in ("model", "model_twin"):
            return Material(model_kw=self.model_kw)
        if o in MODELS:
            return self.model(*MODELS[o])
        if o == "drudelorentz":
            return Material(model_kw={"name": "DrudeLorentz", "spectrum_type": "energy", "unit": "ev",
                                      "valid_range": self.own([0.5, 5.0]), "parameters": self.own([8.0, 0.4, 2.2, 0.3])})
        if o == "tab_n":
            return Material(tabulated_n=self.tab[:, :2], spectrum_type="wavelength", unit="nm")
        if o in ("simple", "garnett"):
            s = Spectrum(np.linspace(460., 790., 5)[[3, 0, 4, 1, 2]], "wavelength", "nm")
            self.specs.append(s)
            return (Simple if o == "simple" else MaxwellGarnett)(s, self.model(*MODELS["cauchy"]), Material(fixed_nk=2.1 + .1j), 0.6)
        if o == "yaml":
            p = os.path.join(SCRATCH, "purity.yml")
            if not os.path.exists(p):
                with open(p, "w") as f:
                    f.write("SPECS:\n  n_absolute: true\nDATA:\n  - type: formula 5\n    wavelength_range: 0.4 0.9\n    coefficients: 1.5 0.01 -2\n"
                            "  - type: tabulated k\n    data: |\n        0.4 0.1\n        0.6 0.2\n        0.9 0.1\n")
            return Material(file_path=p, spectrum_type="wavelength", unit="um")
        if o == "drude":
            return Material(model_kw={"name": "Drude", "spectrum_type": "energy", "unit": "ev",
                                      "valid_range": self.own([0.5, 5.0]), "parameters": self.own([8.0, 0.1])})
        if o == "tauc":
            return Material(model_kw={"name": "TaucLorentz", "spectrum_type": "energy", "unit": "ev",
                                      "valid_range": self.own([0.5, 5.0]), "parameters": self.own([100.0, 3.0, 1.0, 1.9, 1.0])})
        if o == "mixed":
            m = Material(model_kw=self.model_kw)
            m.data["imag"] = Interpolation(self.tab[:, [0, 2]], unit="nm")
            return m
        if o == "eff":
            s = Spectrum(np.linspace(460., 790., 30), "wavelength", "nm")
            self.specs.append(s)
            return Bruggeman(s, Material(tabulated_nk=self.tab, spectrum_type="wavelength", unit="nm"), Material(fixed_n=1.5), 0.3)
        if o == "file":
            p = os.path.join(SCRATCH, "purity.csv")
            if not os.path.exists(p):
                with open(p, "w") as f:
                    f.write("# NAME: x\n# COMMENTS: y\n400,1.5,0.1\n500,1.6,0.2\n600,1.55,0.1\n850,1.5,0.05\n")
            return Material(file_path=p, spectrum_type="wavelength", unit="nm")
        if o == "sharer":       # another material made of the spectral data of the first one
            m = Material(fixed_n=1.0, spectrum_type="wavelength", unit="um")
            m.data.update(self.m[self.objs[0]].data)
            return m
        raise MachineryError(o)

    def snapshot(self):
        d = {k: (v.copy() if isinstance(v, np.ndarray) else dict(v)) for k, v in self.owned.items()}
        sp = {k: (copy.deepcopy(s.values), s.spectrum_type, s.unit) for k, s in {**self.shared, **self.exts}.items()}
        md = {o: copy.deepcopy(m.meta_data) for o, m in self.m.items()}
        return d, sp, md

    def untouched(self, what):
        for got, was, of in self.kept:
            if not np.array_equal(got, was):
                raise Mismatch("%s changed the result of the earlier %s" % (what, of))
        d, sp, md = self.base
        for k, v in self.owned.items():
            if isinstance(v, np.ndarray):
                if not np.array_equal(v, d[k]):
                    raise Mismatch("%s modified the caller's array %s" % (what, k))
            elif list(v) != list(d[k]) or any(v[x] is not d[k][x] for x in v):
                raise Mismatch("%s modified the caller's dictionary %s" % (what, k))
        for k, s in {**self.shared, **self.exts}.items():
            v, t, u = sp[k]
            if type(v) is not type(s.values) or not np.array_equal(v, s.values) or s.spectrum_type != t or s.unit != u:
                raise Mismatch("%s modified the caller's spectrum %s: %r %s %s -> %r %s %s" % (what, k, v, t, u, s.values, s.spectrum_type, s.unit))
        for o, m in self.m.items():
            if m.meta_data != md[o]:
                raise Mismatch("%s modified the metadata of %s" % (what, o))

    def compare(self, sym, got, unit, what):
        k = key(sym)
        self.chk.cov["values_compared"] += 1
        got = complex(got)
        if not (math.isfinite(got.real) and math.isfinite(got.imag)):
            raise Mismatch("%s: %r at %r" % (what, got, sym))
        mem = self.memo.setdefault(k, {})
        if unit in mem:
            if abs(mem[unit] - got) > 1e-12 * (1 + abs(got)):
                raise Mismatch("%s: value of %r was %r and is now %r" % (what, sym, mem[unit], got))
            return
        for u, v in mem.items():
            if abs(v - got) > 1e-6 * (1 + abs(got)):
                raise Mismatch("%s: value of %r is %r in %s but %r in %s" % (what, sym, v, u, got, unit))
        mem[unit] = got

    def results(self, got, cont, n, what):
        if isinstance(cont, float):
            if np.ndim(got) != 0:
                raise Mismatch("%s: a float gave %r" % (what, got))
            return [got]
        if np.shape(got) != (n,):
            raise Mismatch("%s: %d values gave shape %r" % (what, n, np.shape(got)))
        return list(got)

    def reported(self, op):
        """the ranges that the objects report, and the units they report them in"""
        if op["n"] in ("remove", "extrapolate", "refill") or (op["n"] != "plot" and self.rng.random() < .7):
            return None
        out = {}
        for o, m in self.m.items():
            s = m.get_sample_spectrum()
            out[o] = ([float(x) for x in m.get_maximum_valid_range()], s.spectrum_type, s.unit, len(np.atleast_1d(s.values)))
        return out

    def step(self, op):
        before = self.reported(op)
        self.step1(op)
        if before is not None:
            op1 = dict(op, n="plot")
            after = self.reported(op1)
            self.chk.cov["values_compared"] += len(after)
            if after != before:
                raise Mismatch("%r changed the reported ranges from %r to %r" % (op, before, after))

    def step1(self, op):
        n = op["n"]
        what = json.dumps({k: v for k, v in op.items() if k != "res"})
        if n in ("evalshared", "eval"):
            mat = self.m[op["o"]]
            f = mat.get_nk_data if op["what"] == "nk" else mat.get_permittivity
            if n == "evalshared":
                s = self.shared[op["s"]]
                got, cont, unit = f(s), s.values, s.unit
            else:
                pair = tuple(op["q"])
                vals = [nm_to(pair, self.pos[x]) for x in op["v"]]
                unit = pair[1]
                if op["c"] == "float":
                    cont = vals[0]
                elif op["c"] == "reused":
                    cont = self.buffers.setdefault(len(vals), np.zeros(len(vals)))
                    cont[:] = vals
                elif op["c"] == "tiled":
                    cont = np.tile(vals, 400)
                else:
                    cont = {"list": list, "tuple": tuple}.get(op["c"], np.array)(vals)
                keep = copy.deepcopy(cont)
                if op["c"] == "inplace":
                    home = ("energy", "ev") if pair[0] == "wavelength" else ("wavelength", "um")
                    sp = Spectrum(np.array([nm_to(home, self.pos[x]) for x in op["v"]]), spectrum_type=home[0], unit=home[1])
                    sp.convert_to(pair[0], pair[1], in_place=True)
                    unit += " converted"
                    got = f(sp)
                elif self.rng.random() < 0.5:
                    got = f(cont, spectrum_type=pair[0], unit=pair[1])
                else:
                    got = f(Spectrum(cont, spectrum_type=pair[0], unit=pair[1]))
                if not (type(keep) is type(cont) and np.array_equal(keep, cont)):
                    raise Mismatch(what + ": the caller's values were modified")
            tile = 400 if op.get("c") == "tiled" else 1
            res = self.results(got, cont, len(op["res"]) * tile, what)
            if tile > 1:
                rows = np.reshape(got, (tile, -1))
                if not (abs(rows - rows[0]) <= 1e-12 * (1 + abs(rows[0]))).all():
                    raise Mismatch(what + ": equal positions of a long vector have different values")
                res = res[:len(op["res"])]
            for s, g in zip(op["res"], res):
                self.compare(s, g, unit, what)
            # results belong to the caller: scribbling on them must not matter, and they stay what they are
            if isinstance(got, np.ndarray) and self.rng.random() < .5:
                if got.flags.writeable:
                    got[...] = 1e9
            elif isinstance(got, np.ndarray):
                self.kept = self.kept[-9:] + [(got, got.copy(), what)]
        elif n == "mix":
            cls = {"Simple": Simple, "MaxwellGarnett": MaxwellGarnett, "Bruggeman": Bruggeman}[op["rule"]]
            cls(self.shared[op["s"]], self.m[op["o1"]], self.m[op["o2"]], self.rng.choice([0.0, 0.3, 1.0]))
        elif n == "range":
            self.m[op["o"]].get_maximum_valid_range()
        elif n == "sample":
            self.m[op["o"]].get_sample_spectrum()
        elif n == "plot":
            fig = plt.figure()
            try:
                self.m[op["o"]].plot_nk_data(values=np.array([self.pos[1], self.pos[4]]), spectrum_type="wavelength", unit="nm")
                self.m[op["o"]].plot_permittivity()
                sp, u = self.rng.choice([("energy", "ev"), ("wavelength", "um"), ("frequency", "Hz")])
                self.m[op["o"]].plot_nk_data(values=np.array([nm_to((sp, u.lower()), self.pos[k]) for k in (2, 5)]), spectrum_type=sp, unit=u)
                self.m[op["o"]].plot_permittivity(spectrum_type=sp, unit=u)
            finally:
                plt.close(fig)
        elif n == "write":
            p = os.path.join(SCRATCH, "purity_out.yml")
            try:
                w = Writer(p, self.m[op["o"]])
                w.write_file()
            except Exception:
                pass    # whether a material can be written is the subject of C14
        elif n == "compare":
            self.m[op["o1"]] == self.m[op["o2"]]
        elif n == "remove":
            self.m[op["o"]].remove_absorption()
        elif n == "extrapolate":
            self.m[op["o"]].extrapolate(self.exts[op["s"]])
        elif n == "refill":
            self.refill()
        self.untouched(what)


def run(chk):
    q = lambda l: ", ".join('"%s"' % x for x in l)
    names = list(KINDS)
    groups = [["tab_nk", "tab_nk_twin", "sharer"], ["mixed", "sharer", "fixed_nk"], ["fixed_eps", "model", "model_twin"], ["drude", "tab_eps_ev", "mixed"],
              ["tauc", "eff", "file"], ["tab_nalpha", "exotic", "gases"], ["rii", "tab_nk", "mixed"],
              ["sellmeier2", "polynomial", "cauchy"], ["herzberger", "retro", "drudelorentz"], ["simple", "garnett", "tab_n"], ["yaml", "model", "tab_n"]]
    if chk.thorough:
        groups += [["tab_nk", "mixed", "model", "eff"], ["tauc", "drude", "tab_nalpha", "file"]]
    for objs in groups:
        cfg = CFG % (q(objs), q([o for o in objs if KINDS[o][0]]), q([o for o in objs if KINDS[o][1]]))
        r = chk.tlc("PurityMC", cfg, label="objects " + " ".join(objs), workers=4)
        g = Graph(r.edges)
        init = g.init([{o: 0 for o in objs}, {o: False for o in objs}])
        ad = Purity(chk, objs)
        w = {"plot": 0.6, "remove": 3.0, "extrapolate": 3.0, "mix": 0.6, "eval": 0.2, "evalshared": 2.0, "write": 1.5, "refill": 2.0}
        for walk in g.random_walks(init, chk.pick(22, 600), 40, chk.rng, weight=lambda o: w.get(o["n"], 1.0)):
            chk.replay_walk(ad, walk, "purity")
        chk.sample({"objects": objs, "walk": [{k: v for k, v in o.items() if k != "res"} for o in walk[:6]]}, 3)
        # every query form on the initial versions
        first = [o for f, o, t in g.edges if f == init and o["n"] in ("eval", "evalshared")]
        for k in range(chk.pick(1, 4)):
            chk.rng.shuffle(first)
            chk.replay_walk(ad, first, "purity of queries")
    ad.reset()
    o = copy.deepcopy(next(o for o in first if o["n"] == "eval" and len(o["v"]) > 1 and len(set(o["v"])) == len(o["v"])))
    ad.step(o)
    o["res"][0], o["res"][1] = o["res"][1], o["res"][0]
    try:
        ad.step(o); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "swapped elements")
