import copy, warnings, os
import numpy as np
from vlib import *
from mats import MODEL_PAR
from dispersion import Material, Spectrum, Writer
from dispersion.material import Simple, Bruggeman, MaxwellGarnett
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Origins <- %s
 Keys = {%s}
 Values = {%s}
 Others = {%s}
 N = %d
 MaxEdits = %d
INVARIANT Equivalence
PROPERTY Separates
ACTION_CONSTRAINT Emit
"""
q = lambda l: ", ".join('"%s"' % x for x in l)
OTHERS = ["none", "string", "number", "dict", "list", "object", "spectrum", "lookalike", "class", "array", "nan"]
TEXTKEYS = {"Reference": "REFERENCES", "Comment": "COMMENTS", "Name": "NAME", "FullName": "FULLNAME", "Author": "AUTHOR"}
YAMLKEYS = {"Reference": "REFERENCES", "Comment": "COMMENTS", "Name": "NAME", "FullName": "FULLNAME", "Author": "AUTHOR"}
WORDS = ["gold", "Au", "n = 1.5", "λ/2", "Name", "a b c", "Gold", "X. Y., 1999"]


class Lookalike:
    def __init__(self, m):
        self.meta_data, self.data = m.meta_data, m.data


class Equal:
    def __init__(self, chk, writer=True):
        self.chk, self.rng = chk, chk.rng
        self.n = 0

    def describe(self):
        return {"keys": self.keys, "values": self.vals, "origins": self.origins, "metadata": [repr(m.meta_data) for m in self.mats]}

    def reset(self):
        rng = self.rng
        self.mats, self.origins = [], []
        a, b = rng.sample(sorted(TEXTKEYS), 2)
        self.keys = {"k1": a, "k2": b, "spec": "Specification", "own": rng.choice(["Doping", "zz", "name", "MyKey"]), "alias": "Alias", "meta": "MetaComment"}
        u, v = rng.sample(WORDS, 2)
        self.vals = {"empty": "", "u": u, "v": v}
        self.specs = {"empty": {}, "u": rng.choice([{"n_is_absolute": True}, {"t": 20}]), "v": rng.choice([{"t": 21}, {"t": 20, "x": None}])}

    def value(self, k, v):
        return copy.deepcopy(self.specs[v]) if k == "spec" else self.vals[v]

    def tab(self, cols):
        n = self.rng.randint(2, 4)
        return np.array([[400.0 + 100 * i] + [round(self.rng.uniform(.5, 3), 3) for _ in range(cols)] for i in range(n)])

    def make(self, op):
        rng, o = self.rng, op["o"]
        kw = dict(spectrum_type="wavelength", unit="nm")
        if o == "fixed_n":
            m = Material(fixed_n=rng.uniform(1, 2))
        elif o == "fixed_nk":
            m = Material(fixed_nk=complex(rng.uniform(1, 2), .1))
        elif o == "fixed_eps":
            m = Material(fixed_eps=complex(rng.uniform(1, 2), .1))
        elif o == "tab_nk":
            m = Material(tabulated_nk=self.tab(2), **kw)
        elif o == "tab_eps":
            m = Material(tabulated_eps=self.tab(2), **kw)
        elif o == "tab_alpha":
            m = Material(tabulated_n_alpha=self.tab(2), **kw)
        elif o in ("model_n", "model_eps"):
            nm = rng.choice(["Sellmeier", "Cauchy", "Retro"]) if o == "model_n" else rng.choice(["Drude", "DrudeLorentz"])
            m = Material(model_kw={"name": nm, "spectrum_type": "wavelength" if o == "model_n" else "energy", "unit": "um" if o == "model_n" else "ev",
                                   "valid_range": np.array([.4, 5.0]), "parameters": np.array(MODEL_PAR[nm])})
        elif o in ("simple", "bruggeman", "garnett"):
            c = {"simple": Simple, "bruggeman": Bruggeman, "garnett": MaxwellGarnett}[o]
            m = c(Spectrum(np.array([4e-7, 5e-7, 8e-7])), Material(fixed_eps=2 + .1j), Material(fixed_eps=3 + .2j), rng.uniform(.1, .9))
        else:
            self.n += 1
            p = os.path.join(SCRATCH, "eq%d%s" % (self.n % 7, rng.choice([".txt", ".nk", ".csv"]) if o == "text" else ".yml"))
            head = [(self.keys[k], self.value(k, v)) for k, v in op["meta"].items() if v != "-" and k in ("k1", "k2") and v != "empty"]
            if o == "text":
                sep = ", " if p.endswith(".csv") else " "
                with open(p, "w", encoding="utf-8") as fp:
                    fp.write("".join("%s %s: %s\n" % (";" if p.endswith(".nk") else "#", TEXTKEYS[k], v) for k, v in head))
                    fp.write("".join(sep.join(map(repr, map(float, r))) + "\n" for r in self.tab(2)))
            else:
                import yaml
                d = {YAMLKEYS[k]: v for k, v in head}
                if op["meta"].get("spec", "empty") != "empty":
                    d["SPECS"] = self.value("spec", op["meta"]["spec"])
                d["DATA"] = [{"DataType": "tabulated " + ("eps" if o == "yaml_eps" else "nk"), "Unit": "nm", "SpectrumType": "wavelength",
                              "Data": "".join(" ".join(map(repr, map(float, r))) + "\n" for r in self.tab(2))}]
                with open(p, "w", encoding="utf-8") as fp:
                    yaml.safe_dump(d, fp, allow_unicode=True)
            m = Material(file_path=p, **(kw if rng.random() < .5 else {}))
            os.remove(p)
            if o == "written":
                Writer(p, m).write_file()
                m = Material(file_path=p)
                os.remove(p)
        for k, v in op["meta"].items():     # entries a file of this kind cannot hold are given by assignment
            if v != "-" and m.meta_data[self.keys[k]] != self.value(k, v):
                if k in ("k1", "k2"):
                    raise Mismatch("metadata %s read from %s is %r, the file says %r" % (self.keys[k], o, m.meta_data[self.keys[k]], self.value(k, v)))
                m.meta_data[self.keys[k]] = self.value(k, v)
        self.mats.append(m)
        self.origins.append(o)

    def ask(self, a, b, want, what):
        for f, w in ((lambda: a == b, want), (lambda: a != b, not want), (lambda: b == a, want), (lambda: b != a, not want)):
            got = f()
            self.chk.cov["values_compared"] += 1
            if isinstance(got, np.ndarray) and b is not a and isinstance(b, np.ndarray):
                got = bool(got.any()) if w is False else bool(got.all())
            if bool(got) != w or not isinstance(got, (bool, np.bool_)):
                raise Mismatch("%s: comparison gave %r, specification says equal=%s" % (what, got, want))

    def step(self, op):
        n = op["n"]
        if n == "make":
            self.make(op)
        elif n == "edit":
            m = self.mats[op["i"] - 1]
            if op["v"] == "-":
                del m.meta_data[self.keys[op["k"]]]
            else:
                m.meta_data[self.keys[op["k"]]] = self.value(op["k"], op["v"])
        elif n == "use":
            m = self.mats[op["i"] - 1]
            if op["how"] == "evaluate":
                m.get_nk_data(np.array([5e-7, 4.5e-7])) if self.rng.random() < .5 else m.get_permittivity(Spectrum(5e-7))
            elif op["how"] == "range":
                m.get_maximum_valid_range()
            elif op["how"] == "remove":
                m.remove_absorption()
            elif op["how"] == "copy":
                c = copy.deepcopy(m)
                self.ask(m, c, True, "deep copy of %s" % self.origins[op["i"] - 1])
        elif n == "compare":
            i, j = op["i"] - 1, op["j"] - 1
            self.ask(self.mats[i], self.mats[j], op["eq"], "%s and %s" % (self.origins[i], self.origins[j]))
        else:
            m = self.mats[op["i"] - 1]
            x = {"none": None, "string": m.meta_data["Name"], "number": 1.5, "dict": m.meta_data, "list": [m], "object": object(),
                 "spectrum": Spectrum(5e-7), "lookalike": Lookalike(m), "class": Material, "array": np.array([1.0, 2.0]), "nan": float("nan")}[op["x"]]
            if op["x"] == "array":      # the reflected comparison belongs to numpy
                if m.__eq__(x) is not False:
                    raise Mismatch("material compared with an array: %r" % (m.__eq__(x),))
            else:
                self.ask(m, x, False, "material and " + op["x"])


def run(chk):
    ad = Equal(chk)
    init = lambda g: g.init([[], 0])
    r = chk.tlc("EqualMC", CFG % ("All", q(["k1"]), q(["empty", "u"]), q(OTHERS), 2, 0), label="pairs of origins", workers=4)
    g = Graph(r.edges)
    for walk in g.cover_walks(init(g), maxlen=30, rng=chk.rng):
        chk.replay_walk(ad, walk, "pair")
    sets = [("Few", ["k1", "own"], 2, chk.pick(2, 3)), ("Two", ["alias", "spec"], 2, chk.pick(2, 3)), ("Two", ["meta", "own"], 2, 2)] + \
        chk.pick([], [("Few", ["k1", "k2", "own"], 2, 3), ("Few", ["k1"], 3, 2)])
    for orig, keys, n, ed in sets:
        r = chk.tlc("EqualMC", CFG % (orig, q(keys), q(["empty", "u", "v"]), q(["none", "dict"]), n, ed), label="histories " + " ".join(keys), workers=4)
        g = Graph(r.edges)
        k = 0
        for walk in g.cover_walks(init(g), maxlen=40, rng=chk.rng):
            chk.replay_walk(ad, walk, "history")
            chk.sample({"walk": [(o["n"], o.get("o"), o.get("k"), o.get("eq")) for o in walk[:8]]}, 3)
            k += 1
            if k > chk.pick(1500, 8000):
                break
    c = copy.deepcopy(next(o for f, o, t in g.edges if o["n"] == "compare" and o["i"] != o["j"]))
    f0 = next(f for f, o, t in g.edges if o == c)
    mk = [o for f, o, t in g.edges if o["n"] == "make"][:1]
    ad.reset(); ad.step(mk[0]); ad.step(mk[0])
    c["eq"] = False; c["i"], c["j"] = 1, 2
    try:
        ad.step(c); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "equal materials reported unequal")
    chk.assumptions += ["metadata values are text, dictionaries of scalars or missing entries"]
