import copy, warnings, os
from collections import OrderedDict
import numpy as np
from vlib import *
from physics import *
from dispersion import Material, Spectrum
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 ArgSets <- All
INVARIANT OneSource
ACTION_CONSTRAINT Emit
"""
FULL = {"wavelength": "wavelength", "energy": "energy", "nm": "nanometer", "um": "micrometer", "ev": "electronvolt"}


class Array(np.ndarray):
    pass


class Text(str):
    pass


class Real(float):
    pass


class Dict(dict):
    pass


class Construct:
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng
        self.kept = []
        self.file = os.path.join(SCRATCH, "construct.txt")
        with open(self.file, "w") as fp:
            fp.write("# SPECTRUMTYPE: wavelength\n# UNIT: nm\n500 1.5 0.1\n600 1.6 0.2\n700 1.7 0.3\n")

    def describe(self):
        return {"kwargs": repr(getattr(self, "kw", None))}

    def reset(self):
        self.kept = []

    def value(self, s, cls, reads):
        """values of the documented type, or of a class derived from it"""
        v = self.plain(s, cls, reads)
        if cls == "ok" and self.rng.random() < .3:
            if isinstance(v, np.ndarray):
                return v.view(Array)
            if isinstance(v, dict):
                return self.rng.choice([OrderedDict, Dict])(v)
            if isinstance(v, str):
                return Text(v)
            if isinstance(v, float):
                return Real(v)
        return v

    def plain(self, s, cls, reads):
        rng = self.rng
        if cls == "type":
            pool = {"file_path": [1, b"x.txt", 2.5], "fixed_n": [1, "1.5", 1.5 + 0j, [1.5]], "fixed_nk": [1.5, 1, "1+1j", [1j]],
                    "fixed_eps_r": [2, "2", 2j, (2.0,)], "fixed_eps": [2.0, 2, "2", [2j]],
                    "model_kw": [[], "Sellmeier", 3, ("name",)]}.get(s)
            if pool is None:
                pool = [[[500., 1.5, 0.], [600., 1.5, 0.]], ((500., 1.5), (600., 1.6)), "table", 1.5, {"a": 1}]
            return rng.choice(pool)
        n = 2 if s == "tabulated_n" else 3
        if s.startswith("tabulated"):
            if cls == "shape":
                wrong = [k for k in (1, 2, 3, 4, 5) if k != n]
                return rng.choice([lambda: np.ones((4, rng.choice(wrong))), lambda: np.ones(n), lambda: np.ones((2, n, 2)),
                                   lambda: np.ones((n, rng.choice(wrong)))])()
            base = {"nm": 500.0, "um": 0.5, "ev": 2.0}.get(reads[1], 500.0)
            x = [base * (1 + 0.1 * i) for i in range(5)]
            cols = [[round(rng.uniform(0.5, 3), 3) for _ in x] for _ in range(n - 1)]
            return np.array([x] + cols).T
        if s == "file_path":
            return self.file
        if s in ("fixed_n", "fixed_eps_r"):
            return rng.choice([float, np.double])(rng.choice([0.0, 1.0]) if rng.random() < .25 else round(rng.uniform(0.5, 3), 3))
        if s in ("fixed_nk", "fixed_eps"):
            return rng.choice([complex, np.cdouble])(rng.choice([0.0, 1.0, 2.5, 0.5j]) if rng.random() < .25 else complex(round(rng.uniform(0.5, 3), 3), 0.25))
        return {"name": "Cauchy", "spectrum_type": "wavelength", "unit": "um", "valid_range": np.array([0.4, 0.9]), "parameters": np.array([1.5, 0.01, -2.0])}

    def option(self, cls, name):
        if cls == "type":
            return self.rng.choice([3, 1.5, ["nm"], b"nm"] if name != "io" else ["1", 1.0, [1], 2.5])
        if name == "io":
            return int(cls[1])
        return self.rng.choice([FULL[cls], cls]) if name == "un" else FULL[cls]

    def step(self, op):
        items = []
        for s in op["src"]:
            c = op["src"][s]
            if c != "absent":
                items.append((s, None if c == "none" else self.value(s, c, op["reads"])))
        for name, kwname in (("st", "spectrum_type"), ("un", "unit"), ("io", "interp_order")):
            c = op[name]
            if c != "absent":
                items.append((kwname, None if c == "none" else self.option(c, name)))
        self.rng.shuffle(items)
        self.kw = kw = dict(items)
        allowed = op["allowed"]
        mat = None
        try:
            mat = Material(**kw)
            res = "ok"
        except (ValueError, TypeError) as exc:
            res = type(exc).__name__ if type(exc) in (ValueError, TypeError) else "ValueError" if isinstance(exc, ValueError) else "TypeError"
        except Exception as exc:
            res = type(exc).__name__
        if res not in allowed:
            raise Mismatch("Material(%s) gave %s, specification allows %s" % (", ".join("%s=%r" % i for i in items), res, allowed))
        if mat is not None:
            src = next(s for s in op["src"] if op["src"][s] == "ok")
            probe = self.probe(mat, src, kw[src], op)
            self.kept.append((mat, probe, src, kw[src], op))
            self.kept = self.kept[-6:]
        # other materials are not affected by a construction, successful or not
        for m, p, src, v, o in self.kept:
            if self.probe(m, src, v, o) != p:
                raise Mismatch("constructing %r changed a material built before from %s" % (kw, src))

    def probe(self, mat, src, v, op):
        self.chk.cov["values_compared"] += 1
        if src.startswith("tabulated"):
            t, u = op["reads"]
            x = v[:, 0]
            got = mat.get_permittivity(Spectrum(x, t, u)) if src == "tabulated_eps" else mat.get_nk_data(Spectrum(x, t, u))
            if not np.allclose(np.real(got), v[:, 1], rtol=1e-9, atol=0):
                raise Mismatch("the %s table %r read as %s %s gives %r" % (src, v.tolist(), t, u, got))
            r = mat.get_maximum_valid_range()
            if not np.allclose(r, [x.min(), x.max()], rtol=1e-8):
                raise Mismatch("the %s table is valid over %r, not %r in %s %s" % (src, r, [x.min(), x.max()], t, u))
            # outside its range in that unit it must not be valid
            try:
                mat.get_nk_data(Spectrum(x.max() * 1.01, t, u))
            except ValueError:
                pass
            else:
                raise Mismatch("table valid beyond its last row")
            return [complex(g) for g in got]
        q = Spectrum(550.0, "wavelength", "nm")
        n, e = complex(mat.get_nk_data(q)), complex(mat.get_permittivity(q))
        want = {"file_path": lambda: (n, 1.55 + 0.15j), "fixed_n": lambda: (n, v), "fixed_nk": lambda: (n, v), "fixed_eps_r": lambda: (e, v),
                "fixed_eps": lambda: (e, v), "model_kw": lambda: (n, 1.5 + 0.01 * 0.55 ** -2)}[src]()
        # a cubic spline through the three points of the linear file data is the same line
        if abs(want[0] - want[1]) > 1e-9:
            raise Mismatch("%s=%r gives %r" % (src, v, want[0]))
        return n, e


def run(chk):
    r = chk.tlc("ConstructMC", CFG, label="argument combinations", workers=1)
    ad = Construct(chk)
    ops = [e["o"] for e in r.edges]
    # the file has three rows, which a spline of order 3 cannot interpolate
    ops = [o for o in ops if not (o["io"] == "o3" and o["src"]["file_path"] == "ok")]
    chk.cov["argument_combinations"] = len(ops)
    for rep in range(chk.pick(3, 30)):
        chk.rng.shuffle(ops)
        for i in range(0, len(ops), 200):
            chk.replay_walk(ad, ops[i:i + 200], "constructor")
    chk.sample(ops[0]); chk.sample(ops[1])
    bad = copy.deepcopy(next(o for o in ops if o["allowed"] == ["ok"] and o["src"]["tabulated_n"] == "ok" and o["reads"] == ["wavelength", "nm"]))
    bad["reads"] = ["energy", "ev"]
    try:
        ad.step(bad); ok = False
    except (Mismatch, ValueError):
        ok = True
    chk.canary(ok, "unit of the table")
