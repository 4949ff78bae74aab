import math
import numpy as np
from vlib import Mismatch
from physics import *
from mats import *


class Ranges:
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng

    def reset(self):
        self.mat = None
        self.log = []

    def describe(self):
        return {"log": self.log[-12:]}

    def step(self, op):
        n = op["n"]
        if n == "construct":
            self.construct(op["m"])
        elif n == "query":
            self.query(op)
        elif n == "report":
            self.report(op)
        elif n == "remove":
            self.mat.remove_absorption()
            self.obj = None
        elif n == "replace":
            self.mat.data[op["side"]] = spectral_part(self.rng, op["part"])
            self.obj = None
        elif n == "extrapolate":
            self.extrapolate(op)

    def construct(self, m):
        rp, ip = m["real"], m["imag"]
        self.parts = None
        self.cplx = m["cplx"]
        self.mat = material_from_part(self.rng, rp)
        if ip["k"] != "const" and ip != rp:
            self.mat.data["imag"] = spectral_part(self.rng, ip)
        # the bare spectral data, queried without a Material around it
        self.obj = self.mat.data["complex"] if m["cplx"] else (
            self.mat.data["real"] if ip["k"] == "const" or ip == rp else None)
        self.log.append(("construct", m))

    def query(self, op):
        pair = tuple(op["q"])
        vec = list(op["vec"])
        if op.get("fill"):
            a, b = sorted(vec[1:3])
            vec += [self.rng.randint(a, b) for _ in range(self.rng.choice([60, 300, 1200, 3000]))]
        if len(vec) > 3 or -1 in vec:       # the verdict does not depend on the order (PositionIrrelevant)
            self.rng.shuffle(vec)
        spec = spectrum_of(pair, vec, op["scalar"], self.rng.choice(["array", "list"]))
        if not op["scalar"] and op["res"] == "ValueError" and self.rng.random() < .6:
            self.decoy(spec, pair)
        calls = []
        if op["what"] == "nk":
            calls.append(("get_nk_data", lambda: self.mat.get_nk_data(spec)))
            calls.append(("get_nk_data(values)", lambda: self.mat.get_nk_data(spec.values, spectrum_type=pair[0], unit=NAMES[pair[1]])))
        else:
            calls.append(("get_permittivity", lambda: self.mat.get_permittivity(spec)))
            if self.obj is not None:
                calls.append(("evaluate", lambda: self.obj.evaluate(spec)))
        for name, call in calls:
            try:
                got = call()
                res = "ok"
            except ValueError as exc:
                res, got = "ValueError", exc
            self.chk.cov["values_compared"] += 1
            if op["res"] != "either" and res != op["res"]:
                raise Mismatch("%s at %r %s gave %s, specification says %s" % (
                    name, spec.values, pair, res if res != "ok" else "values %r" % (got,), op["res"]))
            if res == "ok" and np.shape(got) != np.shape(spec.values):
                raise Mismatch("%s returned %r for %r" % (name, got, spec.values))

    def decoy(self, spec, pair):
        """a query before this one that resembles it: as many values, and the same mean, first, last or middle value"""
        v = np.asarray(spec.values, float)
        v0 = v[np.isfinite(v)]
        if not v0.size:
            return
        mean = float(np.mean(v))
        like = [np.full(v.shape, x) for x in (mean, v[0], v[-1], v[v.size // 2]) if np.isfinite(x)]
        like.append(np.where(np.arange(v.size) % 2 == 0, mean * .999, mean * 1.001))
        for d in self.rng.sample(like, self.rng.choice([1, 1, len(like)])):
            s = Spectrum(d, spectrum_type=pair[0], unit=NAMES[pair[1]])
            for call in [self.mat.get_nk_data, self.mat.get_permittivity] + ([self.obj.evaluate] if self.obj is not None else []):
                try:
                    call(s)
                except ValueError:
                    pass

    def suggestion(self, part, data):
        """the suggested spectrum of one part spans its own range"""
        if part["lo"] == 0 or part["hi"] == 2147483647:
            return
        pair = tuple(part["p"])
        s = data.suggest_spectrum()
        v = np.asarray(s.values, float)
        want = bounds(pair, part["lo"], part["hi"])
        self.chk.cov["values_compared"] += 1
        if s.spectrum_type != pair[0] or s.unit != pair[1]:
            raise Mismatch("suggested spectrum in %s/%s, data in %s" % (s.spectrum_type, s.unit, pair))
        if not (v.size > 10 and np.all(np.diff(v) > 0) and close(v[0], want[0], 5e-9) and close(v[-1], want[1], 5e-9)):
            raise Mismatch("suggested spectrum spans %r..%r, the range is %r" % (v[0], v[-1], want))
        if np.shape(data.evaluate(s)) != v.shape:
            raise Mismatch("suggested spectrum of %d values evaluated to shape %r" % (v.size, np.shape(data.evaluate(s))))

    def report(self, op):
        if op["cplx"]:
            self.suggestion(op["real"], self.mat.data["complex"])
        else:
            for side in ("real", "imag"):
                self.suggestion(op[side], self.mat.data[side])
        r = self.mat.get_maximum_valid_range()
        pair = tuple(op["def"])
        if len(r) != 2 or not r[0] <= r[1]:
            raise Mismatch("reported range %r is not (lower, upper)" % (r,))
        if op["unb"]:
            if not (r[0] == 0.0 and math.isinf(r[1])):
                raise Mismatch("reported range %r of unbounded material" % (r,))
            s = self.mat.get_sample_spectrum()
            nm = np.asarray(s.convert_to("wavelength", "nm"), float)
            if not (abs(nm.min() - 100) < 1e-6 and abs(nm.max() - 2000) < 1e-5 and np.all(np.diff(nm) > 0)):
                raise Mismatch("sample spectrum of an unbounded material spans %r..%r" % (nm.min(), nm.max()))
            self.mat.get_nk_data(s)
            return
        want = bounds(pair, op["lo"], op["hi"])
        for a, b in zip(r, want):
            if not close(float(a), b, 5e-9):
                raise Mismatch("reported range %r in %s, specification says %r" % (list(r), pair, want))
        inner = np.array([r[0] * (1 + 1e-7), r[1] * (1 - 1e-7), 0.5 * (r[0] + r[1])])
        self.mat.get_nk_data(Spectrum(inner, spectrum_type=pair[0], unit=NAMES[pair[1]]))
        self.mat.get_permittivity(Spectrum(np.array([r[0], r[1]]), spectrum_type=pair[0], unit=NAMES[pair[1]]))
        for v in (r[0] * (1 - 1e-6), r[1] * (1 + 1e-6), r[0] * 0.5, r[1] * 2):
            try:
                g = self.mat.get_nk_data(Spectrum(float(v), spectrum_type=pair[0], unit=NAMES[pair[1]]))
            except ValueError:
                continue
            raise Mismatch("evaluated at %r beyond the reported range %r: %r" % (v, list(r), g))
        s = self.mat.get_sample_spectrum()
        if s.spectrum_type != pair[0] or s.unit != pair[1]:
            raise Mismatch("sample spectrum in %s/%s, material in %s" % (s.spectrum_type, s.unit, pair))
        v = np.asarray(s.values, float)
        if not (np.all(np.diff(v) > 0) and close(v[0], want[0], 5e-9) and close(v[-1], want[1], 5e-9) and v.size > 10):
            raise Mismatch("sample spectrum spans %r..%r, range is %r" % (v[0], v[-1], want))
        ev = self.mat.get_nk_data(s)
        if np.shape(ev) != v.shape:
            raise Mismatch("sample spectrum of %d values evaluated to shape %r" % (v.size, np.shape(ev)))

    def extrapolate(self, op):
        pair = tuple(op["q"])
        vals = op["vals"]
        spec = spectrum_of(pair, vals, scalar=len(vals) == 1 and self.rng.random() < 0.7)
        try:
            self.mat.extrapolate(spec, spline_order=self.rng.choice([1, 2, 3]))
            res = "ok"
        except ValueError:
            res = "ValueError"
        except NotImplementedError:
            res = "NotImplementedError"
        self.log.append(("extrapolate", pair, list(np.atleast_1d(spec.values)), res))
        if res != op["res"]:
            raise Mismatch("extrapolate to %r %s gave %s, specification says %s" % (spec.values, pair, res, op["res"]))
        self.obj = None if res == "ok" else self.obj
