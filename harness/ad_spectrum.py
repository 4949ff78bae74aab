"""replays Spectrum.tla behaviours on dispersion.Spectrum"""
import math, copy
import numpy as np
from dispersion import Spectrum
from physics import *
from vlib import Mismatch

RTOL = 1e-12
TILE = 500


class SpectrumAdapter:
    def __init__(self, chk, names=False):
        self.chk, self.rng, self.names = chk, chk.rng, names

    def reset(self):
        self.obj = None
        self.env = {}
        self.info = {}

    def describe(self):
        return {k: repr(v) for k, v in self.info.items()}

    def bind(self, vec, unit):
        env = {}
        a = ANCHOR[unit]
        for tok in vec["v"]:
            if tok in env or tok in ("zero", "inf"):
                continue
            if tok[0] == "i":
                env[tok] = INTS[unit] * self.rng.randint(1, 9)
            elif tok[0] == "w":
                env[tok] = float("%.6g" % (a * 10 ** self.rng.uniform(-9, 9)))
            else:
                env[tok] = float("%.*g" % (self.rng.choice([2, 4, 8, 16]), a * 10 ** self.rng.uniform(-1.3, 1.3)))
        num = lambda t: 0.0 if t == "zero" else math.inf if t == "inf" else env[t]
        vals = [num(t) for t in vec["v"]]
        k = vec["kind"]
        if k == "float":
            c = vals[0]
        elif k == "list":
            c = list(vals)
        elif k == "tuple":
            c = tuple(vals)
        elif k == "farray":
            c = np.array(vals, dtype=float)
        elif k == "tiled":
            c = np.tile(np.array(vals, dtype=float), TILE)
        elif k == "grid":
            c = np.array(vals, dtype=float).reshape(2, -1)
        elif k == "iarray":
            c = np.array([int(x) for x in vals], dtype=np.int64)
        elif k == "ilist":
            c = [int(x) for x in vals]
        self.env = env
        return c

    def step(self, op):
        n = op["n"]
        if n == "create":
            self.create(op)
            return
        before = self.snap()
        if n == "refill":
            if isinstance(self.container, np.ndarray):
                self.container[...] = self.rng.choice([3, 8])
            elif isinstance(self.container, list):
                self.container[:] = [1.25] * len(self.container)
            self.container_copy = copy.deepcopy(self.container)
            if not self.unchanged(before):
                raise Mismatch("the caller filled its own container anew and the spectrum changed: %r -> %r" % (before, self.snap()))
            self.observe(op["obs"])
            return
        t, u = style(op["t"], op["style"]), style(op["u"], op["style"])
        try:
            got = self.obj.convert_to(t, u, in_place=True) if n == "inplace" else self.obj.convert_to(t, u)
            res = "ok"
        except ValueError:
            res, got = "ValueError", None
        self.info["last"] = (n, t, u, res, got)
        if res != op["res"]:
            raise Mismatch("convert_to(%r, %r) gave %s, specification says %s" % (t, u, res, op["res"]))
        if n == "convert" and res == "ok":
            if op["own"]:
                if not same(got, before[0]):
                    raise Mismatch("own unit not exact: %r -> %r" % (before[0], got))
            self.compare(got, op["values"], tuple(op["pair"]), "convert_to(%s,%s)" % (t, u))
            if op["use"] == "overwrite" and isinstance(got, np.ndarray):
                got[...] = self.rng.choice([-1.0, 0.0, 7.5])
        if not (n == "inplace" and res == "ok"):
            if not self.unchanged(before):
                raise Mismatch("%s (%s) changed the spectrum: %r -> %r" % (n, res, before, self.snap()))
        self.observe(op["obs"])
        if not same(self.container, self.container_copy):
            raise Mismatch("the caller's container was modified: %r -> %r" % (self.container_copy, self.container))

    def create(self, op):
        t, u = style(op["t"], op["style"]), style(op["u"], op["style"])
        c = self.bind(op["vec"], op["pair"][1] if op["res"] == "ok" else "nm")
        self.container, self.container_copy = c, copy.deepcopy(c)
        self.info["create"] = (t, u, c)
        try:
            self.obj = Spectrum(c, spectrum_type=t, unit=u)
            res = "ok"
        except ValueError:
            res = "ValueError"
        if res != op["res"]:
            raise Mismatch("Spectrum(%r, %r, %r) gave %s, specification says %s" % (c, t, u, res, op["res"]))
        if res == "ok":
            self.observe(op["obs"], exact=True)
            if not same(self.container, self.container_copy):
                raise Mismatch("construction modified the caller's container")
        else:
            self.obj = None

    def snap(self):
        return (copy.deepcopy(self.obj.values), self.obj.spectrum_type, self.obj.unit)

    def unchanged(self, before):
        v, t, u = before
        return same(self.obj.values, v) and self.obj.spectrum_type == t and self.obj.unit == u

    def observe(self, obs, exact=False):
        if (self.obj.spectrum_type, self.obj.unit) != tuple(obs["pair"]):
            raise Mismatch("spectrum is %s/%s, specification says %s" % (self.obj.spectrum_type, self.obj.unit, obs["pair"]))
        self.compare(self.obj.values, obs["values"], tuple(obs["pair"]), "values")
        t, sym = obs["label"]
        lab = self.obj.get_type_unit_string()
        want = {"%s (%s)" % (t, s) for s in SYMBOL.get(sym, {sym})}
        if lab not in want:
            raise Mismatch("label %r, specification says %r" % (lab, sorted(want)))

    def compare(self, got, values, pair, what):
        want = [monomial(v, self.env) for v in values]
        kind = self.container
        scalar = isinstance(kind, float)
        if scalar:
            if np.ndim(got) != 0:
                raise Mismatch("%s: scalar became %r" % (what, got))
            g = [float(got)]
        else:
            if not isinstance(got, np.ndarray) or got.shape != np.shape(kind):
                raise Mismatch("%s: shape of %r, expected %d values" % (what, got, len(want)))
            if want and got.size > len(want):   # a long vector repeating its tokens
                rows = got.reshape(-1, len(want))
                with np.errstate(invalid="ignore"):
                    alike = (rows == rows[0]) | np.isclose(rows, rows[0], rtol=1e-14, atol=0)
                if not alike.all():
                    raise Mismatch("%s: equal values at different places of a long vector became different ones: %r" % (what, rows[~alike.all(axis=1)][0]))
                got = rows[0]
            g = [float(x) for x in np.ravel(got)]
        atol = 0.51 * ROUND[pair[1]]
        for a, b in zip(g, want):
            self.chk.cov["values_compared"] += 1
            if not close(a, b, RTOL, atol):
                raise Mismatch("%s in %s: got %r, specification says %r (inputs %r)" % (what, pair, a, b, self.env))


def same(a, b):
    if type(a) is not type(b) and not (isinstance(a, float) and isinstance(b, float)):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            try:
                return bool(np.array_equal(np.asarray(a, float), np.asarray(b, float)))
            except Exception:
                return False
    return bool(np.array_equal(np.asarray(a), np.asarray(b)))
