import copy, warnings, math
import numpy as np
from vlib import *
from physics import *
from mats import NAMES
import dispersion.spectral_data as sd
from dispersion import Material, Spectrum, Interpolation, Constant
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Starts <- %s
 Calls <- %s
 Orders = {%s}
 CallPairs <- CP
 Forms = {"float", "array", "list"}
 Ticks <- TickSet
 QueryPairs <- CP
 MaxHist = %d
PROPERTY Monotone
PROPERTY Atomic
PROPERTY Exact
ACTION_CONSTRAINT Emit
"""
OWN = [("wavelength", "nm"), ("wavelength", "um"), ("energy", "ev"), ("wavenumber", "1/cm"), ("frequency", "hz"), ("wavelength", "a")]


TOL = {0: 1e-6, 1: 1e-6, 2: 1e-6, 3: 1e-3, 4: 5e-3}
STAT = {} if os.environ.get("STAT") else None


class Extrap:
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng

    def describe(self):
        return {"own": getattr(self, "pair", None), "base": getattr(self, "base", None), "tick": getattr(self, "tick", None),
                "parts": repr(getattr(self, "poly", None)), "last": repr(getattr(self, "last", None))}

    def reset(self):
        self.mat, self.memo, self.poly, self.last = None, {}, {}, None

    def at(self, g):
        return self.base + g * self.tick

    def pval(self, c, g):
        return sum(a * (g / 10.0) ** i for i, a in enumerate(c))

    def convert(self, x, pair):
        if pair[0] == "own" or pair == self.pair:
            return x, self.pair
        t, u = self.pair
        nm = x * {"m": 1e9, "cm": 1e7, "um": 1e3, "nm": 1.0, "a": 0.1}[u] if t == "wavelength" else nm_to(self.pair, 1.0) / x
        return nm_to(pair, nm), pair

    def part(self, p, name):
        rng = self.rng
        if p["k"] == "const":
            c = [round(rng.uniform(0.2, 2), 3)]
            self.poly[name] = c
            return Constant(c[0])
        c = [round(rng.uniform(-1, 1), 3) for _ in range(p["deg"] + 1)]
        c[0] += 4.0
        self.poly[name] = c
        if p["k"] == "table":
            gs = sorted({p["lo"], p["hi"]} | {rng.randint(p["lo"], p["hi"]) for _ in range(8)} | {p["lo"] + 1, p["lo"] + 3, p["hi"] - 2})
            t = np.array([[self.at(g), self.pval(c, g)] for g in gs])
            return Interpolation(t, spectrum_type=self.pair[0], unit=self.pair[1], interp_order=max(1, p["deg"]))
        # a Cauchy formula with positive exponents is a polynomial in its own unit
        # pval in u=(x-base)/(10 tick): expand
        pol = np.polynomial.Polynomial(c)(np.polynomial.Polynomial([-self.base / (10 * self.tick), 1 / (10 * self.tick)]))
        co = list(pol.coef) + [0.0] * (p["deg"] + 1 - len(pol.coef))
        par = [co[0]]
        for i in range(1, len(co)):
            par += [co[i], float(i)]
        return sd.Cauchy(np.array(par), np.array([self.at(p["lo"]), self.at(p["hi"])]), spectrum_type=self.pair[0], unit=self.pair[1])

    def construct(self, op):
        rng = self.rng
        if op["cx"] == "complex":
            self.pair = ("energy", "ev")
            self.base, self.tick = 2.0, 0.02
            self.mat = Material(model_kw={"name": rng.choice(["Drude"]), "spectrum_type": "energy", "unit": "ev",
                                          "valid_range": np.array([self.at(0), self.at(10)]), "parameters": np.array([5.0, 0.1])})
            return
        self.pair = ("wavelength", "um") if op["re"]["k"] == "model" else rng.choice(OWN)
        a = ANCHOR[self.pair[1]]
        self.base = float("%.6g" % (a * rng.uniform(0.8, 1.2)))
        self.tick = float("%.3g" % (a * rng.uniform(0.005, 0.03)))
        if rng.random() < .3:       # far beyond the ends: to a fraction of the lower bound, to a multiple of the upper one
            self.tick = float("%.3g" % (self.base * rng.uniform(0.06, 0.108)))
        re, im = self.part(op["re"], "re"), self.part(op["im"], "im")
        name = rng.choice(["nk", "eps"])
        n = NAMES[self.pair[1]]
        if op["re"]["k"] == "table" and op["im"]["k"] == "const" and op["re"]["deg"] == 1 and rng.random() < .5:
            name = "nk"
            self.mat = Material(tabulated_n=re.data.copy(), spectrum_type=self.pair[0], unit=n)
            self.poly["im"] = [0.0]
        else:
            self.mat = Material(**{"fixed_n" if name == "nk" else "fixed_eps_r": 1.0}, spectrum_type=self.pair[0], unit=n)
            self.mat.data["real"], self.mat.data["imag"] = re, im
        self.name = name
        self.kinds = op["re"]["k"]

    def extrapolate(self, op):
        vals, pair = [], None
        for g in op["v"]:
            v, pair = self.convert(self.at(g), tuple(op["q"]))
            vals.append(v)
        cont = vals[0] if op["form"] == "float" else vals if op["form"] == "list" else np.array(vals)
        keep = copy.deepcopy(cont)
        s = Spectrum(cont, spectrum_type=pair[0], unit=pair[1])
        kept = copy.deepcopy((s.values, s.spectrum_type, s.unit))
        args = (s,) if op["ord"] == 2 and self.rng.random() < .5 else (s, op["ord"])
        self.last = (op, pair, vals)
        try:
            if len(args) == 2 and self.rng.random() < .5:
                self.mat.extrapolate(s, spline_order=op["ord"])
            else:
                self.mat.extrapolate(*args)
            res = "ok"
        except NotImplementedError:
            res = "NotImplementedError"
        except ValueError:
            res = "ValueError"
        if res != op["res"]:
            raise Mismatch("extrapolate(%r %s) gave %s, specification says %s" % (vals, pair, res, op["res"]))
        if type(kept[0]) is not type(s.values) or not np.array_equal(kept[0], s.values) or kept[1:] != (s.spectrum_type, s.unit) \
                or not np.array_equal(keep, cont):
            raise Mismatch("extrapolate changed the caller's spectrum")

    def value(self, g, pair):
        v, pair = self.convert(self.at(g), pair)
        v = v if self.rng.random() < .5 else np.array([v])
        s = Spectrum(v, spectrum_type=pair[0], unit=pair[1])
        f = self.mat.get_nk_data if self.name == "nk" else self.mat.get_permittivity
        return complex(np.squeeze(f(s))), v

    def query(self, op):
        g = op["x"]
        try:
            got, v = self.value(g, tuple(op["q"]))
            res = "ok"
        except ValueError:
            res = "ValueError"
        if res != op["res"]:
            raise Mismatch("evaluating tick %d in %s gave %s, specification says %s" % (g, op["q"], res, op["res"]))
        if res == "ok":
            self.check(g, got, op)

    def check(self, g, got, op):
        q = op["q"]
        self.last = ("query", g, q, got)
        self.chk.cov["values_compared"] += 1
        if not (math.isfinite(got.real) and math.isfinite(got.imag)):
            raise Mismatch("value %r at tick %d" % (got, g))
        for k, c, v, amp in ((op["re"], self.poly["re"], got.real, op["are"]), (op["im"], self.poly["im"], got.imag, op["aim"])):
            if k == "any":
                continue
            w = c[0] if k == "const" else self.pval(c, g)
            tol = TOL[amp]
            if STAT is not None:
                STAT.setdefault((amp, self.kinds), []).append(abs(v - w))
            if not abs(v - w) <= tol * (1 + abs(w)):
                raise Mismatch("value %r at tick %d (%s), specification says %r (%s)" % (v, g, q, w, k))
        # values that were available before are unchanged by later extrapolations
        if g in self.memo and not abs(self.memo[g] - got) <= 1e-5 * (1 + abs(got)):
            raise Mismatch("value at tick %d changed from %r to %r" % (g, self.memo[g], got))
        self.memo.setdefault(g, got)

    def sweep(self, op):
        if op["cx"] == "complex":
            r = self.mat.get_maximum_valid_range()
            if not np.allclose(r, [self.at(0), self.at(10)], rtol=1e-8):
                raise Mismatch("range of the complex model is now %r" % (r,))
            if not abs(self.mat.get_permittivity(Spectrum(2.1, "energy", "ev")) - (1 - 25 / (2.1 ** 2 + 0.21j))) < 1e-9:
                raise Mismatch("value of the complex model changed")
            return
        r = self.mat.get_maximum_valid_range()
        if op["unb"]:
            if not (r[0] == 0 and r[1] == np.inf):
                raise Mismatch("range of constants is %r" % (r,))
            return
        want = [self.at(op["lo"]), self.at(op["hi"])]
        if not np.allclose(r, want, rtol=2e-8, atol=0):
            raise Mismatch("reported range %r, specification says %r" % (r, want))
        # evaluate the whole range in one query and remember every value
        gs = [op["lo"] + i * (op["hi"] - op["lo"]) / 8 for i in range(9)]
        xs = [self.at(g) for g in gs]
        xs[0], xs[-1] = self.at(op["lo"]), self.at(op["hi"])
        f = self.mat.get_nk_data if self.name == "nk" else self.mat.get_permittivity
        got = f(Spectrum(np.array(xs[1:-1]), spectrum_type=self.pair[0], unit=self.pair[1]))
        for g, v in zip(gs[1:-1], got):
            if g in self.memo and not abs(self.memo[g] - v) <= 1e-6 * (1 + abs(v)):
                raise Mismatch("value at tick %s changed from %r to %r" % (g, self.memo[g], v))
            self.memo.setdefault(g, complex(v))
        for sgn, g in ((-1, op["lo"] - 0.01), (1, op["hi"] + 0.01)):
            try:
                f(Spectrum(self.at(g), spectrum_type=self.pair[0], unit=self.pair[1]))
            except ValueError:
                continue
            raise Mismatch("material valid at tick %s beyond the range %s..%s" % (g, op["lo"], op["hi"]))

    def step(self, op):
        getattr(self, op["n"])(op)


def explore(chk, ad, args, label, most):
    r = chk.tlc("ExtrapMC", CFG % args, label=label, workers=4)
    g = Graph(r.edges)
    init = g.init([{"cx": "none"}, 0])
    sweep = {f: o for f, o, t in g.edges if o["n"] == "sweep"}
    queries = defaultdict(list)
    muts = defaultdict(list)
    for f, o, t in g.edges:
        if o["n"] == "query":
            queries[f].append(o)
        elif o["n"] in ("construct", "extrapolate"):
            muts[f].append((o, t))
    rng = chk.rng

    def observe(s, n):
        qs = queries[s]
        out = rng.sample(qs, min(n, len(qs)))
        return out + ([sweep[s]] if s in sweep else [])

    # every extrapolation transition is taken from a state reached by a shortest history, with
    # observations before and after it
    prev, order = {init: None}, [init]
    for u in order:
        l = list(muts[u]); rng.shuffle(l)
        for o, t in l:
            if t not in prev:
                prev[t] = (u, o)
                order.append(t)
    todo = [(u, o, t) for u in order for o, t in muts[u] if o["n"] == "extrapolate"]
    rng.shuffle(todo)
    if not chk.thorough:
        todo = todo[:most]
    for u, o, t in todo:
        path, v = [], u
        while prev[v] is not None:
            path.append((prev[v][1], v)); v = prev[v][0]
        walk = []
        for a, s in reversed(path):
            walk.append(a)
            if rng.random() < .5 or s == u:
                walk += observe(s, 2)
        walk.append(o)
        walk += observe(t, chk.pick(4, 8))
        chk.replay_walk(ad, walk, "extrapolation")
        chk.sample({"walk": [(x["n"], x.get("v") or x.get("x"), x.get("res")) for x in walk]}, 3)
    return init, muts, todo


def run(chk):
    ad = Extrap(chk)
    explore(chk, ad, ("StartHigh", "CallHigh", "3, 4", chk.pick(1, 2)), "high orders", 700)
    init, muts, todo = explore(chk, ad, ("StartSet", chk.pick("CallSet", "CallBig"), "1, 2, 3", chk.pick(2, 3)), "extrapolation histories", 5500)
    if STAT:
        for k in sorted(STAT):
            print(k, len(STAT[k]), max(STAT[k]))
    chk.cov["extrapolation_transitions"] = len(todo)
    # fault injection: a shifted bound and a wrong outcome must be rejected
    c = next(o for o, t in muts[init] if o["cx"] == "sep" and o["re"]["k"] == "table" and o["im"]["k"] == "const")
    ad.reset(); ad.step(c)
    for bad in ({"n": "sweep", "unb": False, "cx": "sep", "lo": 0, "hi": 11},
                {"n": "extrapolate", "v": [5], "ord": 2, "q": ["own", "own"], "form": "float", "res": "ok"}):
        try:
            ad.step(bad); ok = False
        except (Mismatch, ValueError):
            ok = True
        chk.canary(ok, bad["n"])
    chk.assumptions += ["two values on the same side of the range, and one-row tables, are not extrapolated"]
