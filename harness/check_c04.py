import copy, warnings, math
import numpy as np
from vlib import *
from physics import *
from mats import NAMES, dress
from dispersion import Material, Spectrum, Interpolation
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Grids <- %s
 RowOrders = {%s}
 Sources = {"Interpolation", "tabulated_n", "tabulated_nk", "tabulated_eps", "tabulated_n_alpha"}
 Orders = {0, 1, 2, 3, 4, 5}
 TablePairs <- %s
 QueryPairs <- %s
 Den = 12
INVARIANT Convex
ACTION_CONSTRAINT Emit
"""


class Table:
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng

    def reset(self):
        self.info = {}

    def describe(self):
        return {k: repr(v) for k, v in self.info.items()}

    def step(self, op):
        getattr(self, op["n"])(op)

    def build(self, op):
        rng = self.rng
        self.pair = tuple(op["pair"])
        a = ANCHOR[self.pair[1]]
        self.base = float("%.6g" % (a * rng.uniform(0.8, 1.2)))
        self.tick = float("%.3g" % (a * rng.uniform(0.003, 0.02)))
        whole = rng.random() < 0.25            # a table of whole numbers, possibly held as integers
        if whole and a >= 100:
            self.base, self.tick = float(round(self.base)), float(max(1, round(self.tick)))
        self.src, self.ord = op["src"], op["ord"]
        n = len(op["grid"])
        ncol = 1 if self.src in ("Interpolation", "tabulated_n") else 2
        xs = np.array([self.abscissa(g) for g in op["grid"]])
        self.poly = None
        if op["data"] == "poly":
            self.poly = [[round(rng.uniform(-1, 1), 3) for _ in range(op["ord"] + 1)] for _ in range(ncol)]
            for c in self.poly:
                c[0] += 3.0
            ys = np.array([[self.pval(c, g) for c in self.poly] for g in op["grid"]])
        else:
            ys = np.array([[round(rng.uniform(0.1, 4.0), rng.choice([1, 4, 12])) for _ in range(ncol)] for _ in op["grid"]])
            if whole:
                ys = np.ceil(ys)
        self.ys = ys
        t = np.column_stack([xs, ys])[[i - 1 for i in op["arrange"]]]
        if op["data"] == "free" and self.ord == 1 and n > 1 and self.src != "tabulated_n_alpha" and not whole and rng.random() < .15:
            t = self.refine(t, rng.choice([150, 1200, 4000]))
        t = dress(rng, t)
        given = t.copy()
        name = rng.choice([NAMES[self.pair[1]], self.pair[1]])
        kw = dict(spectrum_type=self.pair[0], unit=name)
        self.info["table"] = (self.src, t.tolist()[:300], len(t), kw, self.ord)
        if self.src == "Interpolation":
            self.obj = Interpolation(t, interp_order=self.ord, **kw)
        else:
            if self.ord != 1 or rng.random() < 0.5:
                kw["interp_order"] = self.ord
            self.mat = Material(**{self.src: t}, **kw)
        self.t, self.given = t, given
        self.n = n

    def refine(self, t, m):
        """many further rows on the straight lines between the rows: the same curve"""
        s = t[np.argsort(t[:, 0])]
        x = np.setdiff1d(s[0, 0] + (s[-1, 0] - s[0, 0]) * np.array([self.rng.uniform(.001, .999) for _ in range(m)]), s[:, 0])
        if np.min(np.diff(np.sort(np.append(x, s[:, 0])))) < 1e-9 * self.tick:
            return t
        new = np.column_stack([x] + [np.interp(x, s[:, 0], s[:, c]) for c in range(1, s.shape[1])])
        t = np.vstack([t, new])
        how = self.rng.choice(["asc", "desc", "any"])
        if how == "any":
            i = list(range(len(t)))
            self.rng.shuffle(i)
            return t[i]
        return t[np.argsort(t[:, 0])][::1 if how == "asc" else -1]

    def abscissa(self, g):
        return self.base + g * self.tick

    def pval(self, c, g):
        u = g / 10.0
        return sum(a * u ** i for i, a in enumerate(c))

    def evaluate(self, cont, pair):
        spec = Spectrum(cont, spectrum_type=pair[0], unit=pair[1])
        if self.src == "Interpolation":
            return [self.obj.evaluate(spec)]
        if self.src == "tabulated_n":
            g = self.mat.get_nk_data(spec)
            if np.any(np.imag(g) != 0):
                raise Mismatch("k of an n table is %r" % (g,))
            return [np.real(g)]
        if self.src == "tabulated_eps":
            g = self.mat.get_permittivity(spec)
        else:
            g = self.mat.get_nk_data(spec)
        return [np.real(g), np.imag(g)]

    def to_query(self, x, pair):
        if pair == self.pair:
            return x
        from_nm = self.to_nm(x)
        return nm_to(pair, from_nm)

    def to_nm(self, x):
        t, u = self.pair
        if t == "wavelength":
            return x * {"m": 1e9, "cm": 1e7, "um": 1e3, "nm": 1.0, "a": 0.1}[u]
        return nm_to(self.pair, 1.0) / x

    def want(self, e, col, g):
        if e["k"] == "knot":
            y = self.ys[e["i"] - 1, col]
        elif e["k"] == "lin":
            w = e["num"] / e["den"]
            y = self.ys[e["i"] - 1, col] * (1 - w) + self.ys[e["i"], col] * w
        elif e["k"] == "poly":
            y = self.pval(self.poly[col], g)
        else:
            return None
        if self.src == "tabulated_n_alpha" and col == 1:
            return None     # k = alpha*lambda/4pi is C07's subject, except at the knots
        return y

    def check(self, got, e, g, pair):
        for col, v in enumerate(got):
            w = self.want(e, col, g)
            if self.src == "tabulated_n_alpha" and col == 1 and e["k"] in ("knot", "lin") and self.poly is None:
                k = lambda i: self.ys[i, 1] * self.to_nm(self.abscissa_of[i]) * 1e-7 / (4 * math.pi)
                i = e["i"] - 1
                w = k(i) if e["k"] == "knot" else k(i) * (1 - e["num"] / e["den"]) + k(i + 1) * e["num"] / e["den"]
            if w is None:
                continue
            self.chk.cov["values_compared"] += 1
            tol = 1e-11 * (1 + abs(w)) if e["k"] != "poly" else 1e-8 * (1 + abs(w))
            if pair != self.pair:
                tol += 60 * (0.51 * ROUND[self.pair[1]] + 1e-14 * self.base) / self.tick
            if not abs(v - w) <= tol:
                raise Mismatch("value %r at %r %s (table tick %s), specification says %r (%s)" % (v, g, pair, g, w, e))

    def common(self, op, xs, exps):
        pair = tuple(op["q"])
        self.abscissa_of = sorted(self.given[:, 0])
        gs = [x / op["den"] for x in xs]
        q = [self.to_query(self.abscissa(g) if x % op["den"] else float(self.abscissa_of_tick(g)), pair) for x, g in zip(xs, gs)]
        return pair, gs, q

    def abscissa_of_tick(self, g):
        return self.abscissa(int(round(g)))

    def query(self, op):
        pair, gs, q = self.common(op, [op["x"]], None)
        r = self.rng.random()
        if r < 0.5:
            got = self.evaluate(float(q[0]), pair)
            got = [float(x) for x in got]
        elif r < 0.6:       # among many values
            n = self.rng.choice([60, 300, 1100, 5000])
            got = self.evaluate(np.array(q * n), pair)
            if any(np.shape(x) != (n,) for x in got):
                raise Mismatch("%d values gave %r" % (n, [np.shape(x) for x in got]))
            got = [float(x[self.rng.randrange(n)]) for x in got]
        else:
            got = [float(x[0]) for x in self.evaluate(np.array(q), pair)]
        self.info["last"] = (pair, q, got)
        self.check(got, op["exp"], gs[0], pair)
        self.untouched()

    def queryall(self, op):
        pair, gs, q = self.common(op, op["xs"], None)
        cont = np.array(q) if self.rng.random() < 0.7 else list(q)
        if self.rng.random() < 0.2:
            cont = np.tile(q, self.rng.choice([10, 60, 300]))
        cols = self.evaluate(cont, pair)
        self.info["last"] = (pair, q, cols)
        for i, (e, g) in enumerate(zip(op["exp"], gs)):
            self.check([float(c[i]) for c in cols], e, g, pair)
        self.untouched()

    def queryone(self, op):
        pair = tuple(op["q"])
        x = self.given[0, 0] + op["d"] * self.tick
        cont = self.to_query(float(x), pair)
        if self.rng.random() < 0.5:
            cont = np.array([cont])
        try:
            got = self.evaluate(cont, pair)
            res = "ok"
        except ValueError:
            res = "ValueError"
        if res != op["res"]:
            raise Mismatch("one-row table at %r gave %s, specification says %s" % (cont, res, op["res"]))
        if res == "ok":
            self.abscissa_of = [self.given[0, 0]]
            self.check([float(np.squeeze(c)) for c in got], {"k": "knot", "i": 1}, 0, pair)
        self.untouched()

    def untouched(self):
        if not np.array_equal(self.t, self.given):
            raise Mismatch("the caller's table was modified")


def run(chk):
    ad = Table(chk)
    cfg = CFG % ("G2", chk.pick('"asc", "desc", "rot", "evenodd"', '"asc", "desc", "rot", "swap", "evenodd"'),
                 chk.pick("P1", "Pairs"), "Q1")
    r = chk.tlc("TableMC", cfg, label="tables x arrangements x queries", workers=4)
    # several builds lead to the same abstract table, so walk: build, then its queries
    by = defaultdict(list)
    builds = []
    for e in r.edges:
        if e["o"]["n"] == "build":
            builds.append((e["o"], key(e["t"])))
        else:
            by[key(e["f"])].append(e["o"])
    for rep in range(chk.pick(1, 3)):
        for b, k in builds:
            qs = by[k]
            walk = [b] + (qs if chk.thorough else chk.rng.sample(qs, min(len(qs), 14)) + [q for q in qs if q["n"] == "queryall"])
            chk.replay_walk(ad, walk, "table")
            chk.sample({"build": b, "query": qs[0]}, 3)
    b, k = next((b, k) for b, k in builds if b["data"] == "free" and b["ord"] == 1 and b["src"] == "Interpolation" and len(b["grid"]) > 2)
    q = copy.deepcopy(next(q for q in by[k] if q["n"] == "query" and q["exp"]["k"] == "lin"))
    q["exp"]["num"] = q["exp"]["den"] - q["exp"]["num"] + 1
    for _ in range(100):                      # a table whose values differ from row to row
        ad.reset(); ad.step(b)
        if np.min(np.abs(np.diff(ad.ys[:, 0]))) > 0.5:
            break
    try:
        ad.step(q); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "interpolation weight")
