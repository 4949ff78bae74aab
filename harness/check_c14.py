import copy, warnings, os, json, math
import yaml
import numpy as np
from vlib import *
from physics import *
from mats import NAMES
from check_c05 import draw
from dispersion import Material, Spectrum, Writer
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Contents <- %s
 Metas <- %s
 Files <- %s
 Remake = %s
INVARIANT OnlyRepresentable
PROPERTY Idempotent FailureIsClean OthersUntouched
ACTION_CONSTRAINT Emit
"""
PAIR = {"um": ("wavelength", "um"), "nm": ("wavelength", "nm"), "ev": ("energy", "ev"), "hz": ("frequency", "hz"), "a": ("wavelength", "a"), "m": ("wavelength", "m")}
KEYS = ["Reference", "Author", "Name", "FullName", "Comment", "MetaComment"]
WORDS = ["gold", "J. Doe and R. Roe", "Phys. Rev. B 6, 4370 (1972)", "see http://a.b/c:d", "Müller, Ångström µm λ 金", "a # b", "12.5", "nan", "true", "null", "~", "2001-01-01",
         "key: value", "'quoted' \"text\"", "100% {0} %s \\n", "- dash", "[1, 2]", "{a: b}", "<a href=\"http://x.y/z?a=1&b=2\"><b>2</b></a><br>", "word " * 60 + "end", "1e3", "x;y;z", "!tag", "&anchor", "*ref", "UNIT: nm", "tab\tinside", "|", "0o17"]
COMMENTS = ["measured by ellipsometry", "first line\nsecond line", "a\n\nb", "see http://example.org\nnote: x", "# hash\n; semicolon", "Ünïcode λ\nindented:\n   by three", "1.0 2.0 3.0\n4.0 5.0 6.0",
            "DATA is below", "long " * 80 + "end", "---\n...", "- item\n- item", "%YAML 1.1"]
WORDS += ["42", "0", "-7", "1_000", "007", "1.", ".5", "+1", "0x1F", "yes", "No", "ON", "off", "False", "NULL", "None", ".inf", "-.INF", "infinity", "=", "<<", "?", "? x", ":", "::", ", x", "@x", "`x", "%x", "a: ", "a:", "x #", "#x", "12:30:45", "1:30",
          "nb\u00a0sp", "zero\u200bwidth", "emoji \U0001F52C", "a\\b", "'", '"', "''", "it's", "AUTHOR COPY", "the REFERENCE below", "NAME", "FULLNAME of it", "COMMENT", "NO COMMENT AUTHOR", "METACOMMENT", "DATA", "DATATYPE n k", "VALIDRANGE", "author", "Reference: none",
          "SPECTRUMTYPE wavelength", "UNIT", "1 2 3", "0.4 1.5 0.1", "a, b", "a|b", "a>b", "> folded", "| literal", "--", "---", "...", "!!str x", "a\u2028b", "form\x0cfeed", "next\x85line", "a\u2029b", "é", "é", "ＡＢ", "0.30000000000000004", "9" * 40, "x" * 300]
KEYWORDS = ["AUTHOR unknown", "the NAME is\nAUTHOR", "no REFERENCE\nCOMMENT follows", "42", "1.5", "true", "null", "2001-01-01", "UNIT nm", "DATATYPE\nDATA"]
MULTI = ["line one\nline two", "a\n\nb: c\n# d", "1) T. Author\n2) U. Author"]
LO, HI = 420.0, 780.0


class Store:
    def __init__(self, chk, style):
        self.chk, self.rng, self.style = chk, chk.rng, style
        self.base = os.path.join(SCRATCH, "store")
        self.n = 0
        self.decks = {}

    def describe(self):
        return {"content": {k: repr(v)[:2000] for k, v in self.refs.items()}, "meta": self.metas, "log": self.log}

    def reset(self):
        self.close()
        self.n += 1
        self.dir = os.path.join(self.base, "w%d" % self.n)
        os.makedirs(self.dir)
        self.refs, self.metas, self.log, self.flip, self.first = {}, {}, [], {}, {}
        self.mat = self.cur = None
        self.disk = {}
        self.spec = self.specification()

    def close(self):
        if getattr(self, "dir", None):
            shutil.rmtree(self.dir, ignore_errors=True)

    # ---- concrete contents
    def column(self, n):
        rng = self.rng
        kind = rng.choice(["plain", "plain", "precise", "scaled", "extreme", "special"] if self.style != "big" else ["precise", "scaled"])
        if kind == "plain":
            return [round(rng.uniform(0.1, 4), 3) for _ in range(n)]
        if kind == "precise":
            return [rng.uniform(0.1, 4) for _ in range(n)]
        if kind == "scaled":
            s = 10.0 ** rng.randint(-250, 250)
            return [rng.choice([-1, 1]) * rng.uniform(0.5, 4) * s for _ in range(n)]
        if kind == "extreme":
            return [rng.uniform(1, 9.9) * 10.0 ** rng.randint(-300, 150) for _ in range(n)]
        c = [rng.uniform(0.1, 4) for _ in range(n)]
        c[rng.randrange(n)] = rng.choice([math.nan, math.inf, 0.0, -0.0, 5e-324, 1.0, 1e22, 123456789012345680.0])
        return c

    def grid(self, unit, wide):
        rng = self.rng
        n = rng.choice([2, 2, 3, 5, 12, 40]) if self.style != "big" else rng.choice([501, 501, 700, 1001, 1300] if self.rng.random() < .95 else [2500])
        if not wide:
            nms = [LO] + sorted(rng.uniform(LO + 1, HI - 1) for _ in range(n - 2)) + [HI]
            xs = [nm_to(PAIR[unit], w) for w in nms]
            if rng.random() < .5:
                xs = [float("%.9g" % x) for x in xs]
        else:
            a = ANCHOR[unit] * 10.0 ** rng.uniform(-8, 4)
            xs = [a]
            for _ in range(n - 1):
                xs.append(xs[-1] * (1 + 10.0 ** rng.uniform(-9, 1 if n < 50 else -2)))
        return sorted(set(xs))

    def realise(self, c):
        """the numbers standing for an abstract content, drawn once per behaviour"""
        k = key(c["id"])
        if k in self.refs:
            return self.refs[k]
        rng = self.rng
        parts = {p: c[p] for p in ("re", "im", "cx")}
        alone = sum(parts[p]["k"] != "zero" for p in parts) == 1 or c["re"] == c["im"]
        ref, grids = {}, {}
        for p, d in parts.items():
            if d["k"] in ("table", "extrap"):
                g = (d["u"] if d["g"] != "same" else "", d["g"])
                if g not in grids and d["g"] == "same":
                    # numbers that are sensible in every unit
                    grids[g] = sorted({1e-9, 9e3} | {float("%.9g" % nm_to(PAIR[u], rng.uniform(LO + 5, HI - 5))) for u in ("nm", "um", "ev", "a", "m") for _ in range(2)})
                elif g not in grids:
                    grids[g] = self.grid(d["u"], alone and rng.random() < .5)
                    while len(grids) == 2 and len(set(map(tuple, grids.values()))) == 1:
                        grids[g] = self.grid(d["u"], False) + [ANCHOR[d["u"]]]
                        grids[g] = sorted(set(grids[g]))
                ref[p] = {"x": grids[g], "y": self.column(len(grids[g]))}
            elif d["k"] in ("model", "cmodel"):
                name = d["g"]
                ref[p] = {"par": [float(v) for v in draw(rng, name, {"Sellmeier": 3, "Sellmeier2": 3, "Polynomial": 5, "RefractiveIndexInfo": 11, "Cauchy": 5, "Gases": 5, "Herzberger": 6, "Retro": 4,
                                                                    "Exotic": 6, "Drude": 2, "DrudeLorentz": 4, "TaucLorentz": 5}[name])],
                          "rng": sorted(nm_to(PAIR[d["u"]], w) for w in (LO, HI))}
            elif d["k"] == "const":
                ref[p] = {"v": round(rng.uniform(0.5, 2), 3)}
        self.refs[k] = ref
        return ref

    def build(self, c, ref):
        rng = self.rng
        kinds = {p: c[p]["k"] for p in ("re", "im", "cx")}
        nm = c["name"]
        unit = next((c[p]["u"] for p in ("re", "im", "cx") if c[p]["u"]), "nm")
        kw = dict(spectrum_type=PAIR[unit][0], unit=rng.choice([unit, NAMES[unit]]))
        if kinds["re"] == "const" and kinds["im"] != "table":
            r, i = ref["re"]["v"], ref.get("im", {"v": 0})["v"]
            if kinds["im"] == "zero":
                return Material(**{"fixed_n" if nm == "nk" else "fixed_eps_r": r}, **kw)
            return Material(**{"fixed_nk" if nm == "nk" else "fixed_eps": complex(r, i)}, **kw)
        if kinds["re"] == "table" and c["re"] == c["im"]:
            t = np.array([ref["re"]["x"], ref["re"]["y"], ref["im"]["y"]]).T
            return Material(**{"tabulated_nk" if nm == "nk" else "tabulated_eps": t}, **kw)
        if nm == "nk" and kinds["re"] == "table" and kinds["im"] == "zero":
            return Material(tabulated_n=np.array([ref["re"]["x"], ref["re"]["y"]]).T, **kw)
        p = next((p for p in ("re", "cx") if "model" in kinds[p]), None)
        if p and kinds["im"] == "zero":
            return Material(model_kw={"name": c[p]["g"], "parameters": np.array(ref[p]["par"]), "valid_range": np.array(ref[p]["rng"]), "spectrum_type": PAIR[unit][0], "unit": kw["unit"]})
        # no constructor argument describes this one: assemble it from a file
        blocks = []
        for p in ("re", "im"):
            d = c[p]
            f = lambda v: repr(float(v))
            if d["k"] == "zero":
                continue
            if d["k"] == "model":
                blocks.append("  - DataType: model %s\n    ValidRange: %s %s\n    Parameters: %s\n    SpectrumType: wavelength\n    Unit: um\n"
                              % (d["g"], f(ref[p]["rng"][0]), f(ref[p]["rng"][1]), " ".join(map(f, ref[p]["par"]))))
                continue
            typ = {"nk": {"re": "n", "im": "k"}, "eps": {"re": "eps_r", "im": "eps_k"}}[nm][p]
            if d["k"] == "const":
                rows, pair = [[600.0, ref[p]["v"]]], PAIR["nm"]
            else:
                rows, pair = list(zip(ref[p]["x"], ref[p]["y"])), PAIR[d["u"]]
            blocks.append("  - DataType: tabulated %s\n    SpectrumType: %s\n    Unit: %s\n    Data: |\n%s\n" % (typ, pair[0], rng.choice([pair[1], NAMES[pair[1]]]), "\n".join("        %s %s" % (f(a), f(b)) for a, b in rows)))
        if self.flip.setdefault(key(c['id']), rng.random() < .5):
            blocks.reverse()
        path = os.path.join(self.dir, "source.yml")
        with open(path, "w") as fp:
            fp.write("DATA:\n" + "".join(blocks))
        return Material(file_path=path)

    def words(self, m):
        """concrete metadata for a set of filled entries"""
        k = self.mkey(m)
        if k not in self.metas:
            rng = self.rng
            d = {e: "" for e in KEYS}
            for e in set(m) - {"Specification", "Further"}:
                d[e] = self.deal(e)
            self.metas[k] = d
        return dict(self.metas[k], Specification=copy.deepcopy(self.spec) if "Specification" in m else {})

    def fill(self, m):
        md = self.mat.meta_data
        md.update(self.words(m))
        for k in [k for k in md if k not in KEYS + ["Specification", "Alias"]]:
            del md[k]
        if "Further" in m:
            self.further = {k: self.rng.choice(["2020", "x: y", "somebody"]) for k in self.rng.sample(["Year", "origin", "Sample no", "DOI", "Version"], 2)}
            md.update(self.further)

    @staticmethod
    def mkey(m):
        return key(sorted(set(m) - {"Specification", "Further"}))

    def specification(self):
        rng = self.rng
        pool = {"n_absolute": True, "n_is_absolute": False, "wavelength_vacuum": True, "wavelength_is_vacuum": True, "film_thickness": rng.choice([53.5, "53.5e-9", "1.5 µm"]),
                "substrate": rng.choice(["Si: p-type", "glass # 2", "null", "Al2O3"]), "temperature": rng.choice([25, 25.0, "25.0 °C", -40]), "pressure": "1 atm", "deposition_temperature": rng.choice([0, 300.5]),
                "direction": rng.choice(["o-ray", "1", "[100]", ""]), "humidity": .5, "my note": "two\nlines", "crystal": {"axis": "a", "tilt": 1.5}, "lots": [1, "b"], "Temperature": 3}
        return {k: pool[k] for k in rng.sample(sorted(pool), rng.randint(1, len(pool)))}

    def deal(self, e):
        """every word is used for every entry before one is used again"""
        deck = self.decks.setdefault(e, [])
        if not deck:
            deck += COMMENTS + KEYWORDS if e == "MetaComment" else WORDS + (MULTI if self.yml_only else [])
            self.rng.shuffle(deck)
        return deck.pop()

    yml_only = False

    # ---- observations
    def points(self, c, ref):
        """spectra at which a material is looked at"""
        out = []
        both = sum(c[p]["k"] != "zero" for p in ("re", "im", "cx")) > 1 and c["re"] != c["im"]
        for p, r in ref.items():
            if "x" not in r and "rng" not in r:
                continue
            pair = PAIR[c[p]["u"]]
            if "x" in r:
                x = list(r["x"]); x = x if len(x) < 60 else x[:20] + x[490:510] + x[-20:]
                x = x + [(a + b) / 2 for a, b in zip(x, x[1:])]
            else:
                x = [r["rng"][0] + f * (r["rng"][1] - r["rng"][0]) for f in (0, .1, .37, .5, .9, 1)]
            if both:
                lo, hi = sorted(nm_to(pair, w) for w in (LO + .01, HI - .01))
                x = [v for v in x if lo <= v <= hi]
            if x:
                out.append((pair, x))
        return out

    def observe(self, mat, c, ref):
        vals = []
        f = mat.get_nk_data if c["name"] == "nk" else mat.get_permittivity
        with np.errstate(all="ignore"):
            for pair, x in self.points(c, ref):
                vals.append(np.array(f(Spectrum(np.array(x), spectrum_type=pair[0], unit=pair[1]))))
        return vals, np.array(mat.get_maximum_valid_range(), dtype=float), mat.data["name"]

    def compare(self, mat, c, m, what):
        ref = self.realise(c)
        want = self.words(m)
        for e in KEYS + ["Specification"]:
            if mat.meta_data[e] != want[e]:
                raise Mismatch("%s: %s is %r, was %r" % (what, e, mat.meta_data[e], want[e]))
        vals, rng_, name = self.observe(mat, c, ref)
        v0, r0, n0 = self.first[key(c["id"])]
        self.chk.cov["values_compared"] += sum(map(len, vals))
        if name != n0 or name != c["name"]:
            raise Mismatch("%s: data name %r, was %r" % (what, name, n0))
        for a, b, (pair, x) in zip(vals, v0, self.points(c, ref)):
            for q in ("real", "imag"):
                u, v = getattr(a, q), getattr(b, q)
                if not np.array_equal(u, v, equal_nan=True) and not np.allclose(u, v, rtol=1e-13, atol=0, equal_nan=True):
                    i = int(np.argmax(~((u == v) | (np.isnan(u) & np.isnan(v)))))
                    raise Mismatch("%s: %s part at %r %s is %r, was %r" % (what, q, x[i], pair, u[i], v[i]))
        if not np.allclose(rng_, r0, rtol=1e-12, atol=0):
            raise Mismatch("%s: valid range %r, was %r" % (what, rng_, r0))

    def reference(self, c, ref, vals):
        """the first material shows the drawn numbers at its knots"""
        if self.style == "big":
            return
        for (pair, x), v in zip(self.points(c, ref), vals):
            for p, q in (("re", "real"), ("im", "imag")):
                if p in ref and "x" in ref[p] and PAIR[c[p]["u"]] == pair:
                    xs, ys = ref[p]["x"], ref[p]["y"]
                    if any(not math.isfinite(y) for y in ys):
                        continue
                    for a, got in zip(x, getattr(v, q)):
                        if a in xs:
                            i = xs.index(a)
                            tol = 1e-9 * max(abs(ys[j]) for j in (max(i - 1, 0), i, min(i + 1, len(xs) - 1)))
                            if abs(got - ys[i]) > tol:
                                raise Mismatch("the material has %r at %r %s, given was %r" % (got, a, pair, ys[i]))

    def step(self, op):
        rng = self.rng
        n = op["n"]
        if n == "make":
            ref = self.realise(op["c"])
            plain = op["c"]
            ext = any(plain[p]["k"] == "extrap" for p in ("re", "im"))
            if ext:
                plain = dict(plain, **{p: dict(plain[p], k=plain[p]["k"].replace("extrap", "table")) for p in ("re", "im")})
            self.mat = self.build(plain, ref)
            if ext:
                x = ref["re"]["x"]
                self.mat.extrapolate(Spectrum(rng.choice([x[-1] * 1.01, np.array([x[0] * .99]), np.array([x[0] * .99, x[-1] * 1.01])]), *PAIR[plain["re"]["u"]]), spline_order=1)
            self.fill(op["m"])
            if ext:
                pass
            elif "table" not in (op["c"]["re"]["k"], op["c"]["im"]["k"]) or not any(op["c"][p]["k"] == "const" for p in ("re", "im")):
                k = key(op["c"]["id"])
                ob = self.observe(self.mat, op["c"], ref)
                self.reference(op["c"], ref, ob[0])
                self.first[k] = ob
            self.cur = (op["c"], op["m"])
        elif n == "edit":
            self.fill(op["m"])
            self.cur = (self.cur[0], op["m"])
        elif n == "write":
            self.write(op)
        elif n == "read":
            path = os.path.join(self.dir, op["f"]["name"])
            before = self.bytes(path)
            self.mat = Material(file_path=path)
            self.cur = (op["c"], op["m"])
            self.compare(self.mat, op["c"], op["m"], "read back from %s" % op["f"]["name"])
            if self.bytes(path) != before:
                raise Mismatch("reading changed the file")
        else:
            raise MachineryError(n)
        self.log.append(n + " " + op.get("f", {}).get("name", ""))

    @staticmethod
    def bytes(path):
        try:
            with open(path, "rb") as fp:
                return fp.read()
        except FileNotFoundError:
            return None

    def files(self):
        return {f: self.bytes(os.path.join(self.dir, f)) for f in sorted(os.listdir(self.dir)) if f != "source.yml"}

    def write(self, op):
        path = os.path.join(self.dir, op["f"]["name"])
        before = self.files()
        if (op["f"]["name"] in before) != op["old"]:
            raise MachineryError("file system out of step")
        try:
            Writer(path, self.mat).write_file()
            res = "ok"
        except ValueError as exc:
            res, err = "ValueError", exc
        if res != op["res"]:
            raise Mismatch("writing %s to %s gave %s, specification says %s" % (self.cur[0]["id"], op["f"]["name"], res, op["res"]))
        after = self.files()
        if res != "ok":
            if after != before:
                raise Mismatch("a failing write to %s changed the files: %s" % (op["f"]["name"], [k for k in after if after[k] != before.get(k)]))
            return
        if {k: v for k, v in after.items() if k != op["f"]["name"]} != {k: v for k, v in before.items() if k != op["f"]["name"]}:
            raise Mismatch("writing %s changed other files" % op["f"]["name"])
        # the same material written to a new file
        fresh = os.path.join(self.dir, "fresh_" + op["f"]["name"])
        writer = Writer(fresh, self.mat)
        writer.write_file()
        b = self.bytes(fresh)
        if self.rng.random() < .3:
            writer.write_file()
            if self.bytes(fresh) != b:
                raise Mismatch("the same writer wrote something else when it was used again")
        os.remove(fresh)
        if b != after[op["f"]["name"]]:
            raise Mismatch("writing over an existing file left something else than the new content in %s" % op["f"]["name"])
        if op["f"]["ext"] == "yml" and "Further" in self.cur[1]:
            doc = {str(k).lower(): v for k, v in yaml.safe_load(b.decode("utf-8")).items()}
            for k, v in self.further.items():
                if doc.get(k.lower(), v) != v:
                    raise Mismatch("%s of the material is %r, the file says %r" % (k, v, doc[k.lower()]))
        self.compare(self.mat, self.cur[0], self.cur[1], "the material in memory after writing")


def run(chk):
    jobs = [("Few", "TwoMetas", "FilesMix", "TRUE", "histories yml+txt", "plain", chk.pick(1, 3), False),
            ("Few", "TwoMetas", "FilesYml", "TRUE", "histories two yml", "plain", chk.pick(1, 3), True),
            ("AllContents", "OneMeta", "FilesAll", "FALSE", "every kind", "plain", chk.pick(1, 4), False),
            ("Twins", "OneMeta", "FilesYml", "FALSE", "same numbers, other units", "plain", chk.pick(2, 30), True),
            ("Singles", "OneMeta", "FilesTxt", "FALSE", "text tables", "plain", chk.pick(4, 30), False),
            ("Long", "OneMeta", "FilesMix", "FALSE", "long tables", "big", chk.pick(1, 4), False),
            ("MetaOnly", "EveryMeta", "FilesMix", "FALSE", "metadata", "plain", chk.pick(1, 1), False)]
    import time
    for cont, metas, files, remake, label, style, reps, yml in jobs:
        t0 = time.time()
        r = chk.tlc("StoreMC", CFG % (cont, metas, files, remake), label=label, workers=4)
        g = Graph(r.edges)
        ad = Store(chk, style)
        ad.yml_only = yml
        init = g.init(r.first)
        for rep in range(reps):
            for w in g.cover_walks(init, maxlen=30, rng=chk.rng):
                chk.replay_walk(ad, w, label)
        chk.cov.setdefault("edges", {})[label] = len(g.edges)
        if os.environ.get("VERIF_DEBUG"): print(label, len(g.edges), time.time() - t0, flush=True)
        ad.close()
    # self test: a write that is said to fail
    ad = Store(chk, "plain")
    walk = next(w for w in g.cover_walks(init, maxlen=30) if any(o["n"] == "read" for o in w))
    ad.reset()
    ok = False
    try:
        for o in copy.deepcopy(walk):
            if o["n"] == "read":
                ad.words(o["m"]); ad.metas[ad.mkey(o["m"])] = dict(ad.metas[ad.mkey(o["m"])], Author="somebody else")
            ad.step(o)
    except Mismatch:
        ok = True
    ad.close()
    chk.canary(ok, "metadata lost")
    chk.assumptions += ["metadata in text files are single lines without leading blanks, comment lines there do not begin with a keyword and a colon",
                        "read with PyYAML; the default interpolation order"]
