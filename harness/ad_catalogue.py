"""the catalogue on a scratch file system"""
import os, json, math, shutil, warnings, contextlib, io
import numpy as np
import pandas as pd
from vlib import *
from physics import *
from mats import NAMES
import mats
from dispersion import Material, Spectrum, Catalogue
U, R, M = "UserData", "RefractiveIndexInfo", "Filmetrics"
PAIR = {"um": ("wavelength", "um"), "nm": ("wavelength", "nm"), "ev": ("energy", "ev"), "hz": ("frequency", "hz")}
TEXT = ["gold", "J. Doe", "NA", "nan", "NULL", "None", "null", "N/A", "", "a, b", 'say "hi"', "it's", "Müller µ λ 金", "1.50", "007", "1e5", "True", "#hash", "x;y", "semi: colon", "  ", "-", "inf",
        "<b>html</b> &amp;", "Long, \"text\" " * 900 + ".", "x" * 40000, "back\\slash", "100%", "n/a", "-1.#IND", "'", '"', ",", "$\\alpha$"]
STEMS = ["gold", "NA", "nan", "None", "a.b", "x y", "ünï-λ", "a,b", "1.5", "true", "q'q", "null", "Ag (film)", "007", "-", "n_k", "data.yml", "inf", ".hidden", "trailing.", "UPPER", "upper", "a.txt", "~tilde", "%s {0}", "tab\there"]
ALIASES = {"a1": ["gold", "NA", "my alias", "007", "nan", "x,y", 'q"q', "long name " * 30 + "!", "λ", "0", "None"], "a2": ["silver", "Gold", "null", "my alias ", "7", "1.0", "N/A"], "a3": ["cu", "GOLD", "-", " lead"]}
NUM = ["SpectrumLowerBound", "SpectrumUpperBound", "N_Reference", "K_Reference"]


class Cat:
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng
        self.n = 0
        self.dir = None

    # ---- life cycle
    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)

    def reset(self, lay=None):
        self.close()
        rng = self.rng
        self.n += 1
        self.dir = os.path.join(SCRATCH, "cat%d" % self.n)
        self.root = os.path.join(self.dir, rng.choice(["root", "my root", "röot"]))
        os.makedirs(self.root)
        self.csvname = rng.choice(["catalogue.csv", "my cat.csv", "c"])
        self.lib = rng.choice(["catalog-nk.yml", "library.yml", "both"])
        self.sub = rng.choice(["data", "data-nk"])
        self.decoy, self.lists = None, None
        if lay:
            self.lists, self.lib, self.sub = lay["lists"], lay["list"], lay["dir"]
            self.decoy = next((d for d in lay["dirs"] if d != self.sub), None)
        for m in (U, M):
            os.makedirs(os.path.join(self.root, m))
        os.makedirs(os.path.join(self.root, R, "database", self.sub))
        self.refnm = rng.choice([632.8, 600.0, 555.5])
        pair = rng.choice([("wavelength", "nm"), ("wavelength", "nm"), ("energy", "ev"), ("wavelength", "um")])
        self.refpair = pair
        self.ref = {"Value": float(nm_to(pair, self.refnm)), "SpectrumType": pair[0], "Unit": NAMES[pair[1]]}
        self.named = []
        self.names, self.facts, self.stems, self.aliases = {}, {}, list(STEMS), {}
        rng.shuffle(self.stems)
        used = set()
        for a, pool in ALIASES.items():
            self.aliases[a] = rng.choice([x for x in pool if x not in used])
            used.add(self.aliases[a])
        self.cat, self.log, self.csv, self.saved = None, [], None, None
        self.another = None
        self.library = None
        self.order = rng.sample(list(range(30)), 30)
        self.pages = {}
        if rng.random() < .3:   # folders below a module are not part of it
            os.makedirs(os.path.join(self.root, U, "sub"))
            with open(os.path.join(self.root, U, "sub", "nested.txt"), "w") as fp:
                fp.write("500 1 0\n600 1 0\n")
        for m in (U, M):        # nor are files of other kinds
            if rng.random() < .3:
                with open(os.path.join(self.root, m, rng.choice(["NOTES.TXT", "old.Csv", "readme.md", "no extension", "x.txt~", "a.yaml", "b.dat", "txt", "c.YML"])), "w") as fp:
                    fp.write("no data\n")

    def describe(self):
        return {"root": self.root, "reference": self.ref, "csv": self.csvname, "lib": self.lib, "sub": self.sub, "log": self.log[-40:],
                "content": {k: v["text"][:3000] for k, v in self.facts.items()}}

    def prepare(self, files):
        """pages of the library are those of the specification's files"""
        self.pages = {f["id"]: f for f in files if f["m"] == R}
        self.write_library()

    # ---- files
    def fname(self, f):
        k = f["m"] + "/" + (f["of"] or f["id"])
        if k not in self.names:
            stem = self.stems.pop() if self.stems else f["id"]
            same = [n for q, n in self.names.items() if q.startswith(f["m"] + "/") and f["m"] != R and n not in self.stems]
            if same and self.rng.random() < .25:      # gold.txt and gold.csv
                other = self.rng.choice(same)
                if not any(g["m"] == f["m"] and g["ext"] == f["ext"] and self.names.get(g["m"] + "/" + g["id"]) == other for g in self.named):
                    stem = other
            other = [self.names[g["m"] + "/" + g["id"]] for g in self.named if g["m"] not in (R, f["m"])]
            other = [n for n in other if not any(g["m"] == f["m"] and g["ext"] == f["ext"] and self.names[g["m"] + "/" + g["id"]] == n for g in self.named)]
            if f["m"] != R and other and self.rng.random() < .4:      # gold.txt in two modules
                stem = self.rng.choice(other)
            self.named.append(f)
            self.names[k] = stem if f["m"] != R else "main/%s/%s" % (self.rng.choice(["Au", "SiO2", "é", "NA"]), f["id"])
        return self.names[k]

    def path(self, f):
        if f["m"] == R:
            return os.path.join(self.root, R, "database", self.sub, self.fname(f) + ".yml")
        return os.path.join(self.root, f["m"], self.fname(f) + "." + f["ext"])

    def relpath(self, f):
        return os.path.relpath(self.path(f), os.path.join(self.root, f["m"]))

    def write_library(self):
        rng = self.rng
        q = lambda s: json.dumps(s, ensure_ascii=False)
        self.entry = {}
        ids = sorted(self.pages)
        rng.shuffle(ids)
        shelves, books = [], []
        bid = 0
        while ids:
            k = rng.randint(1, max(1, min(3, len(ids))))
            part, ids = ids[:k], ids[k:]
            bid += 1
            book, full = rng.choice(["Au", "NA", "nan", "SiO2", "No", "é"]) , rng.choice(TEXT[:8] + ["Gold, bulk", "Böhm"])
            pages = []
            for i in part:
                f = self.pages[i]
                page = rng.choice(["Johnson", "NA", "nan", "Müller-n", "Rakić, 1998", "Yes"]) + (" " + i if f["of"] or rng.random() < .5 else "")
                if rng.random() < .4:
                    pages.append("          - DIVIDER: %s" % q(rng.choice(["Thin films", "PAGE", ""])))
                ent = ["PAGE: %s" % q(page), "name: %s" % q("n 0.2-1.0 um"), "data: %s" % q(self.fname(f) + ".yml")]
                pages.append("          - " + "\n            ".join(ent))
                self.entry[i] = (book, full, page)
            b = ["BOOK: %s" % q(book), "name: %s" % q(full), "content:\n" + "\n".join(pages)]
            books.append("      - " + "\n        ".join(b))
            if rng.random() < .4:
                books.append("      - DIVIDER: %s" % q("metals"))
            if rng.random() < .4:
                shelves.append(books); books = []
        if books or not shelves:
            shelves.append(books)
        text = ""
        for j, bk in enumerate(shelves):
            text += "- SHELF: s%d\n  name: %s\n  content:%s\n" % (j, q("Shelf %d" % j), "\n" + "\n".join(bk) if bk else " []")
        for nm in (["catalog-nk.yml", "library.yml"] if self.lib == "both" else [self.lib]):
            with open(os.path.join(self.root, R, "database", nm), "w", encoding="utf-8") as fp:
                fp.write(text)
        for nm in self.lists or []:
            if nm != self.lib:      # an outdated list: other names, not all pages
                with open(os.path.join(self.root, R, "database", nm), "w", encoding="utf-8") as fp:
                    fp.write("- SHELF: old\n  name: Old\n  content:\n      - BOOK: Old\n        name: Old\n        content:\n"
                             + "".join("          - PAGE: old%d\n            name: old\n            data: %s\n" % (i, q(self.fname(self.pages[x]) + ".yml"))
                                       for i, x in enumerate(sorted(self.pages)[1:])) if len(self.pages) > 1 else "[]\n")
        self.library = text

    def content(self, f, v):
        """text and facts of a version of a file"""
        k = "%s/%s/%d" % (f["m"], f["of"] or f["id"], v)
        if k in self.facts:
            return self.facts[k]
        rng = self.rng
        unit = f["own"] or ("um" if f["m"] == R else "nm")
        pair = PAIR[unit]
        kind = f["kind"]
        lo, hi = (self.refnm * rng.uniform(.5, .8), self.refnm * rng.uniform(1.2, 2)) if f["w"] == "in" else \
            rng.choice([(self.refnm * .3, self.refnm * rng.uniform(.6, .95)), (self.refnm * rng.uniform(1.05, 1.5), self.refnm * 3)])
        if f["w"] == "edge":    # the range begins or ends at the reference value, or just next to it if the units differ
            same = pair == self.refpair
            lo, hi = rng.choice([(self.refnm * (1 if same else 1 - 1e-6), self.refnm * 2), (self.refnm * .5, self.refnm * (1 if same else 1 + 1e-6))])
        flo, fhi = lo, hi       # the formula of a file with two data sets
        if f["w"] == "part":    # the reference is in the range of one data set only
            flo, fhi = min(lo * .9, self.refnm * .8), max(hi * 1.1, self.refnm * 1.2)
            if rng.random() < .5:
                lo, hi, flo, fhi = flo, fhi, lo, hi
        fact = {"text": "", "unit": unit, "kind": kind}
        multi = f["ext"] == "yml"
        words = lambda: rng.choice(TEXT if not multi else TEXT + ["two\nlines", "a\n\nb", "x,\n\"y\""])
        meta = {e: words() for e in ("FullName", "Author", "Comment", "Reference")}
        if not multi:
            meta = {e: w.lstrip() for e, w in meta.items()}
        fact["meta"] = meta
        xs = []
        if kind in ("nk", "n", "eps", "row", "mixed", "junk", "dir"):
            n = 1 if kind == "row" else rng.randint(2, 5)
            nms = [lo] if n == 1 else [lo] + sorted(rng.uniform(lo * 1.001, hi * .999) for _ in range(n - 2)) + [hi]
            xs = [nm_to(pair, w) for w in nms]
            gain = rng.random() < .2        # some media amplify
            weak = 10 ** -rng.uniform(3, 9) if rng.random() < .2 else 1       # some absorb hardly at all
            ys = [[rng.uniform(1, 3)] + ([rng.uniform(.1, 2) * weak * (rng.choice([1, -1]) if gain else 1)] if kind != "n" else []) for _ in xs]
            rows = sorted([[x] + y for x, y in zip(xs, ys)])
            fact["rows"] = rows
            fact["win"] = [rows[0][0], rows[-1][0]]
        if kind in ("model", "mixed"):
            fact["B"] = [rng.uniform(0, 1), rng.uniform(.5, 1), rng.uniform(.01, .1)]
            fact["win"] = sorted(nm_to(pair, w) for w in (lo, hi))
        if kind == "drude":
            fact["B"] = [rng.uniform(1, 3), rng.uniform(.05, .2)]
            fact["win"] = sorted(nm_to(pair, w) for w in (lo, hi))
        if f["ext"] == "yml":
            q = lambda s: json.dumps(s, ensure_ascii=False)
            head = "REFERENCES: %s\nCOMMENTS: %s\n" % (q(meta["Reference"]), q(meta["Comment"]))
            if f["m"] != R:
                head += "FULLNAME: %s\nAUTHOR: %s\n" % (q(meta["FullName"]), q(meta["Author"]))
            un = "" if not f["own"] else "    SpectrumType: %s\n    Unit: %s\n" % (pair[0], rng.choice([pair[1], NAMES[pair[1]]]))
            tab = lambda t, cols: "  - type: tabulated %s\n%s    data: |\n%s\n" % (t, un, "\n".join("        " + " ".join(repr(r[c]) for c in cols) for r in fact["rows"]))
            d = ""
            if kind in ("nk", "eps", "n", "row"):
                d = tab({"row": "nk"}.get(kind, kind), range(len(fact["rows"][0])))
            elif kind == "model":
                d = "  - type: formula 1\n%s    wavelength_range: %r %r\n    coefficients: %s\n" % (un, fact["win"][0], fact["win"][1], " ".join(map(repr, fact["B"])))
            elif kind == "mixed":     # a formula in micrometres and a table for k; in user files the formula states its unit
                mu = "" if f["m"] == R else "    SpectrumType: wavelength\n    Unit: um\n"
                mw = sorted(nm_to(("wavelength", "um"), w) for w in (flo, fhi))
                kt = "  - type: tabulated k\n    SpectrumType: %s\n    Unit: %s\n    data: |\n%s\n" % (pair[0], pair[1], "\n".join("        %r %r" % (r[0], r[2]) for r in fact["rows"]))
                fo = "  - type: formula 1\n%s    wavelength_range: %r %r\n    coefficients: %s\n" % (mu, mw[0], mw[1], " ".join(map(repr, fact["B"])))
                if f["m"] == R:
                    kt = kt.replace("    SpectrumType: %s\n    Unit: %s\n" % pair, "")
                d = fo + kt
            elif kind == "drude":
                d = "  - DataType: model Drude\n%s    ValidRange: %r %r\n    Parameters: %s\n" % (un, fact["win"][0], fact["win"][1], " ".join(map(repr, fact["B"])))
            parts = [head, "DATA:\n" + d]
            rng.shuffle(parts)
            text = "".join(parts)
        else:
            sign = ";" if f["ext"] == "nk" else "#"
            h = ["%s: %s" % (k2, meta[e]) for k2, e in (("REFERENCES", "Reference"), ("COMMENTS", "Comment"), ("FULLNAME", "FullName"), ("AUTHOR", "Author"))]
            if f["own"]:
                h += ["SPECTRUMTYPE: " + pair[0], "UNIT: " + pair[1]]
            if kind in ("eps", "n"):
                h.append("DATATYPE: tabulated " + kind)
            rng.shuffle(h)
            sep = "," if f["ext"] == "csv" else "\t"
            text = "".join(sign + " " + l + "\n" for l in h) + "\n".join(sep.join(repr(x) for x in r) for r in fact["rows"]) + "\n"
            if kind == "junk":
                text = "# UNIT: nm\nthis is no table\n1 2\n"
        fact["text"] = text
        fact["nms"] = (max(lo, flo), min(hi, fhi)) if kind != "row" else (lo, lo)
        self.facts[k] = fact
        return fact

    def put(self, f, v):
        p = self.path(f)
        if f["kind"] == "dir":
            os.makedirs(p, exist_ok=True)
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if self.rng.random() < .15 and not os.path.lexists(p):       # data kept elsewhere
            store = os.path.join(self.dir, "elsewhere")
            os.makedirs(store, exist_ok=True)
            os.symlink(os.path.join(store, "%s_%s" % (f["m"], f["id"])), p)
        with open(p, "w", encoding="utf-8") as fp:
            fp.write(self.content(f, v)["text"])
        if self.decoy and f["m"] == R:      # an outdated version of the page
            p = os.path.join(self.root, R, "database", self.decoy, self.fname(f) + ".yml")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as fp:
                fp.write("COMMENTS: outdated\nDATA:\n  - type: tabulated nk\n    data: |\n        0.1 9.5 8.5\n        9.0 9.5 8.5\n")

    # ---- reference values
    def nk(self, fact, nm):
        """refractive index at a wavelength in nm"""
        kind = fact["kind"]
        x = nm_to(PAIR[fact["unit"]], nm)
        col = lambda c: float(np.interp(x, [r[0] for r in fact["rows"]], [r[c] for r in fact["rows"]]))
        um = nm / 1000
        sell = lambda: math.sqrt(1 + fact["B"][0] + fact["B"][1] * um ** 2 / (um ** 2 - fact["B"][2] ** 2))
        if kind in ("nk", "row"):
            return complex(col(1), col(2))
        if kind == "n":
            return complex(col(1), 0)
        if kind == "eps":
            return np.sqrt(complex(col(1), col(2)))
        if kind == "model":
            return complex(sell(), 0)
        if kind == "mixed":
            return complex(sell(), col(2))
        if kind == "drude":
            wp, g = fact["B"]
            return np.sqrt(1 - wp ** 2 / (x ** 2 + 1j * g * x))
        raise MachineryError(kind)

    # ---- the catalogue table
    def frame(self, cat=None):
        return (cat or self.cat).get_database()

    def find(self, f, df=None):
        """position of a file's row in the table"""
        df = self.frame() if df is None else df
        hit = [i for i in range(len(df)) if df["Module"].iloc[i] == f["m"] and os.path.normpath(str(df["Path"].iloc[i])) == os.path.normpath(self.relpath(f))]
        if len(hit) > 1 and f["m"] == R:        # pages with the same data file
            hit = [i for i in hit if (df["Name"].iloc[i], df["FullName"].iloc[i], df["Author"].iloc[i]) == self.entry[f["id"]]]
        if len(hit) != 1:
            raise Mismatch("%d rows for %s/%s" % (len(hit), f["m"], self.fname(f)))
        return hit[0]

    def check_rows(self, rows, df=None):
        df = self.frame() if df is None else df
        if len(df) != len(rows):
            raise Mismatch("the catalogue has %d rows, specification says %d: %r vs %r" % (len(df), len(rows), list(zip(df["Module"], df["Path"])), [(r["f"]["m"], self.relpath(r["f"])) for r in rows]))
        for r in rows:
            row = df.iloc[self.find(r["f"], df)]
            f, fact = r["f"], self.content(r["f"], r["v"])
            want = dict(fact["meta"])
            want["Alias"] = self.aliases.get(r["a"], r["a"])
            want["Name"] = self.fname(f)
            if f["m"] == R:
                want["Name"], want["FullName"], want["Author"] = self.entry[f["id"]]
            want["SpectrumType"] = PAIR[r["unit"]][0]
            for c, w in want.items():
                if not isinstance(row[c], str) or row[c] != w:
                    raise Mismatch("%s of %s is %r, specification says %r" % (c, self.relpath(f), row[c], w))
            if str(row["Unit"]).lower() not in (r["unit"], NAMES[PAIR[r["unit"]][1]].lower()):
                raise Mismatch("unit of %s is %r, specification says %r" % (self.relpath(f), row["Unit"], r["unit"]))
            bounds = [b * (1e-3 if r["base"] == "um" else 1) for b in fact["nms"]]
            for c, w in zip(NUM, bounds):
                if not close(float(row[c]), w, 1e-7):
                    raise Mismatch("%s of %s is %r, specification says %r" % (c, self.relpath(f), row[c], w))
            ref = complex(math.nan, math.nan) if r["nan"] else complex(self.nk(fact, self.refnm))
            size = max([abs(x[2]) for x in fact["rows"] if len(x) > 2], default=1) if "rows" in fact else 1
            for c, w, tol in zip(NUM[2:], (ref.real, ref.imag), (1e-6 * (1 + abs(ref.real)), 1e-6 * (min(size, 1) + abs(ref.imag)))):
                g = float(row[c])
                if not (math.isnan(w) and math.isnan(g) or abs(g - w) <= tol):
                    raise Mismatch("%s of %s is %r, specification says %r" % (c, self.relpath(f), row[c], w))
                self.chk.cov["values_compared"] += 1

    def snapshot(self, cat=None):
        df = self.frame(cat)
        return [[repr(v) if isinstance(v, float) else v for v in (x.item() if hasattr(x, "item") else x for x in df.iloc[i].tolist())] for i in range(len(df))], list(df.columns)

    def csvbytes(self):
        p = os.path.join(self.root, self.csvname)
        try:
            with open(p, "rb") as fp:
                return fp.read()
        except FileNotFoundError:
            return None

    def tree(self):
        out = {}
        for d, _, fs in os.walk(self.dir):
            for x in fs:
                p = os.path.join(d, x)
                with open(p, "rb") as fp:
                    out[os.path.relpath(p, self.dir)] = fp.read()
        return out

    def config(self, mods):
        ms = [U, R, M]
        self.rng.shuffle(ms)
        ms = [m for m in ms if m in mods or m != M or self.rng.random() < .5]
        return {"Path": self.root, "File": self.csvname, "Interactive": False, "WarnMissingPackages": False,
                "Modules": {m: m in mods for m in ms}, "ReferenceSpectrum": dict(self.ref)}

    # ---- operations
    def step(self, op):
        before = self.tree() if op["n"] not in ("add", "change", "remove") else None
        getattr(self, "do_" + op["n"])(op)
        self.log.append({k: v for k, v in op.items() if k not in ("rows",)})
        if before is not None:
            after = self.tree()
            if op["n"] == "save":
                p = os.path.relpath(os.path.join(self.root, self.csvname), self.dir)
                if p not in after:
                    raise Mismatch("saving did not write %s" % p)
                before.pop(p, None); after.pop(p)
            if after != before:
                raise Mismatch("%s changed files: %s" % (op["n"], sorted({k for k in set(after) | set(before) if after.get(k) != before.get(k)})))

    def do_add(self, op):
        self.put(op["f"], 1)

    def do_change(self, op):
        self.put(op["f"], op["v"])

    def do_remove(self, op):
        p = self.path(op["f"])
        os.rmdir(p) if op["f"]["kind"] == "dir" else os.remove(p)

    def do_open(self, op):
        conf = self.config(op["mods"])
        reb = op["reb"][0] if len(op["reb"]) == 1 and self.rng.random() < .7 else list(op["reb"])
        if op["reb"] in (["All"], ["None"]):
            reb = op["reb"][0]
        if op["reb"] != ["All"] and op["reb"] != ["None"]:
            for m in op["reb"]:
                conf["Modules"].setdefault(m, False)
        kw = {} if op["reb"] == ["None"] and self.rng.random() < .5 else {"rebuild": reb}
        missing = [f for f in self.pages.values() if not os.path.exists(self.path(f))]
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    cat = Catalogue(config=conf, **kw)
                res = "ok"
            except Exception as exc:
                cat, res, err = None, type(exc).__name__, exc
        if op["res"] == "ok":
            if cat is None:
                raise Mismatch("Catalogue(rebuild=%r) raised %r" % (reb, err))
        elif op["res"] == "ValueError":
            if res != "ValueError":
                raise Mismatch("Catalogue(rebuild=%r) gave %s, specification says ValueError" % (reb, res))
            return
        else:           # an unreadable file or no stored catalogue: no promise about the error
            if cat is None:
                return
            if op["reb"] == ["None"] or self.csvbytes() is None and op["reb"] != ["All"]:
                raise Mismatch("a catalogue was loaded although none is stored")
            return
        if R in op["mods"] and (op["reb"] == ["All"] or R in op["reb"]):
            n = sum(any(os.path.basename(self.fname(f)) in str(w.message) for w in ws) for f in missing)
            if n != len(missing):
                raise Mismatch("%d pages without file, %d warned about" % (len(missing), n))
        self.check_rows(op["rows"], cat.get_database())
        if [str(x) for x in cat.get_database().index] != [str(i) for i in range(len(op["rows"]))]:
            raise Mismatch("rows are labelled %r: the row numbers of get_material and register_alias differ" % (list(cat.get_database().index),))
        if op["reb"] == ["None"] and self.saved is not None:
            rows, cols = self.snapshot(cat)
            if rows != self.saved[0] or cols != self.saved[1]:
                bad = [(a, b) for a, b in zip(rows, self.saved[0]) if a != b] or [(cols, self.saved[1])]
                raise Mismatch("reloaded row %r was saved as %r" % bad[0])
        self.cat = cat

    def do_save(self, op):
        old = self.csvbytes()
        self.cat.save_to_file()
        new = self.csvbytes()
        self.saved = self.snapshot()
        if old is not None and self.last_saved == self.saved and new != old:
            raise Mismatch("saving the same catalogue again writes other bytes")
        self.last_saved = self.saved
        for was, image in self.images:      # whichever object saved it: the stored bytes tell the tables apart
            if (was == self.saved) != (image == new):
                raise Mismatch("saving %r wrote %s" % (self.saved[0], "other bytes than before" if was == self.saved else "what %r was stored as" % (was[0],)))
        self.images.append((self.saved, new))
        self.csv = new

    last_saved = None
    images = ()

    def select(self, df, pos):
        """one-row selections of the table in different ways"""
        rng = self.rng
        label = df.index[pos]
        c = rng.randrange(4)
        if c == 0:
            return df.iloc[[pos]]
        if c == 1:
            return df.loc[[label]]
        if c == 2:
            return df[(df.Path == df["Path"].iloc[pos]) & (df.Module == df["Module"].iloc[pos]) & (df.Author == df["Author"].iloc[pos])]
        return int(label)

    def do_register(self, op):
        df = self.frame()
        pos = self.find(op["f"])
        alias = self.aliases[op["a"]]
        arg = self.select(df, pos)
        before = self.snapshot()
        try:
            self.cat.register_alias(arg, alias)
            res = "ok"
        except ValueError:
            res = "ValueError"
        if res != op["res"]:
            raise Mismatch("register_alias(%s, %r) gave %s, specification says %s" % (type(arg).__name__, alias, res, op["res"]))
        self.aliases_only(before, pos if res == "ok" else None, alias)
        self.check_rows(op["rows"])

    def aliases_only(self, before, pos, alias):
        rows, cols = self.snapshot()
        if cols != before[1] or len(rows) != len(before[0]):
            raise Mismatch("registering an alias changed the shape of the catalogue")
        k = cols.index("Alias")
        for i, (a, b) in enumerate(zip(rows, before[0])):
            b = list(b)
            if i == pos:
                b[k] = alias
            if a != b:
                raise Mismatch("registering an alias changed row %d to %r from %r" % (i, a, b))

    def do_badregister(self, op):
        rng, df = self.rng, self.frame()
        alias = self.aliases[op["a"]]
        ints = [int(x) for x in df.index] or [0]
        arg = {"none": lambda: df.iloc[0:0], "several": lambda: df.iloc[0:2] if rng.random() < .5 else df,
               "unknown": lambda: rng.choice([max(ints) + 1, max(ints) + 1000]), "negative": lambda: rng.choice([-1, -2]),
               "float": lambda: float(ints[0]), "str": lambda: rng.choice(["0", "gold", ""]), "noneobj": lambda: None}[op["how"]]()
        before = self.snapshot()
        try:
            self.cat.register_alias(arg, alias)
        except ValueError:
            pass
        except Exception as exc:
            raise Mismatch("register_alias with %s raised %r instead of ValueError" % (op["how"], exc))
        else:
            raise Mismatch("register_alias with %s argument %r succeeded" % (op["how"], arg))
        self.aliases_only(before, None, alias)

    def same_material(self, mat, r, now, what):
        f, fact = r["f"], self.content(r["f"], now)
        if r["unit"] != r["base"] and not f["own"]:      # the row tells how to read the file
            fact = dict(fact, unit=r["unit"], nms=sorted(to_nm(PAIR[r["unit"]], fact["rows"][i][0]) for i in (0, -1)))
        lo, hi = fact["nms"]
        own = PAIR[fact["unit"]]
        if fact["kind"] == "row":
            nms = [lo]
            xs = np.array([x for x in [fact["rows"][0][0]]])
            pair = own
        else:
            nms = [lo + t * (hi - lo) for t in (.0001, .21, .5, .8, .9999)]
            pair = self.rng.choice([own, ("wavelength", "nm"), ("energy", "ev")])
            xs = np.array([nm_to(pair, w) for w in nms])
        got = mat.get_nk_data(Spectrum(xs, spectrum_type=pair[0], unit=pair[1]))
        want = np.array([self.nk(fact, w) for w in nms])
        self.chk.cov["values_compared"] += len(nms)
        if not np.allclose(got, want, rtol=1e-6, atol=1e-9):
            raise Mismatch("%s returned %r, the file %s holds %r" % (what, got, self.relpath(f), want))
        if mat.meta_data["Comment"] != fact["meta"]["Comment"] or mat.meta_data["Reference"] != fact["meta"]["Reference"]:
            raise Mismatch("%s returned the metadata of another material" % what)
        rg = mat.get_maximum_valid_range()
        w = sorted(nm_to(own, x) for x in (lo, hi)) if fact["kind"] != "mixed" else sorted(nm_to(PAIR["um" if f["m"] == R else fact["unit"]], x) for x in (lo, hi))
        if not np.allclose(rg, w, rtol=1e-6):
            raise Mismatch("%s has range %r, specification says %r" % (what, rg, w))

    def lookup(self, ident, op):
        what = "get_material(%r)" % (ident,)
        before = self.snapshot()
        alike = self.lookalikes(op["row"][0]["f"]) if op.get("row") and (op["res"] != "ok" or self.rng.random() < .2) else []
        try:
            mat = self.cat.get_material(ident)
            res = "ok"
        except Exception as exc:
            mat, res, err = None, type(exc).__name__, exc
        for x in alike:
            os.remove(x)
        if self.snapshot() != before:
            raise Mismatch("%s changed the catalogue" % what)
        if op["res"] == "ok":
            if mat is None:
                raise Mismatch("%s raised %r" % (what, err))
            self.same_material(mat, op["row"][0], op["now"], what)
            if self.rng.random() < .5:      # what the user does to the material is of no concern to later lookups
                mat.remove_absorption()
                for part in ("real", "complex"):
                    if mat.data[part] is not None:
                        mat.data[part] = mats.Constant(77.0)
                for e in list(mat.meta_data):
                    mat.meta_data[e] = "changed by the user"
        elif op["res"] == "ValueError":
            if res != "ValueError":
                raise Mismatch("%s gave %s, specification says ValueError" % (what, res))
        elif mat is not None:
            raise Mismatch("%s returned a material although there is no such row or its file is gone" % what)

    def lookalikes(self, f):
        """files with similar names, for the time of a lookup: they are not the row's file"""
        p = self.path(f)
        stem, ext = os.path.splitext(p)
        base = os.path.basename(p)
        names = [stem + e for e in (".yml", ".csv", ".txt", ".nk", ".yaml") if e != ext]
        names += [os.path.join(self.root, base), os.path.join(self.root, U, base), os.path.join(self.root, M, base),
                  os.path.join(os.path.dirname(p), base.swapcase()), p + ".bak", p + "~", os.path.join(self.dir, base)]
        out = []
        for x in self.rng.sample(names, self.rng.randint(1, len(names))):
            if not os.path.lexists(x) and x != p and os.path.isdir(os.path.dirname(x)) and x not in out:
                with open(x, "w") as fp:
                    if x.endswith(".yml"):
                        fp.write("COMMENTS: another\nDATA:\n  - type: tabulated nk\n    data: |\n        0.1 9.5 8.5\n        9000.0 9.5 8.5\n")
                    else:
                        fp.write("# COMMENTS: another\n" + ("0.1,9.5,8.5\n9000,9.5,8.5\n" if x.endswith(".csv") else "0.1 9.5 8.5\n9000 9.5 8.5\n"))
                out.append(x)
        return out

    def do_getalias(self, op):
        a = op["a"]
        ident = self.aliases.get(a, a)
        if a == "nobody":
            ident = self.rng.choice(["nobody", "NOBODY", "UserData", "wavelength", self.frame()["Name"].iloc[0] + "?" if len(self.frame()) else "x", "%", "*", "a1 "])
        self.lookup(ident, op)

    def do_getrow(self, op):
        pos = self.find(op["f"])
        self.lookup(pos, op)
        self.lookup(pos - len(self.frame()), op)

    def do_getbad(self, op):
        n = len(self.frame())
        for x in {"beyond": [n, n + 1, 3 * n + 5], "before": [-n - 1, -n - 2, -3 * n - 5], "float": [0.0, 1.5], "none": [None], "list": [[0], [], (0,)], "bytes": [b"gold", b""]}[op["how"]]:
            self.lookup(x, op)

    def do_reorder(self, op):
        rng, df = self.rng, self.frame()
        c = rng.randrange(5)
        if c == 0:
            new = df.sort_values(rng.choice(["Name", "Path", "SpectrumLowerBound", "Alias"]), ascending=rng.random() < .5)
        elif c == 1:
            new = df.iloc[::-1]
        elif c == 2:
            new = df.sample(frac=1, random_state=rng.randrange(1000))
        elif c == 3:
            new = df.iloc[::-1].reset_index(drop=True)
        else:
            new = df[[*df.columns[::-1]]].sample(frac=1, random_state=rng.randrange(1000))
            new = new[df.columns]
        self.cat.set_database(new.copy())
        self.check_rows(op["rows"])

    def do_relabel(self, op):
        df = self.frame().copy()
        i = self.find(op["f"])
        pair = PAIR[op["u"]]
        for c, v in (("SpectrumType", pair[0]), ("Unit", self.rng.choice([pair[1], NAMES[pair[1]]]))):
            df.iat[i, list(df.columns).index(c)] = v
        self.cat.set_database(df)
        self.check_rows(op["rows"])

    def do_switch(self, op):
        self.cat, self.another = self.another, self.cat
        if self.cat is not None:
            self.check_rows(op["rows"])

    def do_exchange(self, op):
        rng, df = self.rng, self.frame().copy()
        i, j = self.find(op["f"]), self.find(op["g"])
        col = [c for c in range(df.shape[1]) if df.columns[c] == "Alias"]
        if rng.random() < .5:       # the rest of the rows changes places
            col = [c for c in range(df.shape[1]) if c not in col]
        for c in col:
            a, b = df.iat[i, c], df.iat[j, c]
            df.iat[i, c], df.iat[j, c] = b, a
        self.cat.set_database(df)
        self.check_rows(op["rows"])

    def do_drop(self, op):
        df = self.frame()
        pos = self.find(op["f"])
        keep = [i for i in range(len(df)) if i != pos]
        c = self.rng.randrange(3)
        new = df.iloc[keep] if c == 0 else df.drop(index=df.index[pos]) if c == 1 else df.iloc[keep].reset_index(drop=True)
        self.cat.set_database(new.copy())
        self.check_rows(op["rows"])


CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Files <- %(files)s
 First <- %(first)s
 Confs <- %(confs)s
 Rebuilds <- %(rebuilds)s
 Names <- %(names)s
 Targets <- %(targets)s
 Layouts <- %(layouts)s
 Ops = {%(ops)s}
 MaxVer = %(ver)d
 MaxSteps = %(steps)d
INVARIANTS AliasUnique EachFileOnce
PROPERTY ObjectsAreSeparate OnlySaveWrites PartialKeepsRest FailureIsClean OneRowChanges ReloadIsSaved LookupRight LookupUnit RebuildResets
ACTION_CONSTRAINT Emit
"""


def cfg(files, ops, first="Nothing", confs="FullConf", rebuilds="OnlyAll", names="NoNames", targets=None, ver=1, steps=0, layouts="NoLayouts"):
    return CFG % dict(files=files, first=first, confs=confs, rebuilds=rebuilds, names=names, targets=targets or files, layouts=layouts,
                      ops=", ".join('"%s"' % o for o in ops.split()), ver=ver, steps=steps)


class Walker(Cat):
    """a Cat for walks through a state graph"""
    files, first = [], []

    def reset(self):
        super().reset()
        self.last_saved = None
        self.images = []
        self.prepare(self.files)
        for f in self.first:
            self.put(f, 1)


def explore(chk, label, text, all_files, first_ids, cover=None, rand=0, length=25, maxlen=40, weight=None, module="CatalogueMC", only=None, cap=None):
    """replay the state graph: walks covering every edge, and random ones"""
    r = chk.tlc(module, text, label=label, workers=4)
    g = Graph(r.edges)
    w = Walker(chk)
    w.files = all_files
    w.first = [f for f in all_files if f["id"] in first_ids]
    init = g.init([sorted([[f["m"] + "/" + f["id"], 1] for f in w.first]), [["NONE"]], [["NONE"]], 0]) if False else None
    firsts = [r.first]
    init = g.init(firsts[0])
    n = 0
    if cover:
        for walk in g.cover_walks(init, maxlen=maxlen, rng=chk.rng, only=only):
            chk.replay_walk(w, walk, label)
            n += 1
            if cap and n >= cap:
                break
    for walk in g.random_walks(init, rand, length, chk.rng, weight):
        chk.replay_walk(w, walk, label)
    chk.cov.setdefault("edges", {})[label] = len(g.edges)
    w.close()
    return g, init, w


def F(m, id, ext, kind, own, w):
    return {"m": {"U": U, "R": R, "M": M}[m], "id": id, "ext": ext, "kind": kind, "own": own, "w": w, "of": ""}
