import copy, warnings, os, json, math
import numpy as np
from vlib import *
from physics import *
from mats import NAMES
from expr import ev
from check_c05 import draw
from dispersion import Material, Spectrum
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 DataSets <- %s
 Second <- %s
 Args <- %s
 MetaSets <- %s
 Caps = %s
 Breaks = %s
INVARIANT AllUsed
ACTION_CONSTRAINT Emit
"""
ATTR = {"REFERENCES": "Reference", "AUTHOR": "Author", "NAME": "Name", "FULLNAME": "FullName", "COMMENTS": "Comment"}
WORDS = ["gold", "J. Doe and R. Roe", "Phys. Rev. B 6, 4370 (1972)", "see http://a.b/c:d", "Müller, Ångström µm", "a # b", "12.5", "", "nan", "true", "key: value",
         "'quoted' \"text\"", "100% {0}", "- dash", "1) T. Author. <a href=\"http://x.y/z?a=1&b=2\"><b>2</b></a><br>2) other"]
LO, HI = 420.0, 780.0     # nm, window of every data set


class Yaml:
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng
        self.path = os.path.join(SCRATCH, "mat.yml")

    def describe(self):
        return {"content": getattr(self, "content", None)}

    def num(self, v):
        return self.rng.choice([repr, repr, lambda x: "%.17g" % x, lambda x: "%.17e" % x])(float(v))

    def scalar(self, v):
        r = self.rng.random()
        if "\n" not in v and v and r < .4 and not any(c in v for c in ":#'\"{%-<&") and v.strip() == v and v not in ("true", "nan", "12.5"):
            return v
        if v and r < .7:
            return "|-\n" + "\n".join("    " + l for l in v.split("\n"))
        return json.dumps(v, ensure_ascii=False)

    def dataset(self, d, i, pair):
        """returns the entries of the data set as key, text"""
        rng = self.rng
        stated = pair
        if pair[1] not in {"wavelength": ("nm", "um"), "energy": ("ev",), "frequency": ("hz",)}[pair[0]]:
            pair = ("wavelength", "um")     # rejected in any case
        rii = d["style"] == "rii" or d["style"] == "mixed" and rng.random() < .5
        K = lambda a, b: b if (rng.random() < .5 if d["style"] == "mixed" else rii) else a
        rk = rng.choice(["wavelength_range", "range", "spectra_range"]) if rii else rng.choice(["ValidRange", "validRange"]) if d["k"] != "tab" else "ValidRange"
        ent = []
        kind = d["m"] if d["k"] == "bogus" else d["k"]
        dt = {"formula": "formula %d" % d["id"], "model": "model " + d["m"], "tab": "tabulated " + d["m"]}.get(d["k"], kind)
        ent.append((K("DataType", "type"), dt))
        win = sorted([nm_to(tuple(pair), LO), nm_to(tuple(pair), HI)])
        self.ds[i] = info = {"win": win}
        if d["k"] in ("formula", "model") or d["k"] == "bogus" and not dt.startswith("tab"):
            par = draw(rng, d["m"], d["ar"]) if d["k"] != "bogus" else [1.5, 0.1, 0.1]
            if d["m"] in ("Polynomial", "Cauchy", "RefractiveIndexInfo") and len(par) > 2 and len(par) % 2 and (d["m"] != "RefractiveIndexInfo" or len(par) > 9) \
                    and rng.random() < .4 and pair[1] == "um":
                par[-2:] = [rng.uniform(1e-9, 1e-7) if rng.random() < .5 else rng.uniform(1e-14, 9e-13), rng.choice([-18., -24., -30.])]
            par = [float("%.9g" % x) for x in par]
            info["par"] = par
            ent.append((rk, "%s %s" % (self.num(win[0]), self.num(win[1]))))
            ent.append((K("Parameters", "coefficients"), " ".join(self.num(p) for p in par)))
            if not rii and rng.random() < .5:
                ent.append(("Yields", "n"))
        else:
            n = rng.randint(2, 6)
            ncol = 2 if d["m"] in ("nk", "eps", "tabulated n2") else 1
            nms = [LO] + sorted(rng.uniform(LO + 1, HI - 1) for _ in range(n - 2)) + [HI]
            xs = [float("%.9g" % nm_to(tuple(pair), w)) for w in nms]
            ys = [[round(rng.uniform(0.1, 4), 5) for _ in range(ncol)] for _ in nms]
            rows = [[x] + y for x, y in zip(xs, ys)]
            info["rows"] = sorted(rows)
            if rng.random() < .3:
                rng.shuffle(rows)
            if rng.random() < .2 and len(rows) > 1:
                j = rng.randrange(len(rows))
                rows = rows + [[rows[j][0]] + [9.9] * ncol]     # a repeated spectral value
            info["win"] = [min(xs), max(xs)]
            if rng.random() < .25:
                for _ in range(rng.randint(1, 2)):
                    rows.insert(rng.randint(1, len(rows)), [])        # a blank line
            body = "\n".join(" " * rng.choice([0, 8]) if not r else "        " + rng.choice([" ", "  "]).join(self.num(v) for v in r) for r in rows)
            ent.append((K("Data", "data"), rng.choice(["|", "|-"]) + "\n" + body))
            if rng.random() < .3:
                ent.append((rk, "%s %s" % (self.num(win[0]), self.num(win[1]))))
        if d["unit"]:
            if d["gives"] != "unit":
                ent.append(("SpectrumType", rng.choice([stated[0], stated[0].title()])))
            if d["gives"] != "type":
                ent.append(("Unit", rng.choice([stated[1], NAMES[stated[1]]])))
        if rng.random() < .2:       # entries of no meaning to the reader
            ent.append(rng.choice([("note", "none"), ("uncertainty", "0.1"), ("unit_note", "nm"), ("datatype_old", "tabulated eps"), ("sample", "7"), ("ranges", "1 2")]))
        rng.shuffle(ent)
        return "\n".join(("  - " if j == 0 else "    ") + k + ": " + v for j, (k, v) in enumerate(ent))

    def read(self, op):
        rng = self.rng
        self.ds, self.values = {}, {}
        blocks = []
        blocks.append("DATA:\n" + "\n".join(self.dataset(d, i + 1, op["pairs"][i]) for i, d in enumerate(op["ds"])))
        comment = []
        for k in op["meta"]:
            if k == "comment":
                comment = [rng.choice(["measured", "this file is part of a database", "a: b", "", "  indented", "NAME: not metadata"]) for _ in range(rng.randint(1, 4))]
            elif k == "SPECS":
                pool = [("n_absolute", True), ("substrate", "glass"), ("temperature", "22.0 °C"), ("wavelength_vacuum", False), ("pressure", 0), ("substrate_2", ""),
                        ("film_thickness", 0.0), ("Thickness", 12.5), ("layers", [1, 2]), ("conditions", {"a": 1, "b": {}}), ("n_is_absolute", None), ("x y", "-")]
                self.spec = dict(pool[:3] if rng.random() < .3 else rng.sample(pool, rng.randint(1, 6)))
                blocks.append("SPECS:\n" + "\n".join("    %s: %s" % (a, b if isinstance(b, str) and b not in ("", "-") else json.dumps(b)) for a, b in self.spec.items()))
            else:
                self.values[k] = rng.choice(WORDS)
                blocks.append("%s: %s" % (k, self.scalar(self.values[k])))
        if rng.random() < .2:
            blocks.append(rng.choice(["CONDITIONS:\n    temperature: 300", "PROPERTIES: none", "SPECIFICATION: x", "DATASET: 7", "VERSION: 2"]))
        caps = {"upper": str.upper, "lower": str.lower, "title": str.title}[op["caps"]]
        blocks = [caps(k) + ":" + v for k, _, v in (b.partition(":") for b in blocks)]
        rng.shuffle(blocks)
        head = "".join("#" + rng.choice(["", " "]) + l + "\n" for l in comment)
        if comment and rng.random() < .7:
            head += "\n"
        mid = "\n# not a metacomment\n" if rng.random() < .2 else "\n"
        self.content = head + (mid.join(blocks) if len(blocks) > 1 else blocks[0]) + rng.choice(["\n", ""])
        if op["broken"]:
            bad = rng.choice(["OTHER: @x\n", "OTHER: [1, 2\nFOO: }\n", "\tFOO: x\n", "FOO: 'open\n", "- item\n", "FOO: %x: {\n", "FOO: !!python/nothing x\n", "FOO: *nowhere\n"])
            pad = rng.choice(["", "\n" * 5000, "  \n" * 9000])
            self.content = head + bad + pad + self.content[len(head):] if rng.random() < .7 or "open" in bad else self.content + "\n" + pad + bad
        with open(self.path, "w", encoding="utf-8") as fp:
            fp.write(self.content)
        kw = {}
        if op["arg"]:
            kw = dict(spectrum_type=op["arg"][0], unit=rng.choice([op["arg"][1], NAMES[op["arg"][1]]]))
        mat = None
        try:
            mat = Material(file_path=self.path, **kw)
            res = "ok"
        except Exception as exc:
            err, res = exc, type(exc).__name__
        if op["res"] == "error":
            if mat is not None:
                raise Mismatch("a file that is not valid yaml was accepted" if op["broken"] else "the unknown data type %r was accepted" % op["ds"][0]["m"])
            return
        if res != op["res"]:
            raise Mismatch("reading gave %s (%r), specification says %s" % (res, None if mat else err, op["res"]))
        if mat is None:
            return
        for k, a in ATTR.items():
            want = self.values.get(k, "") if k in op["meta"] else ""
            if mat.meta_data[a] != want:
                raise Mismatch("%s is %r, the file says %r" % (a, mat.meta_data[a], want))
        if "SPECS" not in op["meta"] and mat.meta_data["Specification"]:
            raise Mismatch("Specification is %r, the file has none" % (mat.meta_data["Specification"],))
        if "SPECS" in op["meta"] and dict(mat.meta_data["Specification"]) != self.spec:
            raise Mismatch("Specification is %r" % (mat.meta_data["Specification"],))
        trim = lambda l: [x.strip() for x in l]
        got = trim(mat.meta_data["MetaComment"].split("\n")) if mat.meta_data["MetaComment"] else []
        if [x for x in got] != trim(comment) and not (got == [] and not any(trim(comment))):
            raise Mismatch("metacomment is %r, the file says %r" % (mat.meta_data["MetaComment"], comment))
        p = op["parts"]
        if mat.data["name"] != p["name"]:
            raise Mismatch("data name %r, specification says %r" % (mat.data["name"], p["name"]))
        self.numbers(mat, op, p)
        if rng.random() < .5:       # what the user does to this material is of no concern to the next file
            mat.meta_data["Specification"]["added"] = "by the user"
            for e in list(mat.meta_data):
                if e != "Specification":
                    mat.meta_data[e] = "changed by the user"

    def numbers(self, mat, op, p):
        rng = self.rng
        # spectral values: the knots of the tables, random ones otherwise
        tabs = [i for i in self.ds if "rows" in self.ds[i]]
        wins = []
        for i, d in self.ds.items():
            pr = tuple(op["pairs"][i - 1])
            wins.append(sorted(self.to_nm(pr, x) for x in d["win"]))
        lo, hi = max(w[0] for w in wins), min(w[1] for w in wins)
        f = mat.get_nk_data if p["name"] == "nk" else mat.get_permittivity
        def query(pair, xs):
            return np.array(f(Spectrum(np.array(xs), spectrum_type=pair[0], unit=pair[1])))
        for i in self.ds:
            pair = tuple(op["pairs"][i - 1])
            inwin = lambda x: lo * (1 + 1e-7) <= self.to_nm(pair, x) <= hi * (1 - 1e-7)
            if "rows" in self.ds[i]:
                rows = [r for r in self.ds[i]["rows"] if len(self.ds) == 1 or inwin(r[0])]
                if not rows:
                    continue
                got = query(pair, [r[0] for r in rows])
                for part, vals in (("re", got.real), ("im", got.imag)):
                    w = p[part]
                    if w["ds"] == i:
                        want = [r[w["col"]] for r in rows]
                        self.chk.cov["values_compared"] += len(want)
                        if not np.allclose(vals, want, rtol=1e-9):
                            raise Mismatch("%s part at %s %r is %r, the table says %r" % (part, pair, [r[0] for r in rows], vals, want))
                    elif w["ds"] == 0 and np.any(np.abs(vals) > 1e-12):
                        raise Mismatch("%s part is %r, the file gives none" % (part, vals))
            else:
                xs = [x for x in (nm_to(pair, rng.uniform(lo + 2, hi - 2)) for _ in range(3))]
                xs = [float("%.9g" % x) for x in xs]
                got = query(pair, xs)
                law, par = op["laws"][i - 1], self.ds[i]["par"]
                m = op["ds"][i - 1]["m"] if op["ds"][i - 1]["k"] == "model" else None
                for x, g in zip(xs, got):
                    r = complex(g) if p["cx"] == i else g.real
                    rhs = ev(law["rhs"], par, {"x": x})
                    if isinstance(r, float) and r != r:
                        continue        # no real solution at these coefficients
                    lhs = ev(law["lhs"], par, {"r": r})
                    self.chk.cov["values_compared"] += 1
                    if not abs(lhs - rhs) <= 1e-6 * (1 + abs(rhs)):
                        raise Mismatch("%s at %r %s gives %r; formula %s%r: lhs %r rhs %r" % (op["ds"][i - 1], x, pair, g, m or "", par, lhs, rhs))
        # range: intersection in the unit of the last data set
        own = tuple(op["own"])
        r = mat.get_maximum_valid_range()
        want = sorted([nm_to(own, lo), nm_to(own, hi)])
        if not np.allclose(r, want, rtol=1e-7):
            raise Mismatch("range %r, specification says %r %s" % (r, want, own))

    def to_nm(self, pair, x):
        t, u = pair
        return x * {"m": 1e9, "cm": 1e7, "um": 1e3, "nm": 1.0, "a": 0.1}[u] if t == "wavelength" else nm_to(pair, 1.0) / x


def run(chk):
    ad = Yaml(chk)
    for a, b, args, metas, label, reps, cap in [
            ("Singles", "{}", "ArgSet", "NoMeta", "one data set", chk.pick(2, 20), None),
            ("PairReal", "PairImag", "ArgSet", "NoMeta", "n then k", chk.pick(1, 4), chk.pick(2500, None)),
            ("PairImag", "PairReal", "ArgSet", "NoMeta", "k then n", chk.pick(1, 4), chk.pick(2500, None)),
            ("FewData", "{}", "ArgSet", "AllMeta", "metadata", chk.pick(1, 15), None),
            ("FewData", "{}", "ArgSet", "TwoMeta", "broken files", chk.pick(12, 100), None)]:
        cfg = CFG % (a, b, args, metas, '{"upper", "lower", "title"}' if label == "metadata" else '{"upper"}', "{TRUE}" if label == "broken files" else "{FALSE}")
        cfg = cfg.replace("Second <- {}", "Second = {}")
        r = chk.tlc("YamlFileMC", cfg, label=label, workers=4)
        ops = [e["o"] for e in r.edges if e["o"]["n"] == "read"]
        if label in ("n then k", "k then n"):
            ops = [o for o in ops if len(o["ds"]) == 2]
        for rep in range(reps):
            chk.rng.shuffle(ops)
            for o in ops[:cap]:
                chk.case("yaml (%s)" % label, ad.read, o, per_step=60)
        chk.sample({"label": label, "content": ad.content}, 4)
        if label == "metadata":
            good = ops
    o = copy.deepcopy(next(o for o in good if len(o["ds"]) == 1 and o["ds"][0]["k"] == "formula"))
    o["laws"][0]["rhs"] = ["mul", ["rat", 101, 100], o["laws"][0]["rhs"]]
    try:
        ad.read(o); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "formula coefficients")
    chk.assumptions += ["metadata are strings; read with PyYAML (ruamel.yaml is not installed)"]
