import copy, warnings, os
import numpy as np
from vlib import *
from physics import *
from mats import NAMES
from dispersion import Material, Spectrum
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Settings <- %s
 RowSets <- %s
 Prefixes <- %s
 MaxHead = %d
INVARIANT Partition
INVARIANT KeepOK
INVARIANT LateIgnored
ACTION_CONSTRAINT Emit
"""
ATTR = {"REFERENCES": "Reference", "AUTHOR": "Author", "NAME": "Name", "FULLNAME": "FullName", "COMMENTS": "Comment"}
WORDS = ["gold", "J. Doe and R. Roe", "Phys. Rev. B 6, 4370 (1972)", "see http://a.b/c:d", "ratio 3:1: fine", "Müller, Ångström µm", "a # b", "x; y; z",
         "NAME", "12.5", "n = 1.5, k = 0.1", "", "nan", "true", "key: value", "tab\tseparated", "UNIT: nm", "'quoted' \"text\"", "100%s {0} \\n",
         "line\u2028separator", "para\u2029graph", "form\x0cfeed", "next\x85line", "vertical\x0btab", "file\x1csep"]
PLAIN = ["measured by ellipsometry", "a b c", "1.0 2.0 3.0", "----------", "Ünïcode", "no metadata here, really", "500,1.5,0.1", "one\u2028two", "page\x0cbreak"]
PLAINKEY = ["Name of the sample is not known", "units are arbitrary", "Comments follow", "author unknown", "DATATYPE", "Reference"]
OTHER = ["note: something", "http://example.org", "12:30 started", "sample : 5", "Temperature: 300 K", ": nothing", "a:b:c", "x UNIT: nm", "data: see below", "file name: au.dat", "my comment: fine",
         "surname: Smith", "co-author: B", "the reference: [3]", "full-name: gold", "a DataType: tabulated eps", "old spectrumtype: energy", "raw NAME: x", "(author): y"]


def nm_of(pair, x):
    return nm_to((pair[0], pair[1]), 1.0) / x if pair[0] != "wavelength" else x / nm_to(pair, 1.0)


class TextFile:
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng
        self.dir = os.path.join(SCRATCH, "text")
        os.makedirs(self.dir, exist_ok=True)

    def describe(self):
        return {"content": getattr(self, "content", None), "kwargs": getattr(self, "kw", None)}

    def text(self, op):
        """the concrete text of an abstract file"""
        rng, st = self.rng, op["set"]
        sign = ";" if st["ext"] == "nk" else "#"
        self.values = {}
        lines = []
        for i, k in enumerate(op["head"], 1):
            if k == "empty":
                lines.append("" if st["ext"] == "csv" else rng.choice(["", "", " ", "\t"]))
                continue
            if k == "blank":
                t, v = "", ""
            elif k == "plain":
                t = v = rng.choice(PLAIN)
            elif k == "plainkey":
                t = v = rng.choice(PLAINKEY)
            elif k == "other":
                t = v = rng.choice(OTHER)
            else:
                if k == "SPECTRUMTYPE":
                    v = rng.choice([st["ft"], st["ft"].upper(), st["ft"].title()])
                elif k == "UNIT":
                    v = rng.choice([st["fu"], NAMES[st["fu"]], NAMES[st["fu"]].title()])
                elif k == "DATATYPE":
                    v = "tabulated " + st["dt"]
                else:
                    v = rng.choice(WORDS)
                kw = rng.choice([k, k.lower(), k.title(), {"FULLNAME": "FullName", "SPECTRUMTYPE": "SpectrumType", "DATATYPE": "DataType"}.get(k, k)])
                t = kw + rng.choice(["", "", "", " "]) + ":" + rng.choice([" ", "", "  "]) + v
            if k != "blank":
                t = rng.choice(["", " ", "  ", "\t"]) + t
            self.values[i] = v
            lines.append(sign + t)
        base = ANCHOR[op["pair"][1]]
        tick = base * 0.05
        if rng.random() < .15 and lines:
            lines.append("")
        self.x, self.y = [], []
        for r in op["rows"]:
            x = float("%.8g" % (base + tick * r))
            y = [rng.choice([round(rng.uniform(0.1, 4), 4), rng.uniform(0.1, 4), 1e-12 * rng.randint(1, 9)]) for _ in range(op["cols"] - 1)]
            self.x.append(x); self.y.append(y)
            fmt = rng.choice([repr, lambda v: "%.17e" % v])
            cells = [fmt(v) for v in [x] + y]
            lines.append((rng.choice([",", ", "]) if st["ext"] == "csv" else rng.choice(["\t", " ", "   "])).join(cells))
            if rng.random() < .1:   # a comment among the data is not metadata
                lines.append(sign + rng.choice([" NAME: late", " UNIT: hertz", " late comment", " DATATYPE: tabulated eps"]))
        eol = rng.choice(["\n", "\n", "\r\n"])
        return eol.join(lines) + rng.choice([eol, ""])

    def enlarged(self, op):
        """the same file with many more rows after those it has"""
        op, rng = copy.deepcopy(op), self.rng
        n = rng.choice([100, 1100, 5500, 11000])
        top = max(op["rows"])
        op["keep"] = op["keep"] + [len(op["rows"]) + i for i in range(1, n + 1)]
        op["rows"] = op["rows"] + [top + i for i in range(1, n + 1)]
        return op

    def read(self, op, big=False):
        rng, st = self.rng, op["set"]
        if big:
            op = self.enlarged(op)
        self.content = self.text(op)
        path = os.path.join(self.dir, rng.choice(["data", "a.b", "data.txt", "x y"]) + "." + st["ext"])
        with open(path, "w", encoding="utf-8", newline="") as fp:
            fp.write(self.content)
        kw = {}
        if st["at"]:
            kw["spectrum_type"] = st["at"]
        if st["au"]:
            kw["unit"] = rng.choice([st["au"], NAMES[st["au"]]])
        self.kw = kw
        mat = Material(file_path=path, **kw)
        for key, line in op["meta"].items():
            want = self.values[line] if line else ""
            if mat.meta_data[ATTR[key]] != want:
                raise Mismatch("%s is %r, the file says %r" % (ATTR[key], mat.meta_data[ATTR[key]], want))
        want = [self.values[i].strip() for i in op["comment"]]
        got = [l.strip() for l in mat.meta_data["MetaComment"].split("\n")]
        trim = lambda l: l[:max([i + 1 for i, x in enumerate(l) if x] or [0])]
        if trim(got) != trim(want):
            raise Mismatch("metacomment is %r, the file's other comment lines are %r" % (got, want))
        t, u = op["pair"]
        xs = np.array([self.x[i - 1] for i in op["keep"]])
        ys = np.array([self.y[i - 1] for i in op["keep"]])
        dt = op["dt"]
        spec = Spectrum(xs, spectrum_type=t, unit=u)
        got = mat.get_permittivity(spec) if dt == "eps" else mat.get_nk_data(spec)
        want = ys[:, 0] * (1j if dt == "k" else 1)
        if ys.shape[1] == 2:
            k = ys[:, 1]
            if dt == "n_alpha":     # absorption coefficient in 1/cm: k = alpha lambda / 4 pi
                k = k * np.array([nm_of((t, u), x) for x in xs]) * 1e-7 / (4 * np.pi)
            want = want + 1j * k
        self.chk.cov["values_compared"] += len(xs)
        if not np.allclose(got, want, rtol=1e-10, atol=1e-13):
            raise Mismatch("data read as %r in %s, the file says %r" % (got, op["pair"], want))
        if mat.meta_data["Specification"]:
            raise Mismatch("Specification is %r, the file has none" % (mat.meta_data["Specification"],))
        if rng.random() < .3:       # what the user does to this material is of no concern to the next file
            mat.meta_data["Specification"]["added"] = "by the user"
            for e in list(mat.meta_data):
                if e != "Specification":
                    mat.meta_data[e] = "changed by the user"
        if dt == "eps" and mat.data["name"] != "eps" or dt != "eps" and mat.data["name"] != "nk":
            raise Mismatch("data name is %r for %s data" % (mat.data["name"], dt))
        r = mat.get_maximum_valid_range()
        if not np.allclose(r, [xs[0], xs[-1]], rtol=1e-8):
            raise Mismatch("range is %r, the file says %r" % (r, [xs[0], xs[-1]]))
        if len(xs) > 1:      # exactly these knots: between them the straight line
            mid = (xs[1:] + xs[:-1]) / 2
            got = mat.data["imag" if dt == "k" else "real"].evaluate(Spectrum(mid, spectrum_type=t, unit=u))
            if not np.allclose(got, (ys[1:, 0] + ys[:-1, 0]) / 2, rtol=1e-9, atol=1e-13):
                raise Mismatch("the table has other rows than the file: %r between them" % (got,))
        os.remove(path)


def run(chk):
    ad = TextFile(chk)
    reads = 0
    confs = [(chk.pick("SetSmall", "SetBig"), chk.pick("RowsSmall", "RowsSmall"), "NoPrefix", chk.pick(2, 3), "short headers", chk.pick(1, 1)),
             ("SetBig", "RowsBig", "Full", chk.pick(9, 10), "complete headers", chk.pick(1, 3)),
             ("SetBig", "RowsBig", "NoPrefix", 1, "row patterns", chk.pick(3, 10)),
             ("SetBig", "LongRows", "LongHead", 0, "long files", chk.pick(2, 10))]
    for s, rws, pre, mh, label, reps in confs:
        r = chk.tlc("TextFileMC", CFG % (s, rws, pre, mh), label=label, workers=4)
        ops = [e["o"] for e in r.edges if e["o"]["n"] == "read"]
        for rep in range(reps):
            for o in ops:
                chk.case("text file (%s)" % label, ad.read, o)
                reads += 1
                if chk.violations:
                    chk.violations[-1].setdefault("instance", ad.describe())
        chk.sample({"op": ops[-1], "content": ad.content}, 3)
    big = [o for o in ops if o["keep"] == sorted(o["keep"]) and o["rows"] == sorted(o["rows"])]
    for o in chk.rng.sample(big, min(len(big), chk.pick(40, 400))):
        chk.case("long text file", lambda x: ad.read(x, big=True), o)
        reads += 1
        if chk.violations:
            chk.violations[-1].setdefault("instance", ad.describe())
    chk.cov["files_read"] = reads
    # unsupported extensions
    for ext in ("dat", "", "mat", "yaml", "tx", "json"):
        p = os.path.join(ad.dir, "u" + ("." + ext if ext else ""))
        with open(p, "w") as fp:
            fp.write("# UNIT: nm\n500 1.5 0.1\n600 1.5 0.1\n")
        def bad(x):
            try:
                Material(file_path=x["path"])
            except ValueError:
                return
            raise Mismatch("a file with extension %r was read" % ext)
        chk.case("unsupported extension", bad, {"path": p})
    o = copy.deepcopy(next(o for o in ops if len(o["keep"]) > 2))
    o["keep"] = o["keep"][:-1]
    try:
        ad.read(o); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "dropped row")
    chk.assumptions += ["no keyword is given twice; comment lines with a colon whose first word begins with a keyword are metadata"]
