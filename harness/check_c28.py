import copy, io, json, os, contextlib, warnings
from vlib import *
from dispersion import Material
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Classes = {"letter", "space", "newline", "sign", "latin", "other"}
 Plain = {"letter", "space", "newline", "sign"}
 MaxLen = %d
 Origins = {%s}
INVARIANT Faithful
ACTION_CONSTRAINT Emit
"""
POOL = {"letter": "aZ09", "space": " \t", "newline": "\n", "sign": "~!\"'$%&()*+,-./;<=>?@[]^_`{|}\\", "latin": "éüßÅµ°\u00a0", "other": "λ金😀ŋ–“ﬁ\u0301"}


class Printing:
    def __init__(self, chk):
        self.chk, self.rng, self.long = chk, chk.rng, 0.01

    def reset(self):
        self.mat, self.text = None, {}

    def describe(self):
        return {"texts": self.text}

    def chars(self, s, origin=""):
        out = []
        for i, c in enumerate(s):
            pool = POOL[c]
            if origin == "text":
                pool = pool.replace("\u00a0", "")       # white space to python, not at an end
            n = self.rng.choice([300, 5000, 20000]) if self.rng.random() < self.long else 1
            run = "".join(self.rng.choice(pool) for _ in range(n))       # now and then a long run of the class
            out.append("x" + run[1:-1] + "x" if n > 1 and origin == "text" and c == "space" else run)
        return list(out)

    def step(self, op):
        if op["n"] == "make":
            o = op["o"]
            self.text = {w: self.chars(op[w], o) for w in ("ref", "com")}
            self.cls = {w: list(op[w]) for w in ("ref", "com")}
            ref, com = ("".join(self.text[w]) for w in ("ref", "com"))
            if o == "changed":
                self.mat = Material(fixed_n=1.5)
                self.mat.meta_data["Reference"], self.mat.meta_data["Comment"] = ref, com
            else:
                p = os.path.join(SCRATCH, "print" + (self.rng.choice([".txt", ".csv"]) if o == "text" else ".yml"))
                with open(p, "w", encoding="utf-8") as fp:
                    if o == "text":
                        fp.write("# REFERENCES: %s\n# COMMENTS: %s\n" % (ref, com) + ("400,1.5\n800,1.6\n" if p.endswith("csv") else "400 1.5\n800 1.6\n"))
                    else:
                        fp.write("REFERENCES: %s\nCOMMENTS: %s\nDATA:\n  - type: tabulated n\n    data: |\n        400 1.5\n        800 1.6\n" % (json.dumps(ref, ensure_ascii=False), json.dumps(com, ensure_ascii=False)))
                self.mat = Material(file_path=p)
                os.remove(p)
        elif op["n"] == "set":
            self.text[op["what"]], self.cls[op["what"]] = self.chars(op["s"]), list(op["s"])
            self.mat.meta_data["Reference" if op["what"] == "ref" else "Comment"] = "".join(self.text[op["what"]])
        else:
            w = op["what"]
            keep = copy.deepcopy(self.mat.meta_data)
            out = io.TextIOWrapper(io.BytesIO(), encoding="ascii", newline="\n")        # a terminal that can show ASCII only
            with contextlib.redirect_stdout(out):
                (self.mat.print_reference if w == "ref" else self.mat.print_comment)()
            out.flush()
            got = out.buffer.getvalue().decode()
            kept = [t for t, c in zip(self.text[w], self.cls[w]) if c in ("letter", "space", "newline", "sign")]
            want = "".join(kept)
            if len(kept) != len(op["out"]):
                raise MachineryError("adapter and specification disagree")
            self.chk.cov["values_compared"] += 1
            if got != want + "\n":
                raise Mismatch("printed %r, specification says %r for %r" % (got, want + "\n", "".join(self.text[w])))
            if self.mat.meta_data != keep:
                raise Mismatch("printing changed the metadata")


def run(chk):
    ad = Printing(chk)
    r = chk.tlc("Printing", CFG % (chk.pick(2, 3), '"yaml", "text", "changed"'), label="texts", workers=4)
    g = Graph(r.edges)
    init = g.init([])
    n = 0
    for walk in g.cover_walks(init, maxlen=8, rng=chk.rng):
        chk.replay_walk(ad, walk, "printing")
        chk.sample({"walk": walk[:3]}, 2)
        n += 1
        if n >= chk.pick(6000, 40000):
            break
    chk.cov["walks"] = n
    ad.reset()
    ad.step({"n": "make", "o": "changed", "ref": ["letter", "other"], "com": []})
    ad.cls["ref"] = ["other", "other"]
    try:
        ad.step({"n": "print", "what": "ref", "out": []}); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "printed text")
    chk.assumptions += ["reference and comment are text"]
