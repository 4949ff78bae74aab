import copy, io, json, math, os, contextlib, warnings, yaml
from vlib import *
from dispersion.io import read_yaml_file, read_yaml_string, write_yaml_file, print_yaml_string
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Leaves = {%s}
 Keys = {%s}
 MaxTokens = %d
 MaxDepth = %d
 MaxStores = %d
INVARIANT WellFormed
PROPERTY LastWins
ACTION_CONSTRAINT Emit
"""
WORDS = ["gold", "a b c", "J. Doe, \"Title\" (1999)", "it's", "key: value", "# hash", "- item", "[x]", "{y}", "*star", "&and", "!bang", "%percent", "@at", "`tick`", "|", ">", "a\\b", "x # y", "trailing ", " leading",
         "C:\\data\\x", "http://a.b/c?d=e&f", "?", "-", "---", "...", "a: b: c", ",", "'", '"', "'quoted'", "<<", "="]
LIKE = ["1.5", "007", "1e5", "0x1F", "1_000", "12:30:45", "true", "Yes", "no", "on", "null", "~", "NaN", ".nan", ".inf", "2001-12-14", "2001-12-14 21:59:43", "", "1.0e+3", "-0", "+1", "0o17", "0b1"]
LONG = ["x " * 80, "word" * 60, "0.4 1.5\n0.8 1.6\n", "400.0 1.5 0.1\n500.0 1.6 0.2\n600.0 1.7 0.3", "a\n\nb", "\n", "line one\n  indented\nline three\n", "tab\tin it", "ends with newline\n\n", "\nstarts", "a\r\nb", "x\x85y", "x\u2028y", "nul-free \x1b escape"]
UNI = ["Müller", "λ = 500 µm", "金", "Ångström\nzwei", "e\u0301", "😀 smile", "\u00a0nbsp", "\ufeffbom"]


class Documents:
    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng
        self.path = os.path.join(SCRATCH, "document.yml")

    def describe(self):
        return {"document": repr(getattr(self, "last", None))[:2000]}

    def reset(self):
        if os.path.exists(self.path):
            os.remove(self.path)
        self.stored = {}
        self.seen = None

    def leaf(self, t):
        rng = self.rng
        return {"word": lambda: rng.choice(WORDS), "like": lambda: rng.choice(LIKE), "long": lambda: rng.choice(LONG), "uni": lambda: rng.choice(UNI),
                "int": lambda: rng.choice([0, 1, -7, 10**20, 2**63]), "bool": lambda: rng.random() < .5, "null": lambda: None,
                "float": lambda: rng.choice([0.0, -0.0, 1.0, 0.1, 1e-300, 1.7976931348623157e308, 5e-324, 123456789.123456789, rng.uniform(-1, 1), 1e16, 1e22, math.inf, -math.inf, math.nan])}[t]()

    def keyname(self, k, used):
        pool = {"key": ["Name", "DATA", "DataType", "name", "SpectrumType", "x y", "key: x"], "oddkey": ["yes", "1", "1.5", "", "null", "λ", "a\nb", "~", "- x", "?", "NAME", "on"]}[k]
        left = [x for x in pool + ["k%d" % i for i in range(20)] if x not in used]
        return self.rng.choice(left[:max(1, min(len(left), len(pool)))])

    def build(self, doc):
        it = iter(doc)
        def value(tok):
            t = tok["t"]
            if t == "list":
                out = []
                for x in it:
                    if x["t"] == "end":
                        return out
                    out.append(value(x))
            if t == "map":
                out = {}
                for x in it:
                    if x["t"] == "end":
                        return out
                    k = self.keyname(x["k"], out)
                    out[k] = value(x)
            return self.leaf(t)
        return value(next(it))

    def same(self, a, b):
        if type(a) is not type(b) and not (isinstance(a, dict) and isinstance(b, dict)):
            return False
        if isinstance(a, dict):
            return list(sorted(map(repr, a))) == list(sorted(map(repr, b))) and all(self.same(a[k], b[k]) for k in a)
        if isinstance(a, list):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, float):
            return repr(a) == repr(b)
        return a == b

    def step(self, op):
        if op["n"] != "store":
            return
        value = self.build(op["doc"])
        keep = copy.deepcopy(value)
        self.last = keep
        if op["how"] == "file":
            write_yaml_file(self.path, value)
            self.seen = keep
        else:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                print_yaml_string(value)
            got = read_yaml_string(out.getvalue())
            self.compare(got, keep, "read_yaml_string")
        if not self.same(value, keep):
            raise Mismatch("writing changed the document to %r" % (value,))
        if op["now"]:
            self.compare(read_yaml_file(self.path), self.seen, "read_yaml_file")

    def styles(self, op):
        """the same document as another program, or a person, would write it"""
        rng = self.rng
        want = self.build(op["doc"])
        self.last = copy.deepcopy(want)
        text = rng.choice([
            lambda: yaml.dump(want, default_flow_style=True, allow_unicode=True, width=10 ** 6),
            lambda: yaml.dump(want, default_flow_style=False, allow_unicode=True, indent=rng.randint(2, 8), sort_keys=False),
            lambda: yaml.dump(want, default_style='"', width=30),
            lambda: yaml.dump(want, default_style="'", allow_unicode=True),
            lambda: yaml.dump(want, explicit_start=True, explicit_end=True, line_break="\r\n"),
            lambda: yaml.dump(want, default_style=rng.choice("|>"), allow_unicode=True),
            lambda: self.block(want, 0) + "\n" * rng.randint(0, 1),
            lambda: "# a comment\n\n" + yaml.dump(want, allow_unicode=True) + "# the end\n",
            lambda: self.plain(want, 0) + "\n"])()
        try:
            if not self.same(yaml.safe_load(text), want):
                return
        except yaml.YAMLError:
            return
        with open(self.path, "w", encoding="utf-8", newline="") as fp:
            fp.write(text)
        self.chk.cov["written otherwise"] = self.chk.cov.get("written otherwise", 0) + 1
        self.last = (text, want)
        self.compare(read_yaml_file(self.path), want, "read_yaml_file")
        self.compare(read_yaml_string(text), want, "read_yaml_string")

    def plain(self, v, depth):
        """flow style with texts in single quotes, as they are"""
        if isinstance(v, dict):
            return "{" + ", ".join("%s: %s" % (self.plain(k, depth + 1), self.plain(x, depth + 1)) for k, x in v.items()) + "}"
        if isinstance(v, list):
            return "[" + ", ".join(self.plain(x, depth + 1) for x in v) + "]"
        if isinstance(v, str):
            return "'" + v.replace("'", "''") + "'"
        return yaml.dump(v).split("\n")[0]

    def block(self, v, depth):
        """indented style with texts in literal blocks, their line ends kept, up to the end of the document"""
        pad = "  " * depth
        if isinstance(v, dict) and v:
            return "".join("%s%s:%s" % (pad, json.dumps(k), self.block(x, depth + 1) if not isinstance(x, (dict, list)) or not x else "\n" + self.block(x, depth + 1)) for k, x in v.items())
        if isinstance(v, list) and v:
            return "".join("%s-%s" % (pad, self.block(x, depth + 1) if not isinstance(x, (dict, list)) or not x else "\n" + self.block(x, depth + 1)) for x in v)
        if isinstance(v, str) and v.strip() and v[0] not in " \n\t" and v.isprintable() | ("\n" in v):
            return " |%s\n" % ("+" if v.endswith("\n") else "-") + "".join(pad + "  " + l if l.strip("\n") else l for l in v.splitlines(True)) + ("" if v.endswith("\n") else "\n")
        if isinstance(v, str):
            return " " + json.dumps(v) + "\n"
        return " " + yaml.dump(v, default_flow_style=True).split("\n")[0] + "\n"

    def compare(self, got, want, what):
        self.chk.cov["values_compared"] += 1
        if not self.same(got, want):
            raise Mismatch("%s returned %r for the document %r" % (what, got, want))


def run(chk):
    ad = Documents(chk)
    q = lambda l: ", ".join('"%s"' % x for x in l)
    ALL = ["word", "like", "long", "uni", "int", "float", "bool", "null"]
    g = None
    for label, leaves, keys, tokens, depth, stores, n in [
            ("every small document", ALL, ["key", "oddkey"], chk.pick(5, 6), 3, 1, None),
            ("larger documents", ["word", "long", "float"], ["key"], chk.pick(7, 8), 4, 1, chk.pick(4000, 60000)),
            ("one file after another", ["word", "float"], ["key"], 3, 2, 3, chk.pick(3000, 20000))]:
        r = chk.tlc("Document", CFG % (q(leaves), q(keys), tokens, depth, stores), label=label, workers=4, heap="6g")
        if n is None:
            ops = [e["o"] for e in r.edges if e["o"]["n"] == "store"]
            for o in ops:
                ad.reset()
                chk.case(label, ad.step, o)
                chk.case("written otherwise", ad.styles, o)
            chk.cov["documents"] = len(ops)
            chk.sample({"op": ops[-1]}, 2)
            last = next(o for o in ops if o["how"] == "file" and len(o["doc"]) > 2)
        else:
            g = Graph(r.edges)
            init = g.init([[], [], {"doc": [], "n": 0}])
            for walk in g.random_walks(init, n, 3 * tokens * stores, chk.rng, weight=lambda o: {"store": 2.0, "token": 1.0}[o["n"]] * (2.0 if o.get("t") in ("map", "list") else 1.0)):
                chk.replay_walk(ad, walk, label)
    # what is no yaml document raises an error
    for text in ("a: [1, 2", "a: b: c\n d", "{", "\"open", "a: &x\nb: *y\n", "\tx: 1\n- y", "a: 'b\n", "key: [\n", "- a\nb: c\n", "a: \"M\xfcller\"\n", "name: \xb5m\n", "x: 1\n# \xe9t\xe9\ny: 2\n"):
        def bad(x):
            with open(ad.path, "wb") as fp:
                fp.write(x["text"].encode("latin-1"))
            for f, a in ((read_yaml_file, ad.path), (read_yaml_string, x["text"]))[:1 if not x["text"].isascii() else 2]:
                try:
                    got = f(a)
                except Exception:
                    continue
                raise Mismatch("%s(%r) returned %r" % (f.__name__, x["text"], got))
        chk.case("no yaml", bad, {"text": text})
    ad.reset()
    ok = ad.same({"a": 1.0}, {"a": 1.0}) and not ad.same({"a": 1}, {"a": 1.0}) and not ad.same(["1"], [1]) and not ad.same({"a": 1}, {"a": 1, "b": 2})
    try:
        ad.step(last)
        ad.compare(read_yaml_file(ad.path), [ad.seen], "x"); ok = False
    except Mismatch:
        pass
    chk.canary(ok, "another document")
    chk.assumptions += ["keys are text; plain Python values (no numpy scalars, tuples or custom objects)"]
