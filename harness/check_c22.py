import copy, warnings, os, builtins, io, contextlib, shutil, yaml
import pandas as pd
from vlib import *
import dispersion
import dispersion.scripts.catalogue_rebuild as script
from check_c21 import LIBRARY, PAGE
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Items = {"u1", "u2", "r1"}
 Answers = {"y", "n", "yes", "no", "upper", "empty", "space", "other", "eof", "interrupt"}
PROPERTY OnlyOnYes FullRebuild
ACTION_CONSTRAINT Emit
"""
TEXTS = {"y": ["y"], "n": ["n"], "yes": ["yes", "yeah", "yy"], "no": ["no", "nn"], "upper": ["Y", "N", "YES", "NO"], "empty": [""], "space": [" y", "y ", " n", "\ty", "y\n"], "other": ["maybe", "1", "true", "j", "ja", "yn", "ok"]}


class Script:
    def __init__(self, chk):
        self.chk, self.rng, self.n, self.top = chk, chk.rng, 0, None

    def describe(self):
        return {"log": self.log, "conf": self.conf}

    def close(self):
        if self.top:
            shutil.rmtree(self.top, ignore_errors=True)

    def reset(self):
        self.close()
        rng = self.rng
        self.n += 1
        self.top = os.path.join(SCRATCH, "reb%d" % self.n)
        self.home = os.path.join(self.top, "home")
        self.root = os.path.join(self.top, rng.choice(["root", "my root", "röot"]))
        for d in (os.path.join(self.home, ".config", "dispersion"), os.path.join(self.root, "UserData"), os.path.join(self.root, "RefractiveIndexInfo", "database", "data", "main", "Ag")):
            os.makedirs(d)
        with open(os.path.join(self.root, "RefractiveIndexInfo", "database", "library.yml"), "w") as fp:
            fp.write(LIBRARY)
        self.conf = {"Path": self.root, "File": rng.choice(["catalogue.csv", "my cat.csv"]), "Interactive": False, "WarnMissingPackages": False,
                     "Modules": {"UserData": True, "RefractiveIndexInfo": True},
                     "ReferenceSpectrum": {"Value": 632.8, "SpectrumType": "wavelength", "Unit": "nanometer"}}
        self.breaker = rng.choice(["junk", "nodir", "junkyml"])
        self.log, self.pending, self.table = [], [], None
        self.csv = os.path.join(self.root, self.conf["File"])
        self.writeconf()
        for i in ("u1", "u2", "r1"):
            self.put(i)

    def writeconf(self):
        with open(os.path.join(self.home, ".config", "dispersion", "config.yaml"), "w") as fp:
            yaml.safe_dump(self.conf, fp, allow_unicode=True)

    def where(self, i):
        if i == "r1":
            return os.path.join(self.root, "RefractiveIndexInfo", "database", "data", "main", "Ag", "Johnson.yml")
        return os.path.join(self.root, "UserData", i + ".txt")

    def put(self, i):
        with open(self.where(i), "w") as fp:
            fp.write(PAGE if i == "r1" else "500 1.%s 0\n700 1.5 0\n" % i[1])

    def read(self):
        try:
            with open(self.csv, "rb") as fp:
                return fp.read()
        except FileNotFoundError:
            return None

    def step(self, op):
        n = op["n"]
        self.log.append({k: op[k] for k in op if k in ("n", "a", "i", "m")})
        if n == "toggle":
            p = self.where(op["i"])
            moved = os.path.join(self.root, "UserData.away", op["i"] + ".txt") if not os.path.isdir(os.path.join(self.root, "UserData")) else p
            if op["i"] != "r1" and not os.path.isdir(os.path.join(self.root, "UserData")):
                p = moved
            if os.path.exists(p):
                os.remove(p)
            elif p == self.where(op["i"]):
                self.put(op["i"])
            else:
                with open(p, "w") as fp:
                    fp.write("500 1.5 0\n700 1.5 0\n")
        elif n == "break":
            ud = os.path.join(self.root, "UserData")
            if self.breaker == "nodir":
                a, b = (ud, ud + ".away") if op["broken"] else (ud + ".away", ud)
                os.rename(a, b)
            else:
                p = os.path.join(ud, "zz." + ("txt" if self.breaker == "junk" else "yml"))
                if op["broken"]:
                    with open(p, "w") as fp:
                        fp.write("no numbers here\nat all\n" if self.breaker == "junk" else "DATA:\n  - type: tabulated xx\n    data: 1 2\n")
                else:
                    os.remove(p)
        elif n == "enable":
            self.conf["Modules"] = {"UserData": "user" in op["enabled"], "RefractiveIndexInfo": "rii" in op["enabled"]}
            self.writeconf()
        elif n == "start":
            self.pending = []
            if self.read() is not None and self.rng.random() < .3:     # the user has aliases in the stored catalogue
                df = pd.read_csv(self.csv, keep_default_na=False, dtype=str)
                if len(df):
                    df.loc[0, "Alias"] = "mine"
                    df.to_csv(self.csv, index=False)
        elif n == "answer":
            self.pending.append(op["a"])
            if op["end"] != "asks":
                self.play(op)
        else:
            raise MachineryError(n)

    def flush(self):
        """a behaviour that ends with an open question: nothing was written so far"""

    def play(self, op):
        rng = self.rng
        answers = list(self.pending)
        self.pending = []
        before = self.read()
        count, bad = [0], []

        def fake(prompt=""):
            i = count[0]
            count[0] += 1
            if self.read() != before:
                bad.append("the catalogue was changed before the question %d was answered" % (i + 1))
            if i >= len(answers):
                raise EOFError("asked too often")
            a = answers[i]
            if a == "eof":
                raise EOFError()
            if a == "interrupt":
                raise KeyboardInterrupt()
            return rng.choice(TEXTS[a])
        saved = builtins.input, os.environ["HOME"]
        builtins.input, os.environ["HOME"] = fake, self.home
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    rng.choice([script.main, dispersion.rebuild_catalogue])()
                    end = "returns"
                except KeyboardInterrupt:
                    end = "aborts"
                except EOFError as exc:
                    end = "aborts" if answers[-1] == "eof" else "asked again"
                except SystemExit:
                    end = "returns"
                except Exception as exc:
                    end = "fails"
                    self.log.append(repr(exc))
        finally:
            builtins.input, os.environ["HOME"] = saved
        if bad:
            raise Mismatch(bad[0])
        if count[0] != len(answers):
            raise Mismatch("%d questions were asked for the answers %r" % (count[0], answers))
        after = self.read()
        if op["end"] == "fails":
            # a broken data file need not make the build fail, but if it does the catalogue stays
            if end == "fails" and after != before:
                raise Mismatch("the build failed and the old catalogue is gone")
            return
        if end != op["end"]:
            raise Mismatch("the script %s, specification says it %s (answers %r, %r)" % (end, op["end"], answers, self.log[-1]))
        if op["a"] != "y":
            if after != before:
                raise Mismatch("the catalogue was changed after the answers %r" % answers)
            return
        df = pd.read_csv(io.BytesIO(after), keep_default_na=False, dtype=str)
        got = sorted(os.path.basename(p) for p in df["Path"])
        want = sorted(os.path.basename(self.where(i)) for i in op["csv"])
        if got != want:
            raise Mismatch("the rebuilt catalogue lists %r, there are %r" % (got, want))
        if any(df["Alias"] != ""):
            raise Mismatch("the rebuilt catalogue kept aliases")


def run(chk):
    r = chk.tlc("Rebuild", CFG, label="rebuild script", workers=4)
    g = Graph(r.edges)
    init = g.init(r.first)
    ad = Script(chk)
    chk.cov["edges"] = len(g.edges)
    n = 0
    for w in g.cover_walks(init, maxlen=30, rng=chk.rng, only=lambda o: o["n"] in ("answer", "start")):
        chk.replay_walk(ad, w, "rebuild script")
        n += 1
        if n >= chk.pick(500, 10 ** 9):
            break
    for w in g.random_walks(init, chk.pick(500, 8000), 30, chk.rng, lambda o: {"start": 5, "answer": 2, "break": .5}.get(o["n"], 1) * (3 if o.get("a") == "y" else 1)):
        chk.replay_walk(ad, w, "rebuild script")
    ok = False
    for w in g.random_walks(init, 400, 30, chk.rng):
        i = next((i for i, o in enumerate(w) if o["n"] == "answer" and o["a"] == "y" and o["end"] == "returns" and o["csv"]), None)
        if i is None:
            continue
        w = copy.deepcopy(w[:i + 1])
        w[i]["csv"].pop()
        ad.reset()
        try:
            for o in w:
                ad.step(o)
        except Mismatch:
            ok = True
        break
    chk.canary(ok, "missing row")
    ad.close()
