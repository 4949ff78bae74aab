import copy, warnings, os, sys, types, builtins, io, contextlib, shutil, yaml
from vlib import *
from dispersion import Material, Spectrum
import dispersion.scripts.setup_dispersion as setup
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Libs <- AllLibs
 Roots <- AllRoots
 NamesGiven <- AllNames
INVARIANT WrittenLate
PROPERTY BuiltOnYes EnabledRight AbortKeeps
ACTION_CONSTRAINT Emit
"""
LIBRARY = """- SHELF: main
  name: Main
  content:
      - BOOK: Ag
        name: Silver
        content:
          - PAGE: Johnson
            name: n,k
            data: main/Ag/Johnson.yml
"""
PAGE = "REFERENCES: ref\nDATA:\n  - type: tabulated nk\n    data: |\n        0.4 1.1 2.0\n        0.8 1.2 3.0\n"


def make_library(d, kind):
    if kind == "none":
        return
    os.makedirs(d)
    if kind == "dironly":
        with open(os.path.join(d, "README"), "w") as fp:
            fp.write("x")
        return
    os.makedirs(os.path.join(d, "database"))
    if kind == "dbonly":
        return
    with open(os.path.join(d, "database", "catalog-nk.yml" if kind == "catalog" else "library.yml"), "w") as fp:
        fp.write(LIBRARY)
    if kind != "broken":       # broken: there is a library but no data
        p = os.path.join(d, "database", "data", "main", "Ag")
        os.makedirs(p)
        with open(os.path.join(p, "Johnson.yml"), "w") as fp:
            fp.write(PAGE)


class Dialogue:
    def __init__(self, chk):
        self.chk, self.rng, self.n = chk, chk.rng, 0

    def read(self, p):
        try:
            with open(p, "rb") as fp:
                return fp.read()
        except FileNotFoundError:
            return None

    def run(self, walk):
        """walk: the specification's operations from the first question on; if it stops at a question the user aborts there"""
        rng = self.rng
        self.n += 1
        top = os.path.join(SCRATCH, "setup%d" % self.n)
        home = os.path.join(top, rng.choice(["home", "my home", "hömé"]))
        userdir = os.path.join(home, ".config", "dispersion")
        os.makedirs(userdir if rng.random() < .5 else home)
        env = walk[0]["t"]["env"]
        old = os.path.join(top, rng.choice(["old", "old dir", "öld"]))
        os.makedirs(old)
        new = os.path.join(top, "new", rng.choice(["root", "my: root", "r#t"]))
        link = os.path.join(top, "link")
        os.symlink(old, link)
        # the user may write a directory in many ways; what was written is what is stored
        old = rng.choice([old, old, old + "/", old + "/.", link, os.path.join(top, "home", "..", os.path.basename(old)) if os.path.isdir(os.path.join(top, "home")) else old, top + "//" + os.path.basename(old)])
        new = rng.choice([new, new, new + "/", top + "//new/x", os.path.join(link, "sub"), os.path.join(top, "NEW")])
        paths = {"default": userdir, "olddir": old, "newdir": new}
        for p in (userdir, old):
            os.makedirs(p, exist_ok=True)
            make_library(os.path.join(p, "RefractiveIndexInfo"), env["lib"])
            if rng.random() < .3:
                os.makedirs(os.path.join(p, "UserData"))
                with open(os.path.join(p, "UserData", "mine.txt"), "w") as fp:
                    fp.write("500 1.5 0\n600 1.5 0\n")
        names = {"default": "catalogue.csv", "plain": rng.choice(["cat.csv", "my cat", "kät.csv", "yes", "1"])}
        confpath = os.path.join(userdir, "config.yaml")
        if env["old"]:
            os.makedirs(userdir, exist_ok=True)
            with open(confpath, "w") as fp:
                fp.write("Path: /somewhere\nFile: old.csv\nInteractive: false\nModules: {UserData: true}\n# kept\n")
            os.utime(confpath, (1e9, 1e9))
        for p in (userdir, old):
            for x in names.values():
                if rng.random() < .7:
                    with open(os.path.join(p, x), "w") as fp:
                        fp.write("old catalogue\n")
        conf0 = self.read(confpath)
        csv0 = {(a, b): self.read(os.path.join(paths[a], names[b])) for a in paths for b in names}
        answers, states, shown = [], [], []
        for o in walk:
            if o["n"] == "abort":
                break
            a = o["a"]
            if o["n"] == "root":
                t = {"default": "", "olddir": old, "newdir": new, "bad": rng.choice(["relative", ".", "~/x", "a/b", " " + old])}[a]
            elif o["n"] == "name":
                t = {"default": "", "plain": names["plain"], "bad": rng.choice(["a/b", "..", ".", os.path.join(old, "c.csv"), "x/", "y" * 300])}[a]
            else:
                t = rng.choice({"yes": ["y", "yes"], "no": ["n", "no"], "other": ["Y", "", "maybe", "yes ", "N", "NO", "yn", "1"]}[a])
            answers.append(t)
            states.append(o["t"])
        end = walk[-1]["t"]
        aborted = end["q"] not in ("done", "failed")
        exc = rng.choice([EOFError, KeyboardInterrupt])
        problems = []
        count = [0]
        qconf = [walk[0]["t"]["conf"] if False else "old"] + [s["conf"] for s in states]

        def fake_input(prompt=""):
            i = count[0]
            count[0] += 1
            shown.append(prompt)
            if i < len(qconf):
                now = self.read(confpath)
                if qconf[i] == "old" and now != conf0:
                    problems.append("at question %d (%r) the configuration was already changed" % (i + 1, prompt))
                for k, v in csv0.items():
                    if self.read(os.path.join(paths[k[0]], names[k[1]])) != v:
                        problems.append("at question %d (%r) the catalogue was already changed" % (i + 1, prompt))
            if i >= len(answers):
                raise exc()
            return answers[i]

        cloned = []

        class Repo:
            @staticmethod
            def clone_from(url, to, *a, **k):
                cloned.append((url, to))
                if not env["net"]:
                    raise RuntimeError("no network")
                if os.path.isdir(to) and os.listdir(to):
                    raise RuntimeError("destination path not empty")
                if os.path.isdir(to):
                    os.rmdir(to)
                make_library(to, "catalog")
                return Repo()
        git = types.ModuleType("git")
        git.Repo = Repo
        saved = sys.modules.get("git"), builtins.input, os.environ["HOME"], os.getcwd()
        sys.modules["git"], builtins.input, os.environ["HOME"] = git, fake_input, home
        os.makedirs(os.path.join(top, "cwd"))
        os.chdir(os.path.join(top, "cwd"))
        self.info = {"answers": answers, "env": env, "prompts": shown, "aborted": aborted}
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    setup.main()
                    res = "done"
                except exc:
                    res = "aborted"
                except Exception as e:
                    res, err = "failed", e
                    self.info["error"] = repr(e)
        finally:
            if saved[0] is None:
                sys.modules.pop("git", None)
            else:
                sys.modules["git"] = saved[0]
            builtins.input, os.environ["HOME"] = saved[1], saved[2]
            os.chdir(saved[3])
        try:
            if problems:
                raise Mismatch(problems[0])
            want = "aborted" if aborted else end["q"]
            if res != want:
                raise Mismatch("the dialogue %s after %d questions, specification says %s after %d; answers %r; prompts %r" % (res, count[0], want, len(answers) + aborted, answers, shown))
            if count[0] != len(answers) + aborted:
                raise Mismatch("%d questions were asked, specification says %d" % (count[0], len(answers) + aborted))
            self.outcome(end, paths, names, confpath, conf0, csv0, userdir, top)
        finally:
            shutil.rmtree(top, ignore_errors=True)

    def outcome(self, end, paths, names, confpath, conf0, csv0, userdir, top):
        now = self.read(confpath)
        if end["conf"] == "old":
            if now != conf0:
                raise Mismatch("the configuration was changed although it was not confirmed")
        else:
            conf = yaml.safe_load(now.decode("utf-8")) if now else None
            root = paths[end["path"]]
            want = {"Path": root, "File": names[end["name"]], "Interactive": False, "WarnMissingPackages": False,
                    "Modules": {"UserData": True, "RefractiveIndexInfo": end["rii"]},
                    "ReferenceSpectrum": {"Value": 632.8, "SpectrumType": "wavelength", "Unit": "nanometer"}}
            if conf != want:
                raise Mismatch("the configuration is %r, the user confirmed %r" % (conf, want))
            ud = os.path.join(root, "UserData")
            ex = sorted(x for x in os.listdir(ud) if x != "mine.txt")
            if len(ex) != 2:
                raise Mismatch("UserData has the files %r" % ex)
            for x in ex:
                m = Material(file_path=os.path.join(ud, x))
                v = m.get_nk_data(Spectrum(500.0, unit="nm"))
                if not (abs(v.real - 1.6) < .8 and abs(v.imag - .05) < 1e-9):
                    raise Mismatch("example %s has n = %r" % (x, v))
        for (p, n), old in csv0.items():
            now = self.read(os.path.join(paths[p], names[n]))
            if (p, n) == (end["path"], end["name"]) and end["cat"] == "new":
                if now is None or now == old:
                    raise Mismatch("no catalogue was written to %s" % names[n])
                text = now.decode("utf-8")
                nrow = 2 + os.path.exists(os.path.join(paths[p], "UserData", "mine.txt")) + end["rii"]
                import pandas as pd
                df = pd.read_csv(io.StringIO(text), keep_default_na=False)
                if len(df) != nrow or ("Johnson" in text) != end["rii"]:
                    raise Mismatch("the catalogue has %d rows, expected %d" % (len(df), nrow))
            elif now != old and not (p != end["path"] and False):
                raise Mismatch("catalogue %s in %s was changed without being asked to" % (names[n], p))
        stray = os.listdir(os.path.join(top, "cwd"))
        if stray:
            raise Mismatch("files were written to the working directory: %r" % stray)


def run(chk):
    r = chk.tlc("SetupMC", CFG, label="setup dialogue", workers=4)
    g = Graph(r.edges)
    ad = Dialogue(chk)
    inits = sorted({key(e["f"]) for e in r.edges if e["f"]["q"] == "root" and not e["f"]["path"]})
    chk.cov["edges"] = len(g.edges)
    def go(walk):
        try:
            ad.run(walk)
        except (Mismatch, Exception):
            raise
    for k in inits:
        init = g.init(json.loads(k))
        walks = list(g.cover_walks(init, maxlen=25, rng=chk.rng))
        # the edges of the walks up to the abort are what matters: also random dialogues
        for _ in range(chk.pick(1, 10)):
            for w in walks:
                chk.case("setup dialogue", go, w)
                if chk.violations:
                    chk.violations[-1].setdefault("instance", getattr(ad, "info", None))
        for w in g.random_walks(init, chk.pick(30, 400), 18, chk.rng, lambda o: .15 if o["n"] == "abort" else 2 if o["a"] == "yes" else 1):
            chk.case("setup dialogue", go, w)
            if chk.violations:
                chk.violations[-1].setdefault("instance", getattr(ad, "info", None))
    chk.sample(getattr(ad, "info", None), 2)
    w = next(w for w in g.random_walks(init, 2000, 18, chk.rng, lambda o: 5 if o.get("a") == "yes" else 1) if w[-1]["t"]["q"] == "done" and w[-1]["t"]["conf"] == "new")
    w = copy.deepcopy(w)
    w[-1]["t"]["rii"] = not w[-1]["t"]["rii"]
    try:
        ad.run(w); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "module disabled")
    chk.assumptions += ["downloading is replaced by a stand-in for git.Repo.clone_from that behaves like git (fails without network and into a non-empty folder)"]
