import copy, warnings, os, sys, shutil, tempfile
from vlib import *
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Contents = {%s}
 MaxFaults = %d
 Mode = "%s"
INVARIANT UserWins
PROPERTY WrittenIsRead BrokenIsReported
ACTION_CONSTRAINT Emit
"""


def load_copy():
    """the package from a scratch copy, so that configuration files next to it can be written"""
    dst = os.path.join(SCRATCH, "pkg copy")
    shutil.copytree("/repo/src/dispersion", os.path.join(dst, "dispersion"), ignore=shutil.ignore_patterns("config.yaml", "__pycache__"))
    for m in [m for m in sys.modules if m == "dispersion" or m.startswith("dispersion.")]:
        del sys.modules[m]
    sys.path.insert(0, dst)
    import dispersion, dispersion.config
    if not dispersion.__file__.startswith(dst):
        raise MachineryError("copy not imported")
    return dispersion, os.path.join(dst, "dispersion")


DEFAULTS = {"File": "catalogue.csv", "Interactive": False, "WarnMissingPackages": False, "Modules": {"UserData": True, "RefractiveIndexInfo": True},
            "ReferenceSpectrum": {"Value": 632.8, "SpectrumType": "wavelength", "Unit": "nanometer"}}
HOMES = ["home", "my home", "hömé λ", "h #x", "h: y", "'q'", "h{0}%s", "- d", "[x]", "\"dq\""]
PATHS = ["root", "my root", "rööt", "a #b", "a: b", "yes", "1", "null", "{x}", "'q", "- a", "%s"]
NAMES_ = ["catalogue.csv", "my cat.csv", "c", "yes", "null", "1.5", "kät.csv", "a: b", "a #b", "'q'.csv", "[c]", ".hidden", "~", "cat.csv.bak"]


def tree(d):
    out = {}
    for dd, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(dd, x), d)] = None
        for x in fs:
            with open(os.path.join(dd, x), "rb") as fp:
                out[os.path.relpath(os.path.join(dd, x), d)] = fp.read()
    return out


class Conf:
    def __init__(self, chk, disp, pkgdir):
        self.chk, self.rng, self.disp, self.pkgdir = chk, chk.rng, disp, pkgdir
        self.n, self.dir = 0, None

    def describe(self):
        return {"home": os.environ.get("HOME"), "configs": self.confs}

    def reset(self):
        self.close()
        rng = self.rng
        self.n += 1
        self.dir = os.path.join(SCRATCH, "conf%d" % self.n)
        home = os.path.join(self.dir, rng.choice(HOMES))
        os.makedirs(home)
        if rng.random() < .3:
            os.makedirs(os.path.join(home, ".config"))
        if rng.random() < .2:
            os.makedirs(os.path.join(home, ".config", "dispersion"))
        self.old = os.environ["HOME"]
        os.environ["HOME"] = home
        self.userdir = os.path.join(home, ".config", "dispersion")
        self.roots = os.path.join(self.dir, "roots")
        os.makedirs(self.roots)
        self.confs = {}

    def close(self):
        if self.dir:
            os.environ["HOME"] = self.old
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None
        p = os.path.join(self.pkgdir, "config.yaml")
        if os.path.lexists(p):
            os.remove(p)

    def conf(self, c):
        if c == 0:
            return dict(DEFAULTS, Path=self.userdir)
        if c not in self.confs:
            rng = self.rng
            path = os.path.join(self.roots, rng.choice(PATHS) + str(c))
            for m in ("UserData",):
                os.makedirs(os.path.join(path, m))
            with open(os.path.join(path, "UserData", "f%d.txt" % c), "w") as fp:
                fp.write("500 1.5 0.1\n600 1.6 0.1\n")
            self.confs[c] = {"Path": path, "File": rng.choice(NAMES_), "Interactive": False, "WarnMissingPackages": rng.random() < .5,
                             "Modules": {"UserData": True, "RefractiveIndexInfo": False},
                             "ReferenceSpectrum": {"Value": rng.choice([632.8, 1e-7, 500.0, 1e22, 0.1 + 0.2, 5.32e2]), "SpectrumType": "wavelength", "Unit": "nanometer"}}
            if rng.random() < .5:
                self.confs[c]["Modules"]["Filmetrics"] = False
            if rng.random() < .2:        # incomplete, which only validation minds
                for k in rng.sample(["Interactive", "WarnMissingPackages", "Modules", "ReferenceSpectrum"], rng.randint(1, 3)):
                    del self.confs[c][k]
            elif rng.random() < .1:
                self.confs[c]["Remark"] = "something else"
            if "Modules" not in self.confs[c]:
                pass
            elif rng.random() < .15:
                self.confs[c]["Modules"] = {}
            elif rng.random() < .15:
                self.confs[c]["Modules"] = {"UserData": False}
        return self.confs[c]

    def step(self, op):
        cfg = sys.modules["dispersion.config"]
        n = op["n"]
        if n == "write":
            c = copy.deepcopy(self.conf(op["c"]))
            kw = {}
            if op["where"] == "user":
                os.makedirs(self.userdir, exist_ok=True)
                kw = {"dir_path": self.userdir}
            elif op["where"] == "pkg":
                kw = {"dir_path": self.pkgdir}
            elif op["where"] == "other":
                d = os.path.join(self.dir, "other")
                os.makedirs(d, exist_ok=True)
                kw = {"dir_path": d}
            cfg.write_config(c, **kw)
            p = os.path.join(kw.get("dir_path", self.userdir), "config.yaml")
            if self.rng.random() < .2 and os.path.isfile(p) and not os.path.islink(p):     # kept elsewhere, e.g. under version control
                q = os.path.join(self.dir, "kept%d.yaml" % self.rng.randrange(10**9))
                shutil.move(p, q)
                os.symlink(q, p)
            if c != self.conf(op["c"]):
                raise Mismatch("write_config changed the configuration it was given")
        elif n == "delete":
            p = os.path.join(self.userdir if op["where"] == "user" else self.pkgdir, "config.yaml")
            if not os.path.isfile(p):
                raise Mismatch("no configuration at %s" % p)
            os.remove(p)
        elif n == "ruin":
            p = os.path.join(self.userdir if op["where"] == "user" else self.pkgdir, "config.yaml")
            rng = self.rng
            with open(p, encoding="utf-8") as fp:
                old = fp.read()
            pad = rng.choice(["", "\n" * 5000, " \n" * 9000])
            bad = rng.choice(["Name: @x\n", "Name: [1, 2\nFoo: }\n", "\tFile: x\n", "Name: 'open\n", "- item\n", "Name: %x: {\n"])
            with open(p, "w", encoding="utf-8") as fp:
                fp.write(bad + pad + old if rng.random() < .7 or "item" in bad else old + pad + bad)
        elif n in ("get", "catalogue") and op["res"] == "error":
            try:
                got = cfg.get_config() if n == "get" else self.disp.Catalogue(rebuild="All")
            except Exception:
                return
            raise Mismatch("a broken configuration file was taken as %r" % (got,))
        elif n == "get":
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                got = cfg.get_config()
            want = self.conf(op["c"])
            if got != want:
                raise Mismatch("get_config returned %r, specification says %r" % (got, want))
            def types(d):
                return {k: types(v) if isinstance(v, dict) else type(v) for k, v in d.items()}
            if types(got) != types(want):
                raise Mismatch("get_config changed the types: %r" % (got,))
            mine = [w for w in ws if "onfig" in str(w.message)]
            if bool(mine) != op["warn"]:
                raise Mismatch("get_config %s about a missing configuration" % ("warned" if mine else "did not warn"))
        elif n == "catalogue":
            want = self.conf(op["c"])
            if op["c"] == 0:
                os.makedirs(os.path.join(self.userdir, "UserData"), exist_ok=True)
                return      # needs the library; the default configuration itself is compared in "get"
            import io, contextlib
            if set(DEFAULTS) - set(want):
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        self.disp.Catalogue(rebuild="All")
                except Exception:
                    return
                raise Mismatch("Catalogue() accepted the incomplete configuration %r" % (want,))
            with contextlib.redirect_stdout(io.StringIO()):
                cat = self.disp.Catalogue(rebuild="All")
            if list(cat.get_database()["Path"]) != (["f%d.txt" % op["c"]] if want["Modules"].get("UserData") else []):
                raise Mismatch("Catalogue() listed %r with configuration %r" % (list(cat.get_database()["Path"]), want))
        else:
            raise MachineryError(n)

    # ---- validation
    def concrete(self, c):
        rng = self.rng
        d = os.path.join(self.dir, "v")
        os.makedirs(os.path.join(d, "sub"), exist_ok=True)
        f = os.path.join(d, "plain.txt")
        open(f, "a").close()
        if rng.random() < .5:
            open(os.path.join(d, "catalogue.csv"), "w").close()
        out = {}
        odd = os.path.join(d, rng.choice(["~", "$HOME", "${HOME}", "%HOME%", "d *", "a,b", " x"]))     # directories that really have such names
        os.makedirs(odd, exist_ok=True)
        # paths that are no directories as they stand; only an expansion, which nothing after validation makes, would give one
        near = ["~", "~/", "$HOME", "${HOME}", "~root", os.path.join(d, "sub*"), os.path.join(d, "s?b"), d + " ", " " + d, "'%s'" % d, d + "\n", "file://" + d, d + os.pathsep + d, d.upper()]
        near = [p for p in near if not os.path.isdir(p)]
        out["Path"] = {"dir": rng.choice([d, d + "/", os.path.join(d, "sub"), odd, os.path.join(d, "sub", ".."), ".", "../v"]), "nodir": rng.choice([os.path.join(d, "nope"), "", "nope/nope"] + near), "file": f, "int": 3, "none": None, "bytes": os.fsencode(d), "missing": None}[c["path"]]
        out["File"] = {"plain": "catalogue.csv", "odd": rng.choice(NAMES_), "empty": "", "sub": rng.choice(["a/b.csv", "sub/", "./c.csv", "../c.csv", "x/../c.csv"]), "abs": os.path.join(d, "c.csv"), "dotdot": "..", "dot": ".", "int": 1, "none": None,
                       "long": "x" * 300, "missing": None}[c["file"]]
        b = {"true": True, "false": False, "int": rng.choice([0, 1]), "str": rng.choice(["true", "no", ""]), "none": None, "missing": None}
        out["Interactive"], out["WarnMissingPackages"] = b[c["inter"]], b[c["warn"]]
        out["Modules"] = self.modules(c["mods"])
        ref = {"Value": 632.8, "SpectrumType": "wavelength", "Unit": "nanometer"}
        r = c["ref"]
        if r.endswith("value") and r != "novalue":
            ref["Value"] = {"intvalue": 632, "strvalue": "632.8", "boolvalue": True}[r]
        ref.update({"inttype": {"SpectrumType": 1}, "noneunit": {"Unit": None}}.get(r, {}))
        for k in {"novalue": ["Value"], "notype": ["SpectrumType"], "nounit": ["Unit"]}.get(r, []):
            del ref[k]
        out["ReferenceSpectrum"] = ref
        for k, f2 in (("Path", "path"), ("File", "file"), ("Interactive", "inter"), ("WarnMissingPackages", "warn"), ("Modules", "mods"), ("ReferenceSpectrum", "ref")):
            if c[f2] == "missing":
                del out[k]
        items = list(out.items())
        rng.shuffle(items)
        return dict(items)

    def modules(self, kind):
        """any number of modules in any order; one of them, anywhere, has the value that is wrong"""
        rng = self.rng
        if kind in ("missing", "empty"):
            return None if kind == "missing" else {}
        names = ["UserData", "RefractiveIndexInfo", "Filmetrics", "Mine"]
        rng.shuffle(names)
        names = names[:rng.randint(1, 4)]
        out = {n: rng.random() < .5 for n in names}
        if kind != "ok":
            out[rng.choice(names)] = {"strvalue": rng.choice(["yes", "", "True"]), "intvalue": rng.choice([0, 1, 2]), "nonevalue": None}[kind]
        return out

    def validate(self, op):
        conf = self.concrete(op["c"])
        keep = copy.deepcopy(conf)
        cwd = os.path.join(self.dir, "cwd")
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
        before = tree(self.dir), set(os.listdir(tempfile.gettempdir()))
        what = {"validate_config": lambda: sys.modules["dispersion.config"].validate_config(conf)}
        if not op["ok"]:
            what["Catalogue"] = lambda: self.disp.Catalogue(config=conf, rebuild="All")
        for name, f in what.items():
            try:
                f()
                ok = True
            except Exception as exc:
                ok, err = False, exc
            if ok != op["ok"]:
                raise Mismatch("%s %s %r" % (name, "accepted" if ok else "rejected (%r)" % err, conf))
        if conf != keep:
            raise Mismatch("validation changed the configuration")
        if (tree(self.dir), set(os.listdir(tempfile.gettempdir()))) != before:
            raise Mismatch("validation of %r changed the file system" % conf)
        os.chdir(SCRATCH)


def run(chk):
    disp, pkgdir = load_copy()
    ad = Conf(chk, disp, pkgdir)
    r = chk.tlc("Config", CFG % (chk.pick("1, 2", "1, 2, 3"), 0, "files"), label="where configurations are stored", workers=2)
    g = Graph(r.edges)
    init = g.init([0, 0])
    for rep in range(chk.pick(15, 200)):
        for w in g.cover_walks(init, maxlen=20, rng=chk.rng):
            chk.replay_walk(ad, w, "configuration files")
    for w in g.random_walks(init, chk.pick(200, 3000), 15, chk.rng):
        chk.replay_walk(ad, w, "configuration files")
    chk.cov["edges"] = len(g.edges)
    r = chk.tlc("Config", CFG % ("1", chk.pick(2, 2), "validate"), label="validation", workers=4)
    ops = [e["o"] for e in r.edges if e["o"]["n"] == "validate"]
    ad.reset()
    for rep in range(chk.pick(1, 8)):
        for o in ops:
            chk.case("validation", ad.validate, o)
    bad = dict(next(o for o in ops if not o["ok"]), ok=True)
    try:
        ad.validate(bad); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "invalid configuration accepted")
    os.chdir(SCRATCH)
    ad.close()
    chk.assumptions += ["run on a scratch copy of the package so that a configuration next to it can exist; POSIX platform"]
