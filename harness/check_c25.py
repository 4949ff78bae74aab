import copy, os, sys, types, shutil, warnings, contextlib, io
import pandas as pd
from vlib import *
from dispersion import Catalogue
warnings.simplefilter("ignore")
CFG = """INIT Init
NEXT Next
VIEW View
CONSTANTS
 Rows = {%s}
 Names = {%s}
 Marks = {%s}
 Stored = %s
INVARIANT Disabled
PROPERTIES OnlyAccepted FileOnlySaved ReadOnly
ACTION_CONSTRAINT Emit
"""


class Grid:
    """stand-in for the widget of the package qgrid, which works on a copy of the table"""
    def __init__(self, df=None, grid_options=None, **kw):
        self.given = df
        self.df = df.copy(deep=True)
        self.options = dict(grid_options or {})
        self.more = kw

    def get_changed_df(self):
        return self.df.copy(deep=True)


def stand_in():
    q = types.ModuleType("qgrid")
    q.QgridWidget = q.QGridWidget = Grid
    q.show_grid = lambda data_frame, *a, **kw: Grid(data_frame, **{**dict(zip(("show_toolbar", "precision", "grid_options"), a)), **kw})
    return q


class Inter:
    def __init__(self, chk):
        self.chk, self.rng, self.n, self.dir = chk, chk.rng, 0, None
        sys.modules["qgrid"] = stand_in()

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)

    def describe(self):
        return {"log": self.log}

    def reset(self):
        self.close()
        self.n += 1
        self.dir = os.path.join(SCRATCH, "int%d" % self.n)
        os.makedirs(os.path.join(self.dir, "UserData"))
        self.names = {r: s for r, s in zip(("r1", "r2", "r3"), self.rng.sample(["gold", "NA", "a.b", "x y", "007", "λ"], 3))}
        self.alias = {"": "", **{a: s for a, s in zip(("x", "y"), self.rng.sample(["gold", "NA", "my alias", "1.0", "λ", "None"], 2))}}
        self.cat, self.grid, self.log = None, None, []
        self.col = self.rng.choice(["N_Reference", "K_Reference", "SpectrumLowerBound", "SpectrumUpperBound"])

    def prepare(self, on, rows):
        for r in rows:
            with open(os.path.join(self.dir, "UserData", self.names[r] + ".txt"), "w", encoding="utf-8") as fp:
                fp.write("# COMMENTS: %s\n%d 1.5 0.1\n800 1.9 0.2\n" % (r, self.rng.choice([400, 600])))      # with or without reference value
        self.conf = {"Path": self.dir, "File": "c.csv", "Interactive": on, "WarnMissingPackages": False, "Modules": {"UserData": True},
                     "ReferenceSpectrum": {"Value": 500., "SpectrumType": "wavelength", "Unit": "nanometer"}}
        with contextlib.redirect_stdout(io.StringIO()):
            self.cat = Catalogue(config=copy.deepcopy(self.conf), rebuild="All")
        self.built = self.cat.get_database().copy(deep=True)
        self.cat.save_to_file()

    def rows(self, df):
        back = {v: k for k, v in self.names.items()}
        al = {v: k for k, v in self.alias.items()}
        return sorted((back[n], al.get(a, a)) for n, a in zip(df["Name"], df["Alias"]))

    def number(self, name, x):
        """what the number of the row of a file is"""
        return {"own": self.built[self.col].iloc[list(self.built["Name"]).index(name)], "nan": float("nan"), "num": 3.0625}[x]

    def label(self, df, r):
        return df.index[[n == self.names[r] for n in df["Name"]]][0]

    def kinds(self, df, what, db):
        """apart from the aliases every cell is that of the catalogue as built, numbers and missing numbers included"""
        for i in range(len(df)):
            row, was = df.iloc[i], self.built.iloc[list(self.built["Name"]).index(df["Name"].iloc[i])]
            for c in self.built.columns:
                if c == "Alias":
                    continue
                a, b = row[c], was[c]
                if c == self.col:
                    b = self.number(was["Name"], next((d["x"] for d in db if self.names[d["r"]] == was["Name"]), "own"))
                same = isinstance(a, str) and a == b if isinstance(b, str) else not isinstance(a, str) and (a == b or a != a and b != b)
                if not same:
                    raise Mismatch("after %s %s of %s is %r, it was %r" % (what, c, was["Name"], a, b))

    def call(self, f):
        try:
            return "ok", f()
        except ValueError as exc:
            return "ValueError", exc
        except Exception as exc:
            return "fails", exc

    def step(self, op):
        n = op["n"]
        self.log.append({k: v for k, v in op.items() if k != "db"})
        if self.cat is None:
            raise MachineryError("not prepared")
        file = open(os.path.join(self.dir, "c.csv"), "rb").read()
        if n == "show":
            before = self.cat.get_database().copy(deep=True)
            res, w = self.call(self.cat.edit_interactive if op["ed"] else self.cat.view_interactive)
            if res != op["res"]:
                raise Mismatch("%s gave %s %r, specification says %s" % ("edit_interactive" if op["ed"] else "view_interactive", res, w, op["res"]))
            if res == "ok":
                if not isinstance(w, Grid):
                    raise Mismatch("no widget was returned but %r" % (w,))
                if bool(w.options.get("editable", True)) != op["ed"]:      # qgrid's default is an editable widget
                    raise Mismatch("editable is %r, specification says %r" % (w.options.get("editable", True), op["ed"]))
                if list(w.df.columns) != list(before.columns) or w.df.to_csv() != before.to_csv():
                    raise Mismatch("the widget shows another table than the catalogue: %r" % (self.rows(w.df),))
                self.grid = w
        elif n == "cell":
            self.grid.df.at[self.label(self.grid.df, op["r"]), "Alias"] = self.alias[op["a"]]
        elif n == "number":
            i = self.label(self.grid.df, op["r"])
            self.grid.df.at[i, self.col] = self.number(self.grid.df.at[i, "Name"], op["x"])
        elif n == "delete":
            self.grid.df = self.grid.df.drop(index=self.label(self.grid.df, op["r"]))
        elif n == "accept":
            res, x = self.call(self.cat.save_interactive)
            if op["res"] == "fails":
                if res == "ok" and self.rows(self.cat.get_database()) != sorted((d["r"], d["a"]) for d in op["db"]):
                    raise Mismatch("save_interactive without a widget changed the catalogue")
            elif res != op["res"]:
                raise Mismatch("save_interactive gave %s %r, specification says %s" % (res, x, op["res"]))
        elif n == "register":
            df = self.cat.get_database()
            res, x = self.call(lambda: self.cat.register_alias(int(self.label(df, op["r"])), self.alias[op["a"]]))
            if res != op["res"]:
                raise Mismatch("register_alias gave %s, specification says %s" % (res, op["res"]))
        elif n == "save":
            self.cat.save_to_file()
        elif n == "reload":
            self.cat = Catalogue(config=copy.deepcopy(self.conf))
            self.grid = None
        if n in ("accept", "reload", "register"):
            if n == "accept" and op["res"] == "ok":
                self.kinds(self.cat.get_database(), "accept", op["db"])
            elif n != "accept":
                self.kinds(self.cat.get_database(), n, op["db"])
        if n != "save" and open(os.path.join(self.dir, "c.csv"), "rb").read() != file:
            raise Mismatch("%s wrote the catalogue file" % n)
        got, want = self.rows(self.cat.get_database()), sorted((d["r"], d["a"]) for d in op["db"])
        self.chk.cov["values_compared"] += len(want)
        if got != want:
            raise Mismatch("after %s the catalogue holds %r, specification says %r" % (n, got, want))


class Started(Inter):
    on, first = True, ()

    def reset(self):
        super().reset()
        self.prepare(self.on, self.first)


def run(chk):
    q = lambda l: ", ".join('"%s"' % x for x in l)
    last = None
    for label, rows, names, marks, stored, cap, rand in [("views and edits", ["r1", "r2"], ["x"], ["own"], "TRUE", chk.pick(200, None), chk.pick(100, 2000)),
                                                  ("numbers and the file", ["r1"], ["x"], ["own", "nan", "num"], "TRUE", chk.pick(60, None), chk.pick(60, 1500)),
                                                  ("numbers", ["r1", "r2"], ["x"], ["own", "nan", "num"], "FALSE", chk.pick(60, 1500), chk.pick(80, 2000)),
                                                  ("three materials", ["r1", "r2", "r3"], ["x", "y"], ["own"], "FALSE", chk.pick(60, 1500), chk.pick(150, 3000))]:
        r = chk.tlc("Interactive", CFG % (q(rows), q(names), q(marks), stored), label=label, workers=4)
        g = Graph(r.edges)
        ad = Started(chk)
        ad.first = rows
        fresh = sorted([{"r": x, "a": "", "x": "own"} for x in rows], key=lambda d: d["r"])
        for on in (True, False):
            ad.on = on
            init = next(g.init(e["f"]) for e in r.edges if e["f"][0] is on and not e["f"][2]
                        and all(sorted(e["f"][k], key=lambda d: d["r"]) == fresh for k in (1, 3)))
            k = 0
            for walk in g.cover_walks(init, maxlen=60, rng=chk.rng):
                chk.replay_walk(ad, walk, label)
                chk.sample({"walk": [o["n"] for o in walk[:12]]}, 3)
                k += 1
                if cap and k >= cap:
                    break
            for walk in g.random_walks(init, rand if on else rand // 10, 25, chk.rng):
                chk.replay_walk(ad, walk, label)
            chk.cov.setdefault("walks", {})["%s, %s" % (label, "on" if on else "off")] = k
        ad.on = True
        last = next(w for w in g.random_walks(next(g.init(e["f"]) for e in r.edges if e["f"][0] is True and not e["f"][2]
                        and all(sorted(e["f"][k], key=lambda d: d["r"]) == fresh for k in (1, 3))), 500, 25, chk.rng)
                    if any(o["n"] == "accept" and any(d["a"] for d in o["db"]) for o in w))
        if label == "views and edits":
            walk = copy.deepcopy(last)
            o = next(o for o in walk if o["n"] == "accept" and any(d["a"] for d in o["db"]))
            for d in o["db"]:
                d["a"] = ""
            ad.reset()
            ok = False
            try:
                for x in walk:
                    ad.step(x)
            except Mismatch:
                ok = True
            chk.canary(ok, "lost edit")
        ad.close()
    # without the package an interactive catalogue cannot be made, any other can
    ad = Started(chk)
    ad.on, ad.first = False, ["r1"]
    def missing(x):
        ad.reset()
        sys.modules["qgrid"] = None
        try:
            Catalogue(config=copy.deepcopy(ad.conf))
            conf = copy.deepcopy(ad.conf); conf["Interactive"] = True
            try:
                Catalogue(config=conf)
            except Exception:
                return
            raise Mismatch("an interactive catalogue was made without the package it needs")
        finally:
            sys.modules["qgrid"] = stand_in()
    chk.case("missing package", missing, {})
    ad.close()
    chk.assumptions += ["the widget is a stand-in with the interface of qgrid (show_grid, get_changed_df), which works on a copy of the table"]
