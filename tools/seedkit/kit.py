"""usage: kit.py defs.py [id...]: make seeded/<id>/ from definitions, verify in a namespace, run the check"""
import sys, os, subprocess, shutil, json, importlib.util, textwrap
from concurrent.futures import ThreadPoolExecutor
spec = importlib.util.spec_from_file_location("defs", sys.argv[1]); D = importlib.util.module_from_spec(spec); spec.loader.exec_module(D)
ids = sys.argv[2:] or [s["id"] for s in D.SEEDS]
seed = os.environ.get("VERIF_SEED", "1")
BASE = json.load(open("/opt/vp/BASELINE.json"))
import threading
LOCK=threading.Lock()
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def one(s):
    i = s["id"]; w = "/tmp/seedkit/w_" + i
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    sh("cp -a /repo %s/repo; cp -a /verif %s/verif; rm -rf %s/verif/seeded" % (w, w, w))
    orig = sh("git -C /repo blame -s HEAD -- src >/dev/null 2>&1")
    for f, old, new in s["edits"]:
        p = "%s/repo/src/dispersion/%s" % (w, f); t = open(p).read()
        if t.count(old) != 1: return i, "EDIT ERROR %s: %d matches of %r" % (f, t.count(old), old[:60])
        open(p, "w").write(t.replace(old, new))
    diff = sh("git -C %s/repo diff" % w).stdout
    mine = set(sh("git -C /repo rev-list 4587076..HEAD").stdout.split())
    rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    blamed = []
    for f in {e[0] for e in s["edits"]}:
        bl = sh("git -C /repo blame -l -s HEAD -- src/dispersion/" + f).stdout.splitlines()
        blamed += [l.split(")", 1)[1][1:] for l in bl if l.split()[0] in mine]
    bad = [l for l in rem if l in blamed and l.strip()]
    if bad: return i, "TOUCHES OWN LINES: %r" % bad
    sd = "/verif/seeded/" + i; os.makedirs(sd, exist_ok=True)
    open(sd + "/patch.diff", "w").write(diff)
    open(sd + "/demo.py", "w").write(textwrap.dedent(s["demo"]).lstrip())
    open(sd + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property held for this input\nd="$(cd "$(dirname "$0")" && pwd)"\nt="$(mktemp -d)"; trap \'rm -rf -- "$t"\' EXIT\nmkdir -p "$t/home"\nHOME="$t/home" MPLBACKEND=Agg MPLCONFIGDIR="$t/mpl" PYTHONDONTWRITEBYTECODE=1 SCRATCH="$t" PYTHONPATH="$PWD/src" /opt/venv/bin/python -W ignore -X utf8 "$d/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
    r0 = sh("cd /repo && bash %s/demo.sh" % sd)
    if r0.returncode: return i, "DEMO FAILS ON CLEAN: " + (r0.stdout + r0.stderr)[-600:]
    ns = "unshare -m bash -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && " % (w, w)
    shutil.copytree(sd, w + "/sd")
    r = sh(ns + "cd /repo && bash %s/sd/demo.sh'" % w)
    if r.returncode == 0: return i, "DEMO PASSES WITH BUG"
    demo_msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
    with LOCK: r = sh(ns + "bash /opt/vp/test.sh %s/t.json'" % w)
    t = json.load(open(w + "/t.json"))
    stable = BASE.get("stable") or BASE.get("passed") or BASE.get("tests")
    missing = [x for x in stable if x not in t["passed"]]
    if missing: return i, "TESTS BREAK: %s" % missing
    if os.environ.get("NOCHECK"): return i, "valid " + str(demo_msg)
    r = sh(ns + "cd /verif && VERIF_SEED=%s bash check.sh %s quick'" % (seed, s["property"]))
    res = "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + s["property"] in r.stdout else "MISSED rc=%s" % r.returncode
    shutil.rmtree(w, ignore_errors=True)
    return i, res + " | " + " / ".join((r.stdout + r.stderr).strip().splitlines()[:2])[:400]
with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    for i, m in ex.map(one, [s for s in D.SEEDS if s["id"] in ids]):
        print(i, "=>", m, flush=True)
