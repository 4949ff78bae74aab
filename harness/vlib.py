"""Shared machinery: running TLC, walking emitted state graphs through the real
code, verdicts, evidence.

Every specification emits its transitions while TLC explores it: an action
constraint prints <<"@@", ToJson([f |-> view, o |-> op', t |-> view'])>>.
"""
import json, os, sys, time, random, shutil, signal, subprocess, traceback, re
from collections import deque, defaultdict

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
SCRATCH = os.environ.get("VERIF_SCRATCH", "/tmp")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """the check itself failed: never reported as a violation"""


class Mismatch(Exception):
    """the code disagrees with the specification"""


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


class limit:
    """wall-clock limit for a piece of code under test"""
    def __init__(self, seconds=60):
        self.seconds = seconds

    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


class TLCResult:
    def __init__(self):
        self.edges = []      # decoded emitted records
        self.first = None    # the state the first record is from
        self.generated = 0
        self.distinct = 0
        self.inits = 0
        self.out = ""
        self.violated = None


_UNESC = re.compile(r'^<<"@@", (".*")>>$')
_COV = re.compile(r'^<(\w+) line .*?>: (\d+):(\d+)')


def run_tlc(module, cfg, files=None, workers=1, timeout=800, heap="3g", simulate=None,
            depth=None, expect_ok=True, seed=None, coverage=False, deque_=False):
    """run TLC on SPEC/<module>.tla with configuration text `cfg`"""
    work = os.path.join(SCRATCH, "tlc_%s_%d_%d" % (module, os.getpid(), random.getrandbits(30)))
    os.makedirs(work)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), work)
        for name, text in (files or {}).items():
            with open(os.path.join(work, name), "w") as fp:
                fp.write(text)
        with open(os.path.join(work, "MC.cfg"), "w") as fp:
            fp.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + work, "-Dtlc2.TLC.stopAfter=%d" % timeout,
               "-cp", CP, "tlc2.TLC", "-config", "MC.cfg", "-workers", str(workers),
               "-metadir", os.path.join(work, "meta"), "-noGenerateSpecTE", "-deadlock"]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 20)]
            cmd += ["-seed", str(seed if seed is not None else 1)]
        cmd += [module + ".tla"]
        outp = os.path.join(work, "out.txt")
        with open(outp, "w") as fp:
            try:
                rc = subprocess.run(cmd, cwd=work, stdout=fp, stderr=subprocess.STDOUT,
                                    timeout=timeout + 60).returncode
            except subprocess.TimeoutExpired:
                raise MachineryError("TLC timed out on " + module)
        res = TLCResult()
        rest = []
        intern, strings = {}, {}
        lines = []
        with open(outp, encoding="utf-8") as fp:
            for line in fp:
                line = line.rstrip("\n")
                if line.startswith('<<"@@"'):
                    lines.append(line)
                else:
                    rest.append(line)
        # the workers print in any order: the edges are sorted, so that a seed determines the run
        first = lines[:1]
        if not simulate:
            lines.sort()
        for line in first + lines:
            m = _UNESC.match(line)
            if not m:
                raise MachineryError("unparsable TLC output line: " + line[:300])
            rec = json.loads(json.loads(m.group(1)))
            if res.first is None and isinstance(rec, dict) and "f" in rec:
                res.first = rec["f"]        # breadth first: an initial state
                continue
            if isinstance(rec, dict) and "o" in rec:      # many edges share their operation
                k = json.dumps(rec["o"])
                rec["o"] = intern.setdefault(k, rec["o"])
                for e in ("f", "t"):
                    k = json.dumps(rec[e])
                    rec[e] = strings.setdefault(k, rec[e])
            res.edges.append(rec)
        res.out = "\n".join(rest)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", res.out)
        if m:
            res.generated, res.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r"Finished computing initial states: (\d+)", res.out)
        if m:
            res.inits = int(m.group(1))
        m = re.search(r"(?:Invariant|Action property|Temporal properties|Property) ?(\w*) ?(?:is|were) violated", res.out)
        if m:
            res.violated = m.group(1) or "property"
        if expect_ok and (rc != 0 or "No error has been found" not in res.out and not simulate):
            raise MachineryError("TLC failed on %s (rc %s):\n%s" % (module, rc, res.out[-4000:]))
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def key(x):
    return json.dumps(x, sort_keys=True)


class Graph:
    """the labelled state graph TLC explored"""
    def __init__(self, edges):
        ids = {}
        self.out = defaultdict(list)
        self.edges = []
        seen = set()
        for e in edges:
            ek = key([e["f"], e["o"]])
            if ek in seen:
                continue
            seen.add(ek)
            f = ids.setdefault(key(e["f"]), len(ids))
            t = ids.setdefault(key(e["t"]), len(ids))
            self.out[f].append(len(self.edges))
            self.edges.append((f, e["o"], t))
        self.ids = ids
        self.n = len(ids)

    def cover_walks(self, init, maxlen=40, rng=None, only=None):
        """walks from init that together take every reachable edge (edges for
        which only(op) is false are used for travelling but need no cover)"""
        todo = {i for i, (f, o, t) in enumerate(self.edges) if only is None or only(o)}
        pend = {s: [i for i in self.out[s] if i in todo] for s in range(self.n)}
        if rng:
            for l in pend.values():
                rng.shuffle(l)
        while True:
            walk, cur = [], init
            while len(walk) < maxlen:
                l = pend[cur]
                while l and l[-1] not in todo:
                    l.pop()
                if l:
                    i = l.pop()
                    todo.discard(i)
                    walk.append(i)
                    cur = self.edges[i][2]
                    continue
                path = self._nearest(cur, pend, todo)
                if path is None:
                    break
                if len(walk) + len(path) >= maxlen and walk:
                    break
                walk.extend(path)
                cur = self.edges[path[-1]][2]
            if not walk or not any(True for _ in walk):
                return
            yield [self.edges[i][1] for i in walk]
            if not todo:
                return
            if self._nearest(init, pend, todo) is None and not any(i in todo for i in pend[init]):
                return

    def _nearest(self, s, pend, todo):
        prev = {s: None}
        q = deque([s])
        while q:
            u = q.popleft()
            if u != s and any(i in todo for i in pend[u]):
                path = []
                while prev[u] is not None:
                    path.append(prev[u])
                    u = self.edges[prev[u]][0]
                return path[::-1]
            for i in self.out[u]:
                v = self.edges[i][2]
                if v not in prev:
                    prev[v] = i
                    q.append(v)
        return None

    def random_walks(self, init, n, length, rng, weight=None):
        for _ in range(n):
            walk, cur = [], init
            for _ in range(length):
                l = self.out[cur]
                if not l:
                    break
                i = rng.choices(l, [weight(self.edges[j][1]) for j in l])[0] if weight else rng.choice(l)
                walk.append(self.edges[i][1])
                cur = self.edges[i][2]
            yield walk

    def init(self, state):
        k = key(state)
        if k not in self.ids:
            raise MachineryError("initial state not in graph: " + k)
        return self.ids[k]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s-%d" % (pid, self.seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "steps_replayed": 0, "values_compared": 0, "specs": [], "samples": []}
        self.assumptions = []
        self.actions = {}
        self.violations = []
        self.max_violations = 20

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def tlc(self, module, cfg, label="", **kw):
        r = run_tlc(module, cfg, **kw)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += max(0, r.generated - r.inits)
        self.cov["specs"].append({"spec": module, "label": label, "distinct_states": r.distinct,
                                  "states_generated": r.generated, "emitted": len(r.edges)})
        return r

    def sample(self, x, n=6):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    # -- violations
    def violation(self, what, detail):
        self.violations.append({"what": what, "detail": detail})
        if len(self.violations) >= self.max_violations:
            raise TooMany()

    def replay_walk(self, adapter, walk, label="", per_step=30):
        """run one specification behaviour on the real code"""
        done = []
        try:
            with limit(per_step):
                adapter.reset()
        except Exception as exc:
            raise MachineryError("adapter reset failed: %r" % exc) from exc
        for op in walk:
            done.append(op)
            try:
                with limit(per_step):
                    adapter.step(op)
                self.cov["steps_replayed"] += 1
                if isinstance(op, dict) and "n" in op:
                    k = "%s:%s" % (op["n"], op.get("res", ""))
                    self.actions[k] = self.actions.get(k, 0) + 1
            except Mismatch as exc:
                self.violation(label + ": " + str(exc), {"walk": done, "instance": adapter.describe()})
                break
            except Timeout:
                self.violation(label + ": no answer within %ss" % per_step, {"walk": done, "instance": adapter.describe()})
                break
            except MachineryError:
                raise
            except (Exception, SystemExit) as exc:
                tb = traceback.format_exc()
                self.violation(label + ": unexpected %s: %s" % (type(exc).__name__, exc),
                               {"walk": done, "instance": adapter.describe(), "traceback": tb})
                break
        self.cov["traces_validated_against_impl"] += 1
        close = getattr(adapter, "close", None)
        if close:
            close()

    def case(self, label, fn, data, per_step=30):
        """one stand-alone conformance case; fn(data) raises Mismatch on disagreement"""
        try:
            with limit(per_step):
                fn(data)
        except Mismatch as exc:
            self.violation(label + ": " + str(exc), data)
        except Timeout:
            self.violation(label + ": no answer within %ss" % per_step, data)
        except MachineryError:
            raise
        except (Exception, SystemExit) as exc:
            tb = traceback.format_exc()
            self.violation(label + ": unexpected %s: %s" % (type(exc).__name__, exc),
                           {"case": data, "traceback": tb})
        self.cov["traces_validated_against_impl"] += 1

    def canary(self, ok, what):
        """self test: a corrupted expectation must be rejected"""
        if not ok:
            raise MachineryError("self test failed, corruption not detected: " + what)
        self.count("canaries_rejected")

    def finish(self):
        cov = self.cov
        if self.actions:
            cov["actions_replayed"] = self.actions
        for k in ("steps_replayed", "values_compared"):
            if not cov.get(k):
                cov.pop(k, None)
        if self.cov["traces_validated_against_impl"] == 0 and not self.violations:
            raise MachineryError("nothing was checked")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
        if self.violations:
            rp = os.path.join(VERIF, "evidence", "replay_%s.json" % self.pid)
            with open(rp, "w") as fp:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier,
                           "violations": self.violations}, fp, indent=1, default=str)
            for v in self.violations[:5]:
                print("  " + str(v["what"])[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d %.1fs" % (
            self.pid, self.tier, cov["states"], cov["transitions"],
            cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


class TooMany(Exception):
    pass
