import copy, warnings
from vlib import *
from ad_ranges import Ranges
from check_c03 import CFG
warnings.simplefilter("ignore")


def run(chk):
    ad = Ranges(chk)
    for parts, label in (("RKinds", "every kind"), ("RNarrow", "short and narrow ranges"), ("RWide", "ranges over four orders of magnitude")):
        r = chk.tlc("RangesMC", CFG % (parts, "OnlyConst", "Ext2Pairs", 400, 0, "FALSE", "FewShapes"), label=label, workers=4)
        g = Graph(r.edges)
        for _ in range(chk.pick(2, 10)):
            for walk in g.cover_walks(g.init([[], 0]), maxlen=200, rng=chk.rng, only=lambda o: o["n"] == "report"):
                chk.replay_walk(ad, walk, "range of a kind")
    r = chk.tlc("RangesMC", CFG % (chk.pick("R2", "R2Big"), chk.pick("I2", "I2Big"), "Ext2Pairs", 400, chk.pick(1, 2), "TRUE", "FewShapes"),
                label="histories", workers=4)
    g = Graph(r.edges)
    init = g.init([[], 0])
    # report after every history step: interleave a report edge after each step of a walk
    rep_edge = {f: o for f, o, t in g.edges if o["n"] == "report"}
    def with_reports(edges_walk):
        return edges_walk
    for k in range(chk.pick(1, 2)):
        for walk in cover_reporting(g, init, chk.rng, rep_edge):
            chk.replay_walk(ad, walk, "reported range")
            chk.sample({"walk": [(o["n"], o.get("lo"), o.get("hi")) for o in walk[:8]]}, 3)
    made = {t: o for f, o, t in g.edges if o["n"] == "construct"}
    bad = copy.deepcopy(next((f, o) for f, o, t in g.edges if o["n"] == "report" and not o["unb"] and f in made))
    con = made[bad[0]]
    ad.reset(); ad.step(con)
    bad[1]["hi"] += 2000000
    try:
        ad.step(bad[1]); ok = False
    except Mismatch:
        ok = True
    chk.canary(ok, "reported upper bound")
    chk.assumptions += ["only overlapping part ranges (non-empty intersections) are in scope"]


def cover_reporting(g, init, rng, rep):
    """every state-changing edge is taken, followed by the report of the state reached"""
    for walk in cover_idx(g, init, rng):
        out = []
        for i in walk:
            f, o, t = g.edges[i]
            out.append(o)
            if t in rep and rng.random() < 0.6:
                out.append(rep[t])
        f, o, t = g.edges[walk[-1]]
        if t in rep:
            out.append(rep[t])
        yield out


def cover_idx(g, init, rng, maxlen=12):
    mut = [i for i, (f, o, t) in enumerate(g.edges) if o["n"] not in ("query", "report")]
    # parents by BFS from init over mutating edges
    prev, q = {init: None}, [init]
    outm = defaultdict(list)
    for i in mut:
        outm[g.edges[i][0]].append(i)
    for u in q:
        l = list(outm[u]); rng.shuffle(l)
        for i in l:
            v = g.edges[i][2]
            if v not in prev:
                prev[v] = i
                q.append(v)
    rng.shuffle(mut)
    todo = set(mut)
    for i in mut:
        if i not in todo:
            continue
        path = [i]
        u = g.edges[i][0]
        while prev[u] is not None:
            path.append(prev[u]); u = g.edges[prev[u]][0]
        path.reverse()
        # continue greedily over untaken edges
        v = g.edges[i][2]
        while len(path) < maxlen:
            nxt = [j for j in outm[v] if j in todo and j not in path]
            if not nxt:
                break
            j = rng.choice(nxt)
            path.append(j); v = g.edges[j][2]
        todo.difference_update(path)
        yield path
