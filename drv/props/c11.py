"""C11: scanners do not influence each other, in any history and on any number of threads."""
import core
from core import cp
from sgen import *

LEVEL = "model_checking"


def rules_for(p, n):
    """What the patterns of the model stand for in case n. "a" and "A": the same text as a rule's pattern and as a keyword."""
    w = f"é{n}é"
    if p == "a":
        return [regex(w)]
    if p == "A":
        return [regex("[0-9]x", kw=kw(20, [w]))]
    return [regex(f"ü{n}[0-9]x", {"t": "redact", "r": cp("*")})]


def from_model(h, n):
    ev = [leaf(path("f"), f"é{n}é 1x É{n}É 2x ü{n}7x Ü{n}8x")]
    ev2 = [leaf(path("g"), f"É{n}É 2x Ü{n}8x ü{n}9x é{n}é")]
    steps = []
    for i, s in enumerate(h):
        if s["do"] == "build":
            steps.append({"do": "build", "k": s["k"], "rules": rules_for(s["p"], n), "opts": {}})
        elif s["do"] == "scan":
            steps.append(scan_step(s["k"], ev if i % 2 else ev2))
        elif s["do"] == "drop":
            steps.append(s)
        else:
            steps.append({"do": "churn", "n": 1000, "tag": cp(f"c{n}x")})
    live = {}
    for s in steps:
        if s["do"] == "build":
            live[s["k"]] = 1
        elif s["do"] == "drop":
            live.pop(s["k"])
    # look at everything once more
    steps += [scan_step(k, e) for k in live for e in (ev, ev2)]
    return {"op": "hist", "pre": steps, "threads": []}


def scan_step(k, ev, enc="utf8"):
    return {"do": "scan", "k": k, "ev": ev, "blocked": [], "enc": enc}


PATS = ["a", "ab", "b+", "é", "[ab]1", "\\w+1", "a|b1", "(?i)ab", "é?a", ".b", "1{2}", "ab{2}", "-", "-a-", "中", "b[^a]", "\\d", "\\S\\s"]
KWS = ["a", "ab", "é", "-a-", "b", "中", "A", "-", "É", "a-b", "1"]


def some_rule(rng):
    k = None
    if rng.random() < .35:
        ks = rng.sample(KWS, rng.randint(1, 2))
        k = kw(rng.choice([4, 10]), ks) if rng.random() < .5 else kw(rng.choice([4, 10]), (), [x for x in ks if x.strip("-")] or ["a"])
    sc = {"t": "all"} if rng.random() < .8 else {"t": "exc", "exc": [path("b")]}
    return regex(rng.choice(PATS), action(rng, "nnnre"), kw=k, scope=sc)


def some_event(rng):
    return [leaf(p, text(rng, rng.randint(1, 12), "abAéÉ1 -")) for p in uniq_paths([path(rng.choice("ab")) for _ in range(rng.randint(1, 2))])]


def some_steps(rng, n, first, ready, drops=True, heavy=None):
    """Steps of one thread; it may use the scanners in `ready` and its own, numbered from `first`."""
    mine, nxt, out = [], first, []
    for _ in range(n):
        r = rng.random()
        if not (ready or mine) or r < .3:
            rules = [some_rule(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
            if rng.random() < .03:
                rules += [some_rule(rng) for _ in range(rng.choice([10, 70]))]
            if heavy and rng.random() < .5:
                rules.insert(0, regex(rng.choice(heavy)))
            out.append({"do": "build", "k": nxt, "rules": rules, "opts": {"kwpath": True} if rng.random() < .2 else {}})
            mine.append(nxt)
            nxt += 1
        elif drops and mine and r < .45:
            out.append({"do": "drop", "k": mine.pop(rng.randrange(len(mine)))})
        else:
            out.append(scan_step(rng.choice(ready + mine), some_event(rng), rng.choice(["utf8", "utf16"])))
    return out


def sequential(rng, n):
    out = []
    for _ in range(n):
        out.append({"op": "hist", "pre": some_steps(rng, rng.randint(8, 20), 1, []), "threads": []})
    return out


def concurrent(rng, n):
    out = []
    for i in range(n):
        heavy = [f"(?:a|[b-d]e|z{i}{j}){{40,60}}x" for j in range(2)]       # takes a while to compile
        pre = [{"do": "build", "k": 1 + j, "rules": [some_rule(rng) for _ in range(rng.randint(1, 4))], "opts": {}} for j in range(rng.randint(0, 3))]
        ready = [s["k"] for s in pre]
        th = [some_steps(rng, rng.randint(4, 10), 10 * (j + 1), ready, heavy=heavy) for j in range(rng.randint(2, 8))]
        out.append({"op": "hist", "pre": pre, "threads": th})
    return out


def gauge_races(rng, n):
    """Threads that only build and drop, while updates of the gauges are held back between being computed and published."""
    out = []
    for i in range(n):
        th = []
        for j in range(rng.randint(2, 4)):
            k, mine, steps = 10 * (j + 1), [], []
            for _ in range(rng.randint(1, 4)):
                if mine and rng.random() < .4:
                    steps.append({"do": "drop", "k": mine.pop()})
                else:
                    steps.append({"do": "build", "k": k, "rules": [regex(rng.choice(PATS + [f"g{i}{j}{k}"]))] if rng.random() < .9 else [], "opts": {}})
                    mine.append(k)
                    k += 1
            th.append(steps)
        pre = [{"do": "build", "k": 1, "rules": [regex("a")], "opts": {}}] if rng.random() < .3 else []
        out.append({"op": "hist", "pre": pre, "threads": th, "hold": rng.randint(1, 3)})
    return out


def scans(r):
    return any(o.get("matches") for part in [r["out"].get("pre", [])] + r["out"].get("outs", []) for o in part)


def run(ctx):
    ctx.model("MC_Gauge.tla", "MC_Gauge.cfg")
    ctx.model("MC_Store.tla", "MC_StoreBig.cfg" if ctx.thorough else "MC_Store.cfg")
    hs = core.vectors(ctx.model("MC_Store.tla", "MC_HistBig.cfg" if ctx.thorough else "MC_Hist.cfg"))
    ctx.suite("model histories", "TraceHist.tla", [from_model(h, n) for n, h in enumerate(hs)], nontrivial=scans)
    ctx.suite("histories", "TraceHist.tla", sequential(ctx.rand("histories"), ctx.n(800, 8000)), nontrivial=scans)
    ctx.suite("threads", "TraceHist.tla", concurrent(ctx.rand("threads"), ctx.n(400, 4000)), nontrivial=scans, shards=2)
    ctx.suite("gauge races", "TraceHist.tla", gauge_races(ctx.rand("gauge races"), ctx.n(150, 1500)), shards=2)
