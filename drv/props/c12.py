"""C12: the counters of a scanner after any history of scans."""
from sgen import *
from core import cp
from props.c03 import rscope

LEVEL = "model_checking"


def labels(rng, n):
    return [[cp(rng.choice(["env", "team", "k", "type"])), cp(rng.choice(["a", "b", "é", "excluded_keywords"]))] for _ in range(n)]


def cases(rng, n):
    out = []
    for _ in range(n):
        rules = []
        texts = [text(rng, rng.randint(1, 12), "ab1é  kb-") for _ in range(rng.randint(1, 4))]
        for _ in range(rng.randint(1, 4)):
            sc = rscope(rng, 2) if rng.random() < .6 else None
            act = action(rng, "nnrefl")
            r = rng.random()
            if r < .25:
                rules.append(script(act, [spans_entry(t, rand_spans(rng, len(t), rng.randint(1, 3))) for t in dict.fromkeys(texts)],
                                    multipass=rng.random() < .7, scope=sc))
                continue
            k = None
            if r < .75:
                k = kw(rng.randint(1, 6), exc=[rng.choice(["k", "b", "a", "1"]) for _ in range(rng.randint(1, 2))])
            elif r < .87:
                k = kw(rng.randint(1, 6), inc=rng.sample(["k", "b", "a", "1", "-"], rng.randint(1, 2)))
            more = {"labels": labels(rng, rng.randint(0, 2))} if rng.random() < .6 else {}
            if rng.random() < .15:
                more["mv"] = {"t": "http", "ep": "/v", "hosts": [], "dead": True, "dflt": True}
            rules.append(regex(rng.choice(["a+", "b", "[ab]+", "é", "\\d", "ab|a", "[^ ]+", "1"]), act, scope=sc, kw=k,
                               val="luhn" if rng.random() < .08 else "", **more))
        scans = []
        for _ in range(rng.randint(1, 4)):
            ev = [leaf(p, rng.choice(texts)) for p in uniq_paths([rand_path(rng, 2) for _ in range(rng.randint(1, 5))])]
            scans.append({"ev": ev, "blocked": [rng.randrange(3)] if rng.random() < .2 else [],
                          "enc": rng.choice(["utf8", "utf8", "utf16"])})
        ls = labels(rng, rng.randint(0, 3))
        opts = {"labels": ls}
        if rng.random() < .5:
            opts["multipass"] = rng.random() < .7
        out.append({"op": "metrics", "rules": rules, "opts": opts, "scans": scans, "at": rng.randint(0, len(ls))})
    return out


def long_strings(rng, n):
    out = []
    for i in range(n):
        gap = " " * rng.choice([300, 700, 2100, 4200])
        s = "k a" + gap + "k a k a" + gap[:rng.choice([0, 40])] + "a"
        rules = [regex("a", action(rng, "nr"), kw=kw(6, exc=["k"])), regex("a", scope={"t": "exc", "exc": [path("x")]}, labels=labels(rng, 1))]
        scans = [{"ev": [leaf(path("y"), s), leaf(path("x"), "a")], "blocked": [], "enc": "utf8"}]
        out.append({"op": "metrics", "rules": rules, "opts": {"labels": labels(rng, 1)}, "scans": scans, "at": 0})
    return out


def counted(name):
    return lambda r: any(c["name"] == name and c["n"] > 0 for s in r["out"].get("steps", []) for c in s["counters"])


def run(ctx):
    ctx.suite("long strings", "TraceMetrics.tla", long_strings(ctx.rand("long strings"), ctx.n(8, 60)))
    ctx.suite("histories of scans", "TraceMetrics.tla", cases(ctx.rand("histories of scans"), ctx.n(3000, 30000)),
              nontrivial=lambda r: counted("false_positive.proximity_keywords")(r) or counted("false_positive.multipass.excluded_match")(r))
