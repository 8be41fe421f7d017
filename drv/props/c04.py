"""C04: what an excluded place contains is not reported elsewhere (multi-pass V0)."""
import core
from sgen import *
from props.c03 import rscope
from mixed import mixed, histories

LEVEL = "model_checking"


def cases(rng, n):
    out = []
    for _ in range(n):
        texts = [text(rng, rng.randint(1, 5), rng.choice(["abé1 ", "abAB1 ", "aAéÉ"])) for _ in range(rng.randint(1, 3))]
        rules = []
        for _ in range(rng.randint(1, 3)):
            sc = rscope(rng, 2)
            act = action(rng, "nnrrefl")
            if rng.random() < .55:
                rules.append(script(act, [spans_entry(t, rand_spans(rng, len(t), rng.randint(1, 3))) for t in dict.fromkeys(texts)],
                                    multipass=rng.random() < .6, scope=sc))
            else:
                rules.append(regex(rng.choice(["a+", "b", "[ab]+", "é", "\\d", "ab|a", "[^ ]+", "(?i)a", "(?i)[ab]+", "[A-Zé]"]), act, scope=sc,
                                   kw=kw(5, exc=["b"]) if rng.random() < .15 else None,
                                   **({"mv": {"t": "http", "ep": "/v", "hosts": [], "dead": True, "dflt": True}} if rng.random() < .06 else {})))
        ev = [leaf(p, rng.choice(texts)) for p in uniq_paths([rand_path(rng, 2) for _ in range(rng.randint(2, 7))])]
        opts = {}
        if rng.random() < .7:
            opts["multipass"] = rng.random() < .75
        if rng.random() < .3:
            opts["implicit"] = True
        blocked = [rng.randrange(3)] if rng.random() < .15 else []
        out.append(scan(rules, ev, blocked=blocked, **opts))
    # an excluded place of a rule with included keywords: only what the rule would have reported there counts
    for _ in range(n // 6):
        la = rng.randint(2, 8)
        t1 = text(rng, rng.randint(3, 14), "ka1  b")
        t2 = text(rng, rng.randint(3, 14), "ka1  b")
        rules = [regex(rng.choice(["a", "1", "a1?", "[ab]+"]), action(rng, "nr"), scope={"t": "exc", "exc": [path("x")]},
                       kw=kw(la, inc=["k"]))]
        if rng.random() < .4:
            rules.append(regex(rng.choice(["a", "1"]), action(rng, "nr")))
        ev = [leaf(path("x"), t1), leaf(path("y"), t2)]
        rng.shuffle(ev)
        out.append(scan(rules, ev, multipass=True))
    return out


def large(rng, n):
    """Many remembered texts, long texts, matches with white space around them, many places."""
    out = []
    for _ in range(n):
        long = rng.random() < .4
        words = list(dict.fromkeys(text(rng, rng.choice([2, 90, 130, 260] if long else [1, 2, 3]), "abé1")
                                   for _ in range(rng.choice([3, 6] if long else [10, 60]))))
        sep = rng.choice([" ", "  ", " -"])
        line = lambda k: sep.join(rng.choice(words) for _ in range(k))
        pat = rng.choice(["[abé1]+", " [abé1]+"] if long else ["[abé1]+", " [abé1]+", "[abé1]+ ?", "\\s*[abé1]+\\s*", "[ab]+"])
        rules = [regex(pat, action(rng, "nr"), scope={"t": "exc", "exc": [path("x")]})]
        if rng.random() < .4:
            rules.append(regex(rng.choice(["[abé1]+", " ?[é1]+"]), action(rng, "nr"), scope={"t": "exc", "exc": [path("y"), path("z", 4)]}))
        k = 2 if long else rng.choice([4, 12])
        ps = uniq_paths([path("x", i) for i in range(rng.choice([1, 3, 6]))] + [path("y", i) for i in range(rng.choice([1, 3]))]
                        + [path("z", i) for i in range(rng.choice([0, 6]))])
        rng.shuffle(ps)
        out.append(scan(rules, [leaf(p, rng.choice(["", " "]) + line(k) + rng.choice(["", " "])) for p in ps],
                        multipass=rng.random() < .9))
    return out


def remembered(rng, n):
    """Histories of scans: what one event has at an excluded place means nothing for the next event."""
    out = []
    for _ in range(n):
        ws = ["w%d" % i for i in rng.sample(range(1000), rng.choice([2, 20, 70, 110]))]
        rules = [regex("w\\d+", action(rng, "nr"), scope={"t": "exc", "exc": [path("x")]})]
        if rng.random() < .3:
            rules.append(regex("w\\d", action(rng, "nr"), scope={"t": "inc", "inc": [path("y")], "exc": []}))
        scans = []
        for _ in range(rng.randint(2, 4)):
            ev = [leaf(path("y"), " ".join(rng.sample(ws, min(len(ws), 8))))]
            if rng.random() < .6:
                some = ws if rng.random() < .6 else rng.sample(ws, len(ws) // 2)
                ev.insert(rng.randint(0, 1), leaf(path("x", rng.randint(0, 3)), " ".join(some)))
            scans.append({"ev": ev, "blocked": [], "enc": "utf8"})
        out.append({"op": "probe", "rules": rules, "opts": {"labels": [], "multipass": rng.random() < .9}, "scans": scans})
    return out


def replayed(ctx):
    """Every initial state of MC_Pass."""
    out = []
    for v in core.vectors(ctx.model("MC_Pass.tla", "MC_PassBig.cfg" if ctx.thorough else "MC_Pass.cfg")):
        out.append(scan([regex(core.uncp(r["pat"]), r["act"], scope=r["scope"]) for r in v["rules"]],
                        [leaf(l["p"], core.uncp(l["s"])) for l in v["ev"]], multipass=v["multipass"]))
    return out


def run(ctx):
    ctx.suite("model", "TraceScan.tla", replayed(ctx), nontrivial=has_match)
    matched = lambda r: any(s["matches"] for s in r["out"].get("steps", []))
    ctx.suite("remembered", "TraceProbe.tla", remembered(ctx.rand("remembered"), ctx.n(60, 800)), nontrivial=matched, cfg="TraceView.cfg")
    ctx.suite("histories", "TraceProbe.tla", histories(ctx.rand("histories"), ctx.n(800, 10000)), nontrivial=matched, cfg="TraceView.cfg")
    ctx.suite("everything at once", "TraceScan.tla", mixed(ctx.rand("everything at once"), ctx.n(1500, 20000)), nontrivial=has_match)
    ctx.suite("large", "TraceScan.tla", large(ctx.rand("large"), ctx.n(250, 3000)), nontrivial=has_match)
    ctx.suite("random", "TraceScan.tla", cases(ctx.rand("random"), ctx.n(6000, 60000)), nontrivial=has_match)
