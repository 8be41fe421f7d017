"""C19: what a rule of the user's own is given while an event is scanned."""
from sgen import *
from props.c03 import rscope
from props.c12 import labels

LEVEL = "model_checking"


def probe(rng, texts, scope):
    r = script(action(rng, "nnrfl"), [spans_entry(t, rand_spans(rng, len(t), rng.randint(1, 3))) for t in texts if t],
               multipass=rng.random() < .7, scope=scope)
    r["probe"] = [rng.randint(0, 1) for _ in range(3)]
    return r


def cases(rng, n, big=False):
    out = []
    for _ in range(n):
        texts = list(dict.fromkeys(text(rng, rng.randint(0, 8), "ab1é ") for _ in range(rng.randint(1, 4))))
        rules = []
        for _ in range(rng.choice([8, 20, 70]) if big else rng.randint(1, 6)):
            sc = rscope(rng, 3) if rng.random() < .75 else None
            if rng.random() < .8:
                rules.append(probe(rng, texts, sc))
            else:
                rules.append(regex(rng.choice(["a+", "b", "é", "\\d"]), action(rng, "nr"), scope=sc))
        if rng.random() < .06:
            for _ in range(rng.randint(1, 2)):
                b = dict(probe(rng, texts, None), broken=True)
                b["act"] = {"t": "none"}
                rules.insert(rng.randint(0, len(rules)), rng.choice([b, regex("(", {"t": "none"})]))
        scans = []
        for _ in range(rng.randint(1, 3)):
            ps = uniq_paths([rand_path(rng, 8 if big else 4) for _ in range(rng.choice([3, 12]) if big else rng.randint(0, 5))])
            if rng.random() < .5:
                rng.shuffle(ps)
            scans.append({"ev": [leaf(p, rng.choice(texts)) for p in ps],
                          "blocked": [rng.randrange(len(rules) + 1) for _ in range(rng.randint(1, 3))] if rng.random() < .25 else [],
                          "enc": rng.choice(["utf8", "utf8", "utf16"])})
        opts = {"labels": labels(rng, rng.randint(0, 3))}
        for o in ("multipass", "implicit", "kwpath"):
            if rng.random() < .6:
                opts[o] = rng.random() < .6
        out.append({"op": "probe", "rules": rules, "opts": opts, "scans": scans})
    return out


def run(ctx):
    asked = lambda r: any(len(s["calls"]) > 1 for s in r["out"].get("steps", []))
    ctx.suite("many rules", "TraceProbe.tla", cases(ctx.rand("many rules"), ctx.n(100, 1500), True), nontrivial=asked, cfg="TraceView.cfg")
    ctx.suite("calls", "TraceProbe.tla", cases(ctx.rand("calls"), ctx.n(4000, 40000)), nontrivial=asked, cfg="TraceView.cfg")
