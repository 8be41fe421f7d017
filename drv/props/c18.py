"""C18: the Go binding."""
import core
from core import cp
from sgen import *
from props import c14, c15

LEVEL = "model_checking"


def rule(rng):
    pat = rng.choice(["\\d+", "[a-z]", "\\d", "ab", "\\w+", "é", ".", "..?", "\\x{FFFD}", "secret", "[^a-z]{2}", "😀", "\\x00", "<|>|&|\"",
                      "a*", "(", "[0-9]{16}"])
    if pat in ("a*", "(") and rng.random() < .7:
        pat = "b"
    kwv = None
    if rng.random() < .2:
        kwv = kw(rng.choice([0, 8, 10, 30]) if rng.random() < .2 else 10, rng.sample(["ab", "a", "secret", "message", "<é>"], rng.randint(0, 2)),
                 rng.sample(["x", "1"], rng.randint(0, 1)))
    act = action(rng, "nnrrefflh")
    if rng.random() < .03:
        act = {"t": "last", "n": 0}
    if act["t"] == "redact" and rng.random() < .1:
        act["r"] = cp("\"<&>\\")
    return regex(pat, act, kw=kwv, val="luhn" if rng.random() < .05 else "")


def tree(rng):
    k = rng.random()
    budget = [rng.choice([3, 6, 12, 24])]
    if k < .3:
        n = {"t": "s", "s": cp(text(rng, rng.randint(0, 8)) if rng.random() < .6 else rng.choice(c14.WORDS))}
    else:
        n = c14.mapnode(rng, rng.randint(0, 4), rng.randint(1, 5), False, budget)

    def spoil(n, top=True):
        if n["t"] == "s" and rng.random() < .1:
            n["b"] = list(rng.choice(c15.RAW) + rng.choice([b"", b"ab", "é1".encode()]))
            del n["s"]
        elif not top and rng.random() < .01:
            n.clear()
            n.update(rng.choice([{"t": "z"}, {"t": "n", "s": cp("12")}]))
        for c in n.get("l", []):
            spoil(c, False)
        for e in n.get("m", []):
            spoil(e["v"], False)
    spoil(n)
    return n


def all_texts(n):
    if n["t"] == "s":
        return [cp(bytes(n["b"]).decode("utf-8", "replace"))] if "b" in n else [n["s"]]
    return sum((all_texts(c) for c in n.get("l", [])), []) + sum((all_texts(e["v"]) for e in n.get("m", [])), [])


def cases(rng, n):
    return [{"op": "go", "rules": [rule(rng) for _ in range(rng.randint(1, 3))], "opts": {"kwpath": False}, "trees": [tree(rng) for _ in range(rng.randint(1, 4))]}
            for _ in range(n)]


def large(rng, n):
    """Long lists, long strings, deep maps, many keywords."""
    out = []
    for i in range(n):
        if i % 10 == 0:
            t = [{"t": "s", "s": cp("a" * rng.choice([33000, 70000]))}]
            rules = [regex("a+", rng.choice([{"t": "redact", "r": cp("*")}, {"t": "first", "n": 3}]))]
        elif i % 10 == 5:
            n1 = rng.choice([255, 256, 257, 300, 511, 512])
            t = [{"t": "s", "s": cp("b" + rng.choice("aé😀") * (n1 + rng.choice([-1, 0, 1, 5, 90])) + "c")}]
            rules = [regex("[^bc]+", {"t": rng.choice(["first", "last"]), "n": n1})]
            if rng.random() < .3:
                rules[0]["kw"] = kw(10, ["b"], [])
        else:
            t = [c14.wide(rng, False) if rng.random() < .6 else c14.deep(rng, False) for _ in range(rng.randint(1, 2))]
            t = [x if x["t"] == "m" else {"t": "m", "m": [{"k": cp("root"), "v": x}]} for x in t]
            rules = [rule(rng) for _ in range(rng.choice([1, 3, 20]))]
            if rng.random() < .4:
                ks = ["kw%d" % j for j in range(rng.choice([5, 12, 49]))] + ["ab"]
                es = ["x%d" % j for j in range(rng.choice([3, 20]))] + ["a", "secret"]
                rules.append(regex("\\d+|[a-z]+", action(rng, "nr"), kw=kw(30, ks if rng.random() < .5 else [], es)))
        out.append({"op": "go", "rules": [r for r in rules if r["act"]["t"] not in ("hash", "hash16")] or [regex("a")], "opts": {"kwpath": False}, "trees": t})
    return out


def odd_keys():
    """Keys that are not UTF-8: known findings, see known_findings.txt."""
    r = [regex("\\d", {"t": "redact", "r": cp("*")})]
    s = {"t": "s", "s": cp("a1")}
    odd = lambda v: {"t": "m", "m": [{"kb": [255], "v": v}]}
    return [{"op": "go", "rules": r, "opts": {"kwpath": False}, "trees": [t]} for t in (odd(s), odd({"t": "l", "l": [s]}))]


def run(ctx):
    go = core.build_go()

    def with_hashes(recs):
        # what the hash of every substring is comes from the hash function itself
        hs = core.execute(ctx.binary, [{"op": "hashes", "texts": sum((all_texts(t) for t in r["in"]["trees"]), [])
                                        if needs_hash(r["in"]["rules"]) else []} for r in recs])
        for r, h in zip(recs, hs):
            r["out"]["hash"] = h["out"]["hash"]
    ctx.suite("large", "TraceGo.tla", large(ctx.rand("large"), ctx.n(100, 1000)), binary=go, post=with_hashes,
              nontrivial=lambda r: any(s["matches"] for s in r["out"].get("scans", [])))
    ctx.suite("go", "TraceGo.tla", cases(ctx.rand("go"), ctx.n(2000, 20000)) + odd_keys(), binary=go, post=with_hashes,
              nontrivial=lambda r: any(s["matches"] for s in r["out"].get("scans", [])))
