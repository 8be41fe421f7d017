"""C14: the event types of the library show every string at its place and take changes back."""
from sgen import *

LEVEL = "model_checking"

KEYS = ["a", "b", "message", "messages", "Message", "z", "", "a.b", "é", "😀", "0", "[0]", "aa", "MESSAGE", "a b", "a\0", "\0", "a ", " a", "$", "a/b", "message ", "a\n", "\"", "k" * 70, "é" * 40, "-1", "01"]
WORDS = ["ab", "secret", "1234", "true", "é1", "a1 b2", "", "x", "12.5", "null", "😀1😀", "-7", "message", "aab", "1"]


def string(rng):
    if rng.random() < .4:
        return rng.choice(WORDS)
    return text(rng, rng.randint(0, 6))


def node(rng, depth, js, budget):
    budget[0] -= 1
    k = rng.random()
    if depth == 0 or k < .35 or budget[0] <= 0:
        if js and rng.random() < .4:
            if rng.random() < .2:
                return {"t": "z"}
            return {"t": "n", "s": cp(rng.choice(["1", "0", "-7", "1234", "12.5", "true", "false", "4111111111111111", "18446744073709551615", "-9223372036854775808", "0.1", "1e100", "-0.5"]))}
        return {"t": "s", "s": cp(string(rng))}
    n = rng.choice([0, 1, 2, 2, 3, 4])
    if k < .6:
        return {"t": "l", "l": [node(rng, depth - 1, js, budget) for _ in range(n)]}
    return mapnode(rng, n + 1, depth, js, budget)


def mapnode(rng, n, depth, js, budget):
    ks = rng.sample(KEYS, min(n, len(KEYS)))
    return {"t": "m", "m": [{"k": cp(k), "v": node(rng, depth - 1, js, budget)} for k in ks]}


def paths_of(n, p=()):
    if n["t"] in ("s", "n"):
        yield list(p)
    elif n["t"] == "l":
        for i, v in enumerate(n["l"]):
            yield from paths_of(v, list(p) + [idx(i)])
    elif n["t"] == "m":
        for e in n["m"]:
            yield from paths_of(e["v"], list(p) + [["f", e["k"]]])


def rscope(rng, tree):
    ps = list(paths_of(tree)) or [[]]
    def one():
        p = rng.choice(ps)
        return p[:rng.randint(0, len(p))]
    k = rng.random()
    if k < .6:
        return {"t": "all"}
    if k < .8:
        return {"t": "exc", "exc": [one() or rng.choice(ps)]}
    return {"t": "inc", "inc": [one() for _ in range(rng.randint(1, 2))], "exc": [one()] if rng.random() < .3 else []}


def rule(rng, tree):
    act = action(rng, "nnrrefl")
    k = rng.random()
    if k < .3:
        return script(act, whole=True, scope=rscope(rng, tree), multipass=rng.random() < .3)
    pat = rng.choice(["\\d+", "[a-z]", "\\d", "true|false", "ab", "\\w+", "é", ".", "-?\\d+\\.\\d", "secret", "[^a-z]{2}"])
    return regex(pat, act, scope=rscope(rng, tree))


def cases(rng, n):
    out = []
    for i in range(n):
        kind = ["simple", "json", "map", "string"][i % 4] if i % 16 else "string"
        js = kind in ("json", "map")
        budget = [rng.choice([6, 12, 25])]
        if kind == "string":
            tree = {"t": "s", "s": cp(text(rng, rng.randint(0, 9)))}
        elif kind == "map":
            tree = mapnode(rng, rng.randint(0, 5), rng.randint(1, 5), js, budget)
        else:
            tree = node(rng, rng.randint(0, 5), js, budget)
        rules = [rule(rng, tree) for _ in range(rng.randint(1, 3))]
        out.append({"op": "tree", "kind": kind, "tree": tree, "rules": rules, "opts": {"implicit": rng.random() < .3},
                    "blocked": [], "hash": False})
    return out


def deep(rng, js):
    """Long ways down and long lists."""
    n = {"t": "s", "s": cp(string(rng))}
    for _ in range(rng.randint(6, 14)):
        side = [{"t": "s", "s": cp(string(rng))} for _ in range(rng.choice([0, 0, 1, 2]))]
        if rng.random() < .5:
            l = side + [n]
            rng.shuffle(l)
            n = {"t": "l", "l": l}
        else:
            ks = rng.sample(KEYS, len(side) + 1)
            n = {"t": "m", "m": [{"k": cp(k), "v": v} for k, v in zip(ks, [n] + side)]}
    return n


def wide(rng, js):
    k = rng.choice([11, 17, 40])
    leaves = [node(rng, rng.choice([0, 0, 1]), js, [3]) for _ in range(k)]
    if rng.random() < .5:
        return {"t": "m", "m": [{"k": cp(rng.choice(["a", "é", "message"])), "v": {"t": "l", "l": leaves}}]}
    return {"t": "m", "m": [{"k": cp("k%d" % i), "v": v} for i, v in enumerate(leaves)]}


def large(rng, n):
    out = []
    for i in range(n):
        kind = ["simple", "json", "map"][i % 3]
        js = kind != "simple"
        tree = rng.choice([deep, wide])(rng, js)
        if kind == "map" and tree["t"] != "m":
            tree = {"t": "m", "m": [{"k": cp("root"), "v": tree}]}
        rules = [rule(rng, tree) for _ in range(rng.randint(1, 3))]
        out.append({"op": "tree", "kind": kind, "tree": tree, "rules": rules, "opts": {"implicit": rng.random() < .3},
                    "blocked": [], "hash": False})
    return out


def run(ctx):
    ctx.suite("deep and wide", "TraceTree.tla", large(ctx.rand("deep and wide"), ctx.n(400, 4000)), nontrivial=has_match)
    ctx.suite("event types", "TraceTree.tla", cases(ctx.rand("event types"), ctx.n(3000, 30000)), nontrivial=has_match)
