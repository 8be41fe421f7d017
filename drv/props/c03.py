"""C03: scopes, implicit index wildcards, blocked rules."""
import itertools
import core
from sgen import *

LEVEL = "model_checking"

SEGS = [fld("a"), fld("b"), idx(0), idx(1)]


def all_paths(n):
    return [list(t) for k in range(n + 1) for t in itertools.product(SEGS, repeat=k)]


def probe(i, scope, n, multipass=False):
    """Rule i of n finds character i of the probe text, so that no two rules overlap."""
    s = "abcdef"[:n]
    return script({"t": "none"}, [spans_entry(s, [(i, i + 1)])], scope=scope, multipass=multipass)


def rscope(rng, maxlen=3):
    ps = lambda lo, hi: [rand_path(rng, maxlen) for _ in range(rng.randint(lo, hi))]
    k = rng.random()
    if k < .1:
        return {"t": "all"}
    if k < .4:
        return {"t": "exc", "exc": ps(1, 3)}
    return {"t": "inc", "inc": ps(1, 3), "exc": ps(0, 2) if k < .7 else []}


def cases(rng, n):
    out = []
    paths3, paths4 = all_paths(3), all_paths(4)
    # one scope path, every place of the event up to depth 4
    for sp in paths3:
        for imp in (False, True):
            k = rng.randint(1, 2)
            ev = [leaf(p, "abcdef"[:2]) for p in rng.sample(paths4, 120)]
            out.append(scan([probe(0, {"t": "inc", "inc": [sp], "exc": []}, 2), probe(1, {"t": "exc", "exc": [sp]}, 2)],
                            ev, implicit=imp))
    while len(out) < n:
        k = rng.randint(1, 4)
        rules = [probe(i, rscope(rng), k) for i in range(k)]
        ev = [leaf(p, "abcdef"[:k]) for p in uniq_paths([rand_path(rng, 5) for _ in range(rng.randint(4, 24))])]
        blocked = [i for i in range(k) if rng.random() < .12] + ([7] if rng.random() < .05 else [])
        opts = {"implicit": rng.random() < .5} if rng.random() < .9 else {}
        out.append(scan(rules, ev, blocked=blocked, **opts))
    # real regex rules, with an action, so that "not in scope" also means "left alone"
    for _ in range(n // 6):
        rules = [regex("ab", {"t": "redact", "r": cp("X")}, scope=rscope(rng)),
                 regex("c", {"t": "none"}, scope=rscope(rng))]
        ev = [leaf(p, "abc") for p in uniq_paths([rand_path(rng, 4) for _ in range(rng.randint(3, 10))])]
        out.append(scan(rules, ev, implicit=rng.random() < .5, multipass=False))
    return out


def large(rng, n):
    """Many rules, deep paths, many strings, large indices."""
    def deep(m):
        return [fld(rng.choice(["a", "b", "abcdefgh" * 4])) if rng.random() < .5 else idx(rng.choice([0, 1, 2, 300, 70000]))
                for _ in range(rng.randint(0, m))]
    out = []
    for _ in range(n):
        k = rng.choice([20, 40, 70, 130])
        s = "".join(chr(0x4e00 + i) for i in range(k))
        base = [deep(9) for _ in range(rng.randint(2, 6))]
        def sp():
            b = rng.choice(base)
            return b[:rng.randint(0, len(b))] if rng.random() < .8 else deep(4)
        def sc():
            x = rng.random()
            if x < .15:
                return {"t": "all"}
            if x < .5:
                return {"t": "exc", "exc": [sp() for _ in range(rng.choice([1, 1, 2, 12]))]}
            return {"t": "inc", "inc": [sp() for _ in range(rng.choice([1, 1, 2, 12]))],
                    "exc": [sp() for _ in range(rng.choice([0, 1, 2]))]}
        rules = [script({"t": "none"}, [spans_entry(s, [(i, i + 1)])], scope=sc()) for i in range(k)]
        ps = []
        for _ in range(rng.choice([3, 8, 20])):
            p = list(rng.choice(base))
            for _ in range(rng.choice([0, 0, 1, 2])):        # extra indices on the way down
                p.insert(rng.randint(0, len(p)), idx(rng.choice([0, 5])))
            ps.append(p + deep(2))
        blocked = [i for i in range(k) if rng.random() < .06] if rng.random() < .5 else []
        out.append(scan(rules, [leaf(p, s) for p in uniq_paths(ps)], blocked=blocked, implicit=rng.random() < .6))
    return out


def walked(ctx):
    """Every scope of MC_Scope, twenty rules at a time, on an event with every path of the model."""
    vs = core.vectors(ctx.model("MC_Scope.tla", "MC_ScopeBig.cfg" if ctx.thorough else "MC_Scope.cfg"))
    segs = [fld("a"), fld("b"), idx(0)]
    ps = [list(t) for k in range((4 if ctx.thorough else 3) + 1) for t in itertools.product(segs, repeat=k)]
    s = "".join(chr(0x4e00 + i) for i in range(20))
    out = []
    for imp in (False, True):
        sc = [v["sc"] for v in vs if v["implicit"] == imp]
        ctx.rand("walked").shuffle(sc)
        for i in range(0, len(sc), 20):
            rules = [script({"t": "none"}, [spans_entry(s, [(j, j + 1)])], scope=x) for j, x in enumerate(sc[i:i + 20])]
            out.append(scan(rules, [leaf(p, s) for p in ps], implicit=imp))
    return out


def run(ctx):
    ctx.suite("walked", "TraceScan.tla", walked(ctx), nontrivial=has_match)
    from mixed import mixed
    ctx.suite("everything at once", "TraceScan.tla", mixed(ctx.rand("everything at once"), ctx.n(1500, 20000)), nontrivial=has_match)
    ctx.suite("large", "TraceScan.tla", large(ctx.rand("large"), ctx.n(120, 2000)), nontrivial=has_match)
    ctx.suite("scopes", "TraceScan.tla", cases(ctx.rand("scopes"), ctx.n(2000, 20000)), nontrivial=has_match)
