"""C02: overlap resolution between the candidates of all rules."""
import core
from sgen import *
from mixed import mixed

LEVEL = "model_checking"


def cases(rng, n):
    out = []
    for _ in range(n):
        s = text(rng, rng.randint(1, 9))
        t = text(rng, rng.randint(1, 5))
        rules = []
        for _ in range(rng.randint(1, 5)):
            ent = [spans_entry(s, rand_spans(rng, len(s), rng.randint(0, 4)))]
            if rng.random() < .3 and t != s:
                ent.append(spans_entry(t, rand_spans(rng, len(t), rng.randint(0, 2))))
            rules.append(script(action(rng, "nnnrrrefl"), ent))
        ev = [leaf(path("x"), s)]
        if rng.random() < .3:
            ev.append(leaf(path("y", 0), t))
        out.append(scan(rules, ev, enc=rng.choice(["utf8", "utf16"])))
    return out


def large(rng, n):
    """Many rules, many candidates."""
    out = []
    for _ in range(n):
        s = text(rng, rng.choice([20, 60, 300, 600]))
        rules = []
        starts = [rng.randrange(len(s)) for _ in range(rng.choice([2, 6, 30]))]    # few starts: lengths decide
        for _ in range(rng.choice([6, 12, 25, 70])):
            m = rng.randint(0, 6)
            lens = [1, 1, 2, 3, 8, 40] if len(s) < 100 else LENS
            sp = [(a, min(len(s), a + rng.choice(lens))) for a in (rng.choice(starts) for _ in range(m))]
            if rng.random() < .15:
                sp += apart(rng, len(s), 8)
            rules.append(script(action(rng, "nnnnrefl"), [spans_entry(s, sp)]))
        if rng.random() < .3:      # long neighbours without gap
            rules = rules[:3]
        out.append(scan(rules, [leaf(path("x"), s)], enc=rng.choice(["utf8", "utf16"])))
    return out


def tiles(rng, n):
    """Long lists of matches that do not overlap, of rules that change and rules that do not, in any order."""
    out = []
    for _ in range(n):
        s = text(rng, rng.choice([60, 150, 300]))
        per = [[] for _ in range(rng.randint(1, 7))]
        at = 0
        while at < len(s):
            b = min(len(s), at + rng.choice([1, 1, 2, 3]))
            if rng.random() < .7:
                rng.choice(per).append((at, b))
            at = b
        for sp in far_spans(rng, len(s), rng.choice([0, 0, 2])):
            rng.choice(per).append(sp)
        for sp in per:
            if rng.random() < .5:
                rng.shuffle(sp)
        rules = [script(action(rng, "nnnrefl"), [spans_entry(s, sp)]) for sp in per]
        out.append(scan(rules, [leaf(path("x"), s)], enc=rng.choice(["utf8", "utf16"])))
    return out


def patterns(rng, n):
    """The same with rules that really search."""
    ps = ["a", "ab", "b+", "[ab]+", "1", "a1?", "\\w+", ".", "..", "[^ ]+", "é.", "b1|ab"]
    return [scan([regex(rng.choice(ps), action(rng, "nnrref")) for _ in range(rng.randint(2, 6))],
                 [leaf(path("x"), text(rng, rng.randint(1, 16)))], enc=rng.choice(["utf8", "utf16"])) for _ in range(n)]


def replayed(ctx):
    out = ctx.model("MC_Scan.tla", "MC_ScanBig.cfg" if ctx.thorough else "MC_Scan.cfg")
    cs = []
    for v in core.vectors(out):
        s = core.uncp(v["s"])
        cs.append(scan([script(r["act"], [spans_entry(s, r["cs"])]) for r in v["rules"]], [leaf([], s)]))
    return cs


def run(ctx):
    ctx.suite("everything at once", "TraceScan.tla", mixed(ctx.rand("everything at once"), ctx.n(1500, 20000)), nontrivial=has_match)
    ctx.suite("model", "TraceScan.tla", replayed(ctx), nontrivial=has_match)
    ctx.suite("random", "TraceScan.tla", cases(ctx.rand("random"), ctx.n(4000, 60000)), nontrivial=has_match)
    ctx.suite("large", "TraceScan.tla", large(ctx.rand("large"), ctx.n(150, 3000)), nontrivial=has_match)
    ctx.suite("tiles", "TraceScan.tla", tiles(ctx.rand("tiles"), ctx.n(150, 2500)), nontrivial=has_match)
    ctx.suite("patterns", "TraceScan.tla", patterns(ctx.rand("patterns"), ctx.n(1500, 20000)), nontrivial=has_match)
