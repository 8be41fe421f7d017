"""C05: included keywords."""
import core
import json
from sgen import *

LEVEL = "model_checking"

KWS = ["k", "key", "api key", "k-e", "é", "ék", "key=", "_k", "K9", "k k", ":", "kék", "x.k", "  key ", "中", "k(", "a*b", "E", "2"]
TOK = ["k", "key", "KEY", "Key", "api key", "k-e", "é", "É", "ék", "key=", "_k", "k9", "K9", "k k", ":", "中", "x.k", "k(", "a*b",
       " ", " ", " ", "  ", "   ", "-", "_", "\n", "1", "2", "12", "a", "ab", "a1", "aa", "é1", "x", "😀", "   😀  ", "e", "ke", "eyk"]
PATS = ["\\d", "\\d+", "a", "a+", "ab?", "[a1]+", "é", "\\w+", "1|a1", "x", "a\\d?", "\\b\\w\\b", "[ak]"]


def doc(rng, n):
    return "".join(rng.choice(TOK) for _ in range(rng.randint(1, n)))


def words(rng):
    """Keywords of one to three words over a tiny vocabulary: they overlap each other in the text."""
    seps = [" ", " ", "-", "."]
    kws = set()
    while len(kws) < rng.randint(1, 4):
        kws.add(rng.choice(seps).join(rng.choice("kxe") for _ in range(rng.randint(1, 3))))
    la = rng.choice([5, 5, 6, 7, 8, 9])
    s = "".join(rng.choice(["k", "x", "e", "K"]) + rng.choice([" ", " ", " ", "-", "", ".", "  "]) for _ in range(rng.randint(2, 7)))
    s += rng.choice(["1", " 1", "  1", "1 1", "é1"])
    if rng.random() < .3:
        s += rng.choice(["k x ", " k k"]) + "   1"
    return scan([regex(rng.choice(["1", "\\d+", "[1e]"]), kw=kw(la, sorted(kws)))], [leaf(path("x"), s)])


def phrases(rng):
    """Keywords are phrases cut from a line of words, so that one begins inside another; the match is within reach of some."""
    ws = [rng.choice(["k", "x", "e", "ab", "k9", "é"]) for _ in range(rng.randint(3, 7))]
    line = []
    for w in ws:
        line += [w, rng.choice([" ", " ", " ", "-", ". ", "  "])]
    line = line[:-1]
    kws = set()
    for _ in range(rng.randint(2, 4)):
        a = rng.randrange(len(ws))
        b = min(len(ws), a + rng.choice([1, 2, 2, 3, 3, 4]))
        kws.add("".join(line[2 * a:2 * b - 1]))
    la = max(max(map(len, kws)), rng.randint(3, 14))
    gap = " " * rng.randint(1, max(1, la - 1)) if rng.random() < .7 else " "
    s = rng.choice(["", "x ", "é"]) + "".join(line) + gap + rng.choice(["1", "1 1", "11"]) + rng.choice(["", " " + line[0] + " 1"])
    return scan([regex(rng.choice(["1", "\\d+"]), kw=kw(la, sorted(kws)))], [leaf(path("x"), s)])


def cases(rng, n, exc=False):
    out = []
    for _ in range(n):
        rules = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            la = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 30, 50])
            ks = [x for x in KWS if len(x) <= la]
            inc = rng.sample(ks, min(len(ks), rng.choice([1, 1, 2, 3])))
            ex = rng.sample(ks, min(len(ks), 1)) if rng.random() < .1 else []
            rules.append(regex(rng.choice(PATS), action(rng, "nnnr"), kw=kw(la, inc, ex),
                               val="luhn" if rng.random() < .08 else ""))
        ev = [leaf(path("x"), doc(rng, 9))]
        if rng.random() < .2:
            ev.append(leaf(path("y"), doc(rng, 6)))
        out.append(scan(rules, ev))
    out += [words(rng) for _ in range(n // 2)] + [phrases(rng) for _ in range(n // 2)]
    # exact distances: keyword, gap of multi-byte characters, match, around the look-ahead limit
    for la in range(1, 13):
        for k in ("k", "key", "é", ":"):
            if len(k) > la:
                continue
            for gap in range(max(0, la - len(k) - 2), la - len(k) + 3):
                for fill in (" ", "中", "😀", "é"):
                    s = k + fill * gap + "1 1" + fill + "1"
                    out.append(scan([regex("1", kw=kw(la, [k]))], [leaf(path("x"), s)]))
    for la in (49, 50):
        for gap in range(46, 53):
            out.append(scan([regex("1", kw=kw(la, ["k"]))], [leaf(path("x"), "k" + " " * gap + "1")]))
    return out


def many(rng, k, la):
    """Up to 50 keywords of up to la characters."""
    ks = set()
    while len(ks) < k:
        w = rng.choice(["", "é", "中"]) + "".join(rng.choice("kexy9") for _ in range(rng.randint(1, 6)))
        if rng.random() < .3:
            w += rng.choice([" ", "-", ".", "  "]) + "".join(rng.choice("kxé") for _ in range(rng.choice([1, 4, 30])))
        ks.add(w[:la].strip())
    return sorted(ks)


def long_doc(rng, ks, la):
    out = []
    for _ in range(rng.choice([6, 15, 25])):
        out.append(rng.choice(ks) if rng.random() < .35 else rng.choice(TOK))
        out.append(rng.choice([" ", " ", "", "-"]) if rng.random() < .8
                   else rng.choice([" ", "中", "😀", "é", "-"]) * rng.randint(max(0, la - 8), la + 2))
    return "".join(out)[:500]


def large(rng, n, exc):
    out = []
    for _ in range(n):
        la = rng.choice([12, 30, 49, 50])
        ks = many(rng, rng.choice([1, 5, 20, 50]), la)
        lists = dict(exc=ks) if exc else dict(inc=ks)
        rules = [regex(rng.choice(PATS), action(rng, "nnr"), kw=kw(la, **lists)) for _ in range(rng.choice([1, 1, 3]))]
        out.append(scan(rules, [leaf(path("x"), long_doc(rng, ks, la))]))
    return out


def long_strings(rng, n, exc):
    out = []
    for _ in range(n):
        gap = " " * rng.choice([1100, 1100, 2100] if exc else [1100, 2100])
        s = gap[:rng.choice([0, 50])] + "k 1" + gap + rng.choice(["1", "x 1", "k  1 1", "é k 1"]) + gap[:rng.choice([0, 30, 60])] + "1 k" + rng.choice(["", " 1"])
        out.append(scan([regex(rng.choice(["1", "\\d+"]), action(rng, "nr"), kw=kw(rng.choice([4, 30, 50]), **{"exc" if exc else "inc": ["k"]}))],
                        [leaf(path("x"), s)]))
    return out


def typed(ctx, inc):
    """Every text over a small alphabet, every keyword, every window: the states of MC_Words."""
    by = {}
    for v in core.vectors(ctx.model("MC_Words.tla", "MC_WordsBig.cfg" if ctx.thorough else "MC_Words.cfg")):
        if bool(v["kw"]["inc"]) == inc:
            by.setdefault(json.dumps([v["pat"], v["kw"]]), []).append(v["s"])
    out = []
    for k, ss in by.items():
        for i in range(0, len(ss), 60):
            out.append(scan([regex(core.uncp(json.loads(k)[0]), kw=json.loads(k)[1])], [leaf(path("x", j), core.uncp(t)) for j, t in enumerate(ss[i:i + 60])]))
    return out


def run(ctx):
    ctx.suite("typed texts", "TraceScan.tla", typed(ctx, True), nontrivial=has_match)
    from mixed import mixed
    ctx.suite("long strings", "TraceScan.tla", long_strings(ctx.rand("long strings"), ctx.n(6, 60), False), nontrivial=has_match)
    ctx.suite("everything at once", "TraceScan.tla", mixed(ctx.rand("everything at once"), ctx.n(1500, 20000)), nontrivial=has_match)
    ctx.suite("large", "TraceScan.tla", large(ctx.rand("large"), ctx.n(250, 2500), False), nontrivial=has_match)
    ctx.suite("random", "TraceScan.tla", cases(ctx.rand("random"), ctx.n(6000, 60000)), nontrivial=has_match)
