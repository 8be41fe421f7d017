"""C01: redaction output and reported indices."""
from sgen import *
from mixed import mixed

LEVEL = "model_checking"

PATS = ["a", "b+", "ab", "\\d", "[a1]+", "é", "中+", "😀", "a.", ".b", "\\w+", "a|é1", "[^a]", "b?a", "-_", " ", "..", "é?a"]


def cases(rng, n):
    out = []
    for _ in range(n):
        rules = [regex(rng.choice(PATS), action(rng)) for _ in range(rng.randint(1, 4))]
        h = needs_hash(rules)
        ev = [leaf(p, text(rng, rng.randint(0, 8 if h else 12)))
              for p in uniq_paths([rand_path(rng) for _ in range(rng.randint(1, 3))])]
        blocked = [rng.randrange(4)] if rng.random() < .1 else []
        out.append(scan(rules, ev, blocked=blocked, enc=rng.choice(["utf8", "utf8", "utf16"]), hash=h))
    return out


def large(rng, n):
    """Long strings, many rules, many matches, long replacements and shifts."""
    out = []
    for _ in range(n):
        s = text(rng, rng.choice([80, 200, 400, 700]))
        nr = rng.choice([1, 3, 9, 20, 70])
        acts = [big_action(rng) for _ in range(nr)]
        per = [[] for _ in range(nr)]
        for sp in apart(rng, len(s), rng.choice([3, 10, 40])) + far_spans(rng, len(s), rng.choice([0, 0, 3])):
            per[rng.randrange(nr)].append(sp)
        ev = [leaf(path("x", 3), s)]
        hl = [cp(s[a:b]) for i in range(nr) for a, b in per[i] if acts[i]["t"] in ("hash", "hash16")]
        c = scan([script(acts[i], [spans_entry(s, per[i])]) for i in range(nr)], ev, enc=rng.choice(["utf8", "utf16"]))
        if hl:
            c["hlist"] = hl
        out.append(c)
    # the same with patterns: one match covers a long text
    for _ in range(n // 3):
        s = text(rng, rng.choice([50, 120, 300]))
        rules = [regex(rng.choice(["[a1é]+", "[^ ]+", "\\w+", ".{40,}", "[^-]+", "a.{20}", "中"]), big_action(rng, "nrrefl"))
                 for _ in range(rng.randint(1, 4))]
        out.append(scan(rules, [leaf(path("x"), s)], enc=rng.choice(["utf8", "utf16"])))
    # many strings in one event
    for _ in range(n // 5):
        rules = [regex(rng.choice(PATS), big_action(rng, "nrrefl")) for _ in range(rng.randint(1, 5))]
        ev = [leaf(p, text(rng, rng.randint(0, 10))) for p in uniq_paths([rand_path(rng, 6, "abcde", 30) for _ in range(60)])]
        out.append(scan(rules, ev, enc=rng.choice(["utf8", "utf16"])))
    return out


def run(ctx):
    ctx.suite("everything at once", "TraceScan.tla", mixed(ctx.rand("everything at once"), ctx.n(1500, 20000)), nontrivial=has_match)
    ctx.suite("large", "TraceScan.tla", large(ctx.rand("large"), ctx.n(300, 4000)), nontrivial=has_match)
    ctx.suite("random", "TraceScan.tla", cases(ctx.rand("random"), ctx.n(6000, 60000)), nontrivial=has_match)
