"""C06: excluded keywords."""
from sgen import *
from props.c05 import KWS, TOK, PATS, doc, large, long_strings, typed
from mixed import mixed

LEVEL = "model_checking"

XP = PATS + ["-\\d", "_a", "[-_]\\w", "-", "\\d-?"]
XK = KWS + ["k-e-y", "-k-", "a_b", "-é", "foo", "i-d"]
XT = TOK + ["-", "_", "-", "foo", "fo-o", "f_o_o", "id", "i-d", "-1", "_a", "fo\u2010o", "\u2010", "\u00ad", "f.oo", "fo/o", "k~", "f-_oo", "FO-O", "f--oo", "f oo", "fo\u2013o", "k\u200be", "ke-y", "k-e_y"]


def cases(rng, n):
    out = []
    for _ in range(n):
        rules = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            la = rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 30, 50])
            ks = [x for x in XK if len(x) <= la]
            exc = rng.sample(ks, min(len(ks), rng.choice([1, 1, 2, 3])))
            rules.append(regex(rng.choice(XP), action(rng, "nnnr"), kw=kw(la, (), exc), val="luhn" if rng.random() < .1 else ""))
        ev = [leaf(path("x"), "".join(rng.choice(XT) for _ in range(rng.randint(1, 9))))]
        out.append(scan(rules, ev))
    # only hyphens and underscores are skipped inside a keyword
    for c in "-_\u2010\u2011\u2013\u00ad\u200b\uff3f\u2212.,:/ \t~'+*\u00b7\u0332":
        for k in ("foo", "a b", "x.y"):
            for s in (k[0] + c + k[1:], k[:2] + c + c + k[2:], k + c, c + k, k[0] + c + "-" + k[1:]):
                out.append(scan([regex("1", kw=kw(12, (), [k]))], [leaf(path("x"), s + " 1"), leaf(path("y"), s + "1")]))
    for la in range(1, 11):
        for k in ("k", "foo", "é", ":"):
            if len(k) > la:
                continue
            for gap in range(max(0, la - len(k) - 2), la - len(k) + 3):
                for fill in (" ", "中", "-", "_"):
                    for pre in ("", " ", "x", "-", "é", "x-"):
                        for m in ("1", "-1"):
                            s = pre + k + fill * gap + m
                            out.append(scan([regex(m, kw=kw(la, (), [k]))], [leaf(path("x"), s)]))
    return out


def run(ctx):
    ctx.suite("typed texts", "TraceScan.tla", typed(ctx, False), nontrivial=has_match)
    ctx.suite("long strings", "TraceScan.tla", long_strings(ctx.rand("long strings"), ctx.n(6, 60), True), nontrivial=has_match)
    ctx.suite("everything at once", "TraceScan.tla", mixed(ctx.rand("everything at once"), ctx.n(1500, 20000)), nontrivial=has_match)
    ctx.suite("large", "TraceScan.tla", large(ctx.rand("large"), ctx.n(250, 2500), True), nontrivial=has_match)
    ctx.suite("random", "TraceScan.tla", cases(ctx.rand("random"), ctx.n(4000, 50000)), nontrivial=has_match)
