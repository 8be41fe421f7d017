"""C09: which rules are accepted. Every configuration is answered with the documented verdict."""
import re
from sgen import *
from rgen import Gen
from props.c08 import NAMES

LEVEL = "model_checking"

TOK = ["a", "b", "1", " ", "é", "😀", "-", "_", ",", ":", "=", "!", "#", "<", ">", "'", "\n", "(", "(", ")", ")", "(?:", "(?i)", "(?-s)", "(?i-m:",
       "(?)", "(?-)", "(?ii)", "(?i-i)", "(?<n>", "(?P<n>", "(?'n'", "(?<1>", "(?P<>", "(?=", "(?!", "(?<=", "(?<!", "(?>", "(?|", "(?#x)", "(?R)", "|", "[", "]", "[^", "[]",
       "[a", "a-z", "z-a", "^", "$", ".", "*", "+", "?", "??", "*?", "+?", "{", "}", "{2}", "{2,}", "{2,3}", "{3,2}", "{,3}", "{0}", "{0,0}", "{1,}?",
       "{3000}", "{3001}", "{1,3001}", "{3001,}", "{99999999999999999999}", "{0,0003}", "++", "*+", "\\", "\\\\", "\\b", "\\B", "\\A", "\\z", "\\Z", "\\d", "\\D", "\\s",
       "\\w", "\\W", "\\h", "\\v", "\\H", "\\V", "\\R", "\\X", "\\N", "\\K", "\\G", "\\1", "\\0", "\\g1", "\\k<n>", "\\Q", "\\E", "\\Qa\\E", "\\Q\\E", "\\n", "\\t", "\\e",
       "\\a", "\\f", "\\cA", "\\c", "\\c1", "\\x", "\\x4", "\\x41", "\\x{41}", "\\x{}", "\\x{d800}", "\\x{110000}", "\\x{g}", "\\u0041", "\\o{7}", "\\p{L}", "\\P{L}", "\\p{Foo}",
       "\\pL", "\\p{^L}", "\\p{", "\\p{}", "[:alpha:]", "[:^digit:]", "[:foo:]", "[[:alpha:]", "[[:^x:]", "&&", "--", "~~", "\\-", "\\]", "\\[", "\\/", "\\y", "\\j", "\\é"]


def val(p, size=False):
    c = {"op": "validate", "pat": cp(p), "text": p}
    if size:
        c["size"] = True
    return c


def soup(rng):
    return "".join(rng.choice(TOK) for _ in range(rng.randint(1, 7)))


def mutate(rng, t):
    for _ in range(rng.randint(1, 2)):
        k = rng.random()
        i = rng.randrange(len(t) + 1)
        if k < .4 and t:
            t = t[:i] + t[i + 1:]
        elif k < .8:
            t = t[:i] + rng.choice(TOK) + t[i:]
        else:
            j = rng.randrange(len(t) + 1)
            t = t[:min(i, j)] + t[max(i, j):]
    return t


def limits():
    out = []
    for n in (1, 25, 48, 49, 50, 51, 52, 60, 400):
        for o, c in (("(", ")"), ("(?:", ")"), ("(?i:", ")"), ("(?<n%d>", ")")):
            o2 = [o % k if "%" in o else o for k in range(n)]
            out += ["".join(o2) + "a" + c * n, "".join(o2), "b|" + "".join(o2) + "a" + c * n + "c", "".join(o2) + "\\Qa\\E" + c * n,
                    "".join(o2) + "(?i)" + c * n, "".join(o2) + c * n + "a"]
        out += [")" * n, "[" * n, "[" * n + "a" + "]" * n, "(a)" * n, "(a|" * n + "b" + ")" * n, "((a)" * n + ")" * n]
    for q in ("2999", "3000", "3001", "4294967295", "4294967296", "18446744073709551616", "03000", "003001"):
        out += ["a{%s}" % q, "a{1,%s}" % q, "a{%s,}" % q, "a{%s,%s}" % (q, q), "a{%s,5}" % q, "(?:a{%s,0})b" % q, "(?:a{%s})" % q, "[ab]{0,%s}c" % q, "^{%s}a" % q, "a|b{%s}" % q,
                "(?:a{%s}|)b" % q, "a{0}b{%s}" % q, "x{%s}?" % q, "(a){%s}" % q]
    for name in NAMES + ["Cs", "Any", "l", "LL", "greek", "Script=Greek", "Letter", "L&", "Xan", "", "Unknown", "Katakana_Or_Hiragana", "Old__Turkic", "Han "]:
        out += ["\\p{%s}" % name, "\\P{%s}" % name, "[\\p{%s}a]" % name, "[^\\P{%s}]" % name]
    for k in (1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000):      # names of groups
        for nm in ("n" * k, "_" * k, "a9" * k):
            out += ["(?<%s>a)" % nm, "(?P<%s>a)" % nm, "(?'%s'a)" % nm]
        out += ["a" * k, "[" + "ab" * k + "]", "|".join(["ab"] * k), "\\Q" + "a" * k + "\\E", "(?x)a #" + "c" * k + "\nb", "(?:a)" * k]
    for nm in ("", "9", "a-b", "é", "a b", "_", "A", "a.b", "9a", "aé"):
        out += ["(?<%s>a)" % nm, "(?P<%s>a)" % nm, "(?'%s'a)" % nm, "(?P'%s'a)" % nm]
    # can a match be empty?
    for a in ("a", "a?", "a*", "a+", "\\b", "^", "$", "\\z", "(a|)", "(|a)", "(?:)", "a{0}", "a{0,}", "(?i)", "[^\\s\\S]", "(a?b?)", "(a?b)", "(?:a*|b)", "\\Q\\E", "a??",
              "(?:\\b)+", "(?:a?){3}", "(?:a|b?){2}", "(?:ab){0,1}"):
        for b in ("", "a", "b?", "|", "|c", "\\B", "$", "(?x) ", "{2}", "(?:)"):
            out += [a + b, b + a, "(" + a + ")" + b, "(?:" + a + b + ")*", "(" + a + b + "){1,2}"]
    out.append("(?x)( ?i)a")                   # known finding
    return [val(p) for p in out]


def sizes(rng, n):
    """Around the size limit; the size estimate has to agree with the verdict."""
    out = []
    for a, ns in (("\\p{L}", (5, 20, 30, 50, 80, 200)), ("\\w", (100, 1000, 2900)), ("a", (3000,)), ("(?:abc\\p{Lu})", (3, 20, 60, 200)), (".", (100, 300, 700, 1500, 3000)),
                  ("[^a]", (200, 1000, 3000)), ("(?:a{30}){30}", (1, 3, 30, 50, 3000)), ("(?:\\p{L}|a)", (2, 40, 100))):
        for k in ns:
            out += [a + "{%d}" % k, a + "{0,%d}b" % k, "(?i)" + a + "{%d}" % k]
    out += ["(?:(?:(?:a{3000}){3000}){3000}){3000}", "(?:(?:a?){3000}){3000}b", "(?:\\p{L}{50}){50}{50}"]
    for _ in range(n):
        a = rng.choice(["\\p{L}", "\\p{Lu}", ".", "[^b]", "\\S", "\\p{Greek}"])
        out.append(a + "{%d}" % int(10 ** rng.uniform(0, 3.47)))
    return [val(p, size=k % 3 == 0) for k, p in enumerate(out)]


BADPAT = ["a(", "(?=a)", "a{3001}", "a?", "\\b", "(" * 51 + "a" + ")" * 51, "", "[z-a]", "(a){2,1}"]
GOODPAT = ["a", "ab|c", "[0-9]{2}", "\\p{L}"]


def rule(rng, good=.6):
    pat = rng.choice(GOODPAT if rng.random() < good + .15 else BADPAT)
    a = rng.random()
    act = {"t": "none"} if a < .3 else {"t": rng.choice(["first", "last"]), "n": rng.choice([0, 0, 1, 5])} if a < .7 else {"t": "redact", "r": cp(rng.choice(["", "x"]))}
    k = None
    if rng.random() < .7:
        la = rng.choice([0, 1, 2, 3, 5, 10, 30, 49, 50, 51, 52, 1000])
        k = kw(la, keywords(rng, la), keywords(rng, la))
    return regex(pat, act, kw=k)


def keywords(rng, la):
    x = rng.random()
    if x < .3:
        return []
    n = rng.choice([1, 1, 2, 3]) if x < .8 else rng.choice([49, 50, 51, 52])
    out = []
    for _ in range(n):
        y = rng.random()
        m = max(1, la)
        if y < (.6 if n < 5 else .995):
            out.append(text(rng, rng.randint(1, min(m, 50)), "ab1é中"))
        elif y < (.7 if n < 5 else .996):
            out.append(rng.choice(["", " ", "-", "_", " - ", "\t", "--__", "- a", "\u00a0"]))
        else:
            z = m + rng.choice([-1, 0, 1, 2])
            out.append(rng.choice(["a", "é", "😀"]) * max(0, z))
            if rng.random() < .3:                     # blanks count for the length
                out[-1] = out[-1][1:] + " "
    return out


def configs(rng, n):
    out = []
    for _ in range(n):
        rules = [rule(rng, rng.choice([.3, .7, .9])) for _ in range(rng.randint(1, 3))]
        out.append(scan(rules, [leaf(path("a"), rng.choice(["a", "b12 c", "é a"]))]))
    for k in (20, 61, 70, 130, 260):       # long lists
        good = [regex(rng.choice(GOODPAT), kw=kw(5, ["a"]) if rng.random() < .2 else None) for _ in range(k)]
        out.append(scan(good, [leaf([], "a 1")]))
        bad = list(good)
        for at in sorted(rng.sample(range(k), 2)):
            bad[at] = regex(rng.choice(BADPAT))
        out.append(scan(bad, [leaf([], "a 1")]))
    # one thing wrong at a time, in every position of the rule list
    ok = lambda: regex("a")
    one = [regex(p) for p in BADPAT] + [regex("a", {"t": t, "n": 0}) for t in ("first", "last")] + \
          [regex("a", kw=k) for k in (kw(0, ["a"]), kw(51, ["a"]), kw(0), kw(51), kw(1, ["ab"]), kw(1, [], ["ab"]), kw(5, [""]), kw(5, [], [""]), kw(5, [" "]), kw(5, [], ["-_"]),
                                      kw(50, ["a"] * 50), kw(50, ["a"] * 51), kw(50, [], ["a"] * 50), kw(50, [], ["a"] * 51), kw(50, ["a" * 50]), kw(50, ["a" * 51]), kw(50, ["a"] * 50, ["a"] * 50),
                                      kw(50, [], ["é" * 50]), kw(50, [], ["é" * 51]), kw(2, ["😀😀"]), kw(2, ["😀😀😀"]), kw(3, ["-"]), kw(3, ["_a"]), kw(5, ["a", "", "bbbbbbbb"]),
                                      kw(5, ["a", "bbbbbbbb", ""]), kw(5, ["bbbbbbbb"], [""]), kw(5, [], ["", "cccccccc"]))]
    for bad in one:
        for k in range(3):
            for second in ([], [regex("a("), ]):
                out.append(scan([ok() for _ in range(k)] + [bad] + second, [leaf([], "a b")]))
    for pat in ("a", "a("):
        for act in ({"t": "first", "n": 0}, {"t": "first", "n": 1}):
            for k in (None, kw(0, ["a"]), kw(5, [""], ["-"]), kw(5, ["a"])):
                out.append(scan([regex(pat, act, kw=k)], [leaf([], "a a")]))
    return out


def run(ctx):
    rng = ctx.rng
    ctx.suite("limits", "TraceRegex.tla", limits(), timeout=60)
    ctx.suite("sizes", "TraceRegex.tla", sizes(rng, ctx.n(40, 300)), timeout=90)
    cases, seen = [], set()
    g = Gen(rng)
    for _ in range(ctx.n(6000, 60000)):
        t = soup(rng) if rng.random() < .5 else mutate(rng, g.top().t)
        # white space other than ASCII under x: the dialect does not say; "( ?" under x: known finding
        if re.search("\\(\\s+\\?", t) and "x" in t:
            continue
        if t not in seen and len(t) < 60 and not ("x" in t and re.search("[\u0085\u00a0\u2028\u2029]", t)):
            seen.add(t)
            cases.append(val(t))
    ctx.suite("patterns", "TraceRegex.tla", cases)
    ctx.suite("configurations", "TraceScan.tla", configs(rng, ctx.n(3000, 30000)))
