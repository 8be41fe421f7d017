"""C08: the matches of a rule are those the documented regex dialect defines."""
from core import cp
from rgen import Gen

LEVEL = "model_checking"


def cases(rng, n, nin):
    g = Gen(rng)
    out, seen = [], set()
    while len(out) < n:
        node = g.top()
        if node.t in seen or (node.nullable and rng.random() < .9):
            continue
        seen.add(node.t)
        out.append({"op": "regex", "pat": cp(node.t), "ins": [cp(s) for s in g.inputs(node, nin)], "strict": 0, "text": node.t})
    return out


import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "tools"))
from gen_unicode import NAMES, POOL, EXTRA
WSX = "\u00a0\u0085\u2028\u2029"


def atoms():
    """Every spelling of a single character or class, with the set of flags it may be combined with."""
    out = []
    for c in POOL:
        out += ["\\x{%x}" % ord(c), "\\Q" + c + "\\E", "[" + c + "]", "[^" + c + "]", "[\\" + c + "]", "[a" + c + "]", "[" + c + "-]",
                "\\" + c, c, "[\\Q" + c + "\\E]", "[\\x{%x}-\\x{%x}]" % (ord(c), ord(c) + 1), "[" + c + "-\\x{10ffff}]", "[]" + c + "]"]
        if ord(c) < 256:
            out += ["\\x%02x" % ord(c), "\\x%02X" % ord(c), "[\\x%02x]" % ord(c)]
        if c.isascii() and c.isalpha():
            out += ["\\c" + c, "[\\c" + c + "]"]
    short = ["\\d", "\\D", "\\s", "\\S", "\\w", "\\W", "\\h", "\\H", "\\v", "\\V"] + \
            ["\\%s{%s}" % (k, n) for k in "pP" for n in NAMES if len(n) < 3 or n in ("Greek", "Latin", "Han", "Common", "Inherited", "Thai")]
    out += ["."] + short
    posix = ["[:%s%s:]" % (n, k) for n in ("", "^") for k in
             ("alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit")]
    for it in short + posix:
        out += ["[" + it + "]", "[^" + it + "]", "[a" + it + "]", "[" + it + "-]", "[^" + it + "\\n]"]
    return out


def shorthands():
    """Classes with names, alone and in brackets."""
    posix = ["[:%s%s:]" % (n, k) for n in ("", "^") for k in
             ("alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit")]
    esc = ["\\" + k for k in "dDsSwWhHvV"]
    props = ["\\%s{%s}" % (k, n) for k in "pP" for n in ("L", "Lu", "Ll", "Lo", "N", "Nd", "No", "P", "S", "Z", "Zs", "C", "Cf", "Cc", "Greek", "Latin", "Han", "Common", "Inherited", "Thai", "Cyrillic")]
    out = ["."] + esc + props
    for it in esc + posix + props:
        out += ["[%s]" % it, "[^%s]" % it, "[%sa]" % it]
    out += ["[%s%s]" % (a, b) for a in esc for b in esc] + ["[^%s%s]" % (a, b) for a in esc for b in posix[:14]]
    return [{"op": "regex", "pat": cp(f + a), "ins": [cp(EXTRA + "aZ5 _-\n\tb")], "strict": 0, "text": f + a} for a in out for f in ("", "(?s)")]


def membership(rng, flags, part):
    """Which characters does each spelling of an atom match? One input holds all characters."""
    out = []
    for f in flags:
        for a in atoms():
            if rng.random() >= part or ("x" in f and a in WSX) or "1f600" in a and "-" in a:
                continue
            pat = (f"(?{f})" if f else "") + a
            out.append({"op": "regex", "pat": cp(pat), "ins": [cp(POOL)], "strict": 0, "text": pat})
    return out


def directed():
    """Fixed cases. The last ones show a flaw of the regex engine (see known_findings.jsonl)."""
    def c(pat, *ins, strict=1):
        return {"op": "regex", "pat": cp(pat), "ins": [cp(s) for s in ins], "strict": strict, "text": pat}
    out = [c("a$?b", "ab", "a\nb", "a\n"), c("a\\Z?b", "ab", "a\nb", "a\n"), c("a\\Z?", "a\n", "a", "a\n\n"),
           c("\\b|[^\\s\\S]", "a b"), c("(?m)\\b$", "a"), c("\\Qa.b\\E{2}", "a.bb", "a.ba.b"),
           c("(?x) a b # c", "ab#c", "ab"), c("a(?i)b|c", "aB", "C", "Ac"), c("a(?:(?i)b)c", "aBc", "aBC"),
           c("[[:^alpha:]]+", "a1é-b"), c("\\w+", "aé1_ü"), c("\\bé", "é aé"), c("a.c", "a\nc a\rc"), c("(?s)a.c", "a\nc")]
    for q in ("a\\\\b", "\\d", "\\", "\\\\", "a\\", "[a]\\Q", "\\\\\\"):
        ts = ["a\\\\b", "a\\b", "\\d", "d5\\", "\\\\", "\\\\\\\\", "a\\", "[a]\\Q", "[a]Q", "a"]
        out += [c("\\Q" + q + "\\E", *ts), c("x\\Q" + q + "\\E|y", *["x" + t for t in ts])]
    out += [c(".Ca{2,}|\\Sa", "1 Caa"), c("(\\D\\s){0,2}\\x09", "- a\t\t-\nA")]
    return out


def run(ctx):
    ctx.suite("directed", "TraceRegex.tla", directed(), nontrivial=lambda r: any(r["out"].get("spans", [])))
    fl = ["", "i", "x", "s", "m", "ix", "sm", "isx", "i-s", "-i"]
    ctx.suite("membership", "TraceRegex.tla",
              membership(ctx.rand("membership"), fl if ctx.thorough else ["", "i", "x"], 1),
              nontrivial=lambda r: any(r["out"].get("spans", [])))
    ctx.suite("named classes", "TraceRegex.tla", shorthands(), nontrivial=lambda r: any(r["out"].get("spans", [])))
    ctx.suite("random", "TraceRegex.tla", cases(ctx.rand("random"), ctx.n(3000, 30000), 6),
              nontrivial=lambda r: any(r["out"].get("spans", [])))
