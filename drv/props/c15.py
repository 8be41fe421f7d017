"""C15: events and responses as bytes, through the C interface."""
from sgen import *
from props import c14

LEVEL = "model_checking"

RAW = [b"\xff", b"\xc3", b"\xe4\xb8", b"\xf0\x9f\x98", b"a\x80b", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"ab\xe4\xb8c1",
       b"\xe4\xb8\xad\xe4\xb8", b"\xf0\x9f\x98\x801\xf0\x9f\x98", b"\x00\x01", b"\xf8\x88\x80\x80\x80", b"1\xfe2"]


def event(rng):
    budget = [rng.choice([4, 8, 16, 30])]
    n = c14.node(rng, rng.randint(0, 4), False, budget)

    def spoil(n):
        if n["t"] == "s" and rng.random() < .12:
            n["b"] = list(rng.choice(RAW) + rng.choice([b"", b"ab", "é1".encode()]))
        for c in n.get("l", []):
            spoil(c)
        for e in n.get("m", []):
            if rng.random() < .08:
                e["kb"] = list(rng.choice(RAW))
            spoil(e["v"])
    spoil(n)
    return n


def paths(n, p=()):
    return [x for x in c14.paths_of(n) if x]


def rule(rng, ps):
    act = action(rng, "nnrrrefl")
    k = rng.random()
    sc = {"t": "all"}
    if ps and k < .3:
        p = rng.choice(ps)
        sc = {"t": "exc", "exc": [p]} if rng.random() < .5 else {"t": "inc", "inc": [p[:rng.randint(0, len(p))]], "exc": []}
    pat = rng.choice(["\\d+", "[a-z]", "\\d", "ab", "\\w+", "é", ".", "..?", "\\x{FFFD}", "secret", "[^a-z]{2}", "😀", "\\x00"])
    kwv = kw(rng.choice([3, 10]), rng.sample(["ab", "a", "secret", "message"], 1)) if rng.random() < .15 else None
    return regex(pat, act, scope=sc, kw=kwv, val="luhn" if rng.random() < .05 else "")


def damage(rng, b):
    b = list(b)
    k = rng.random()
    if not b or k < .1:
        return b + [rng.choice([4, 5, 9, 255, 0, 1, 3])]
    i = rng.randrange(len(b))
    if k < .4:
        return b[:i]
    if k < .6:
        return b[:i] + [rng.randrange(256)] + b[i + 1:]
    if k < .8:
        return b[:i] + b[i + 1:]
    if k < .9:
        return b[:i] + [0xff, 0xff, 0xff, 0xff] + b[i + 4:]
    return b[:i] + [rng.randrange(6)] + b[i:]


def cases(rng, n):
    out = []
    for _ in range(n):
        events = [event(rng) for _ in range(rng.randint(1, 3))]
        ps = sum((paths(e) for e in events), [])
        rules = [rule(rng, ps) for _ in range(rng.randint(1, 3))]
        steps = [{"do": "list", "h": 1}]
        for i, r in enumerate(rules):
            steps += [{"do": "rule", "h": 10 + i, "doc": d_rule(rng, r)}, {"do": "append", "rule": 10 + i, "list": 1},
                      {"do": "free_rule", "h": 10 + i}]
        steps.append({"do": "scanner", "h": 2, "list": 1, "kwpath": rng.random() < .3})
        steps.append({"do": "free_list", "h": 1})
        for e in events:
            b = wire(e)
            if rng.random() < .25:
                steps.append({"do": "scan", "h": 2, "bytes": damage(rng, b)})
            steps.append({"do": "scan", "h": 2, "bytes": b})
        steps.append({"do": "delete", "h": 2})
        out.append({"op": "ffi", "steps": steps})
    return out


def texts(n):
    if n["t"] == "s":
        return [] if "b" in n else [n["s"]]
    return sum((texts(c) for c in n.get("l", [])), []) + sum((texts(e["v"]) for e in n.get("m", [])), [])


def direct(rng, n):
    """BinaryEvent and encode_response themselves: both encodings, with and without the promise of valid UTF-8."""
    out = []
    for _ in range(n):
        e = event(rng)
        raw = any(b in str(e) for b in ("'b':", "'kb':"))
        rules = [rule(rng, paths(e)) for _ in range(rng.randint(1, 3))]
        b = wire(e)
        hash = not raw and rng.random() < .2
        if hash:
            rules[0]["act"] = {"t": rng.choice(["hash", "hash16"])}
        valid = not raw and rng.random() < .5
        out.append({"op": "binary", "rules": rules, "opts": {"implicit": rng.random() < .3, "kwpath": rng.random() < .3},
                    "bytes": damage(rng, b) if not hash and not valid and rng.random() < .15 else b, "enc": rng.choice(["utf8", "utf16", "utf16"]),
                    "valid": valid, "hash": hash, "texts": texts(e) if hash else [],
                    "blocked": [rng.randrange(len(rules))] if rng.random() < .1 else []})
    return out


def answered(r):
    return any(o.get("resp") for o in r["out"].get("outs", []))


def huge(rng, n):
    """Long strings, large indices, deep paths, many strings."""
    out = []
    for i in range(n):
        long = i % 8 == 0
        s = lambda: {"t": "s", "s": cp(("a" * rng.choice([40000, 70000])) if long else text(rng, rng.choice([3, 60, 140])))}
        e = s()
        for d in range(rng.choice([1, 2, 3, 9])):
            if rng.random() < .6:
                k = rng.choice([1, 1, 2] if d or long else [1, 20])
                l = [e] + [{"t": "s", "s": cp(text(rng, 4))} for _ in range(k - 1)]
                ix = rng.sample([0, 1, 9, 10, 255, 256, 65535, 65536, 70000, 16777216, 2147483647] + list(range(300, 320)), k)
                e = {"t": "l", "l": l, "ix": ix}
            else:
                e = {"t": "m", "m": [{"k": cp(rng.choice(["a", "k" * 300, "é" * 130])), "v": e}]}
        acts = [{"t": "redact", "r": cp(rng.choice(["", "x", "é" * 12, "b" * 60]))}, {"t": "none"}, {"t": "first", "n": 3}]
        rules = [regex("a+" if long else rng.choice(["[^a]+", "\\w+", "a", "[a1é]+"]), rng.choice(acts)) for _ in range(1 if long else 2)]
        if not long and rng.random() < .3 or i in (3, 5, 11):
            k = 260 if i in (3, 5, 11) else rng.choice([9, 60, 130, 260][:2 if rng.random() < .7 else 4])
            rules = [regex("\\x07") for _ in range(k)] + rules
        out.append({"op": "binary", "rules": rules, "opts": {}, "bytes": wire(e), "enc": "utf8" if long else rng.choice(["utf8", "utf16"]),
                    "valid": rng.random() < .3, "hash": False, "texts": [], "blocked": []})
    return out


def run(ctx):
    ctx.suite("large", "TraceBinary.tla", huge(ctx.rand("large"), ctx.n(48, 600)), nontrivial=lambda r: bool(r["out"].get("resp")))
    ctx.suite("bytes", "TraceFfi.tla", cases(ctx.rand("bytes"), ctx.n(2500, 25000)), nontrivial=answered)
    ctx.suite("both encodings", "TraceBinary.tla", direct(ctx.rand("both encodings"), ctx.n(2000, 20000)), nontrivial=lambda r: bool(r["out"].get("resp")))
