"""C17: rules as documents."""
import copy
from core import cp
from sgen import *

LEVEL = "model_checking"

PATS = ["\\d+", "[a-z]", "ab", "\\w+", "é", "secret", "a*", "(", "[0-9]{3}", "(?i)AB", "\"", "a b", "1|\\n"]
STRS = ["", "x", "a", "*", "é😀", "a\"b\\", "<>", "\n", "[REDACTED]"]

# keys a rule does not have, however plausible
UNKNOWN = ["unknown", "validator", "secondary_validator", "keywords", "action", "redaction", "excludes", "includes", "regex", "tags", "count", "name", "id",
           "case_sensitive", "look_behind_character_count", "path", "_type", "kind"]


def some_rule(rng, ps):
    sc = {"t": "all"}
    k = rng.random()
    one = lambda: (lambda p: p[:rng.randint(0, len(p))])(rng.choice(ps)) if rng.random() < .8 else rand_path(rng)
    if k < .3:
        sc = {"t": "exc", "exc": [one() for _ in range(rng.randint(0, 2))]}
    elif k < .6:
        sc = {"t": "inc", "inc": [one() for _ in range(rng.randint(0, 2))], "exc": [one() for _ in range(rng.randint(0, 2))]}
    kwv = None
    if rng.random() < .35:
        ks = rng.sample(["ab", "a", "secret", "é", "x y", ""], rng.randint(0, 2))
        es = rng.sample(["b", "token", "😀"], rng.randint(0, 2))
        kwv = kw(rng.choice([0, 1, 6, 10, 30, 50, 51, 256, 266, 65546]), ks, es)
    act = action(rng, "nrrefl")
    if rng.random() < .08:
        act = {"t": rng.choice(["first", "last"]), "n": rng.choice([0, 0, 256, 257, 65536, 65537])}
    r = regex(rng.choice(PATS), act, scope=sc, kw=kwv, val=rng.choice(list(VALDOC)) if rng.random() < .2 else "")
    if rng.random() < .3:
        r["labels"] = [[rng.choice(STRS), rng.choice(STRS)] for _ in range(rng.randint(1, 3))]
    return r


def d_duration(rng):
    return d_map(("secs", d_num(rng.randrange(10))), ("nanos", d_num(rng.choice([0, 5, 999999999]))))


def d_ranges(rng):
    return d_list(d_map(("start", d_num(a)), ("end", d_num(b)))
                  for a, b in rng.choices([(200, 300), (0, 65535), (400, 500), (404, 405), (300, 200)], k=rng.randint(0, 2)))


def d_mv(rng):
    k = rng.random()
    if k < .15:
        return d_map(("Aws", d_str("AwsId")))
    if k < .25:
        return d_map(("Aws", d_str("AwsSession")))
    if k < .5:
        ps = [("aws_sts_endpoint", d_str(rng.choice(["https://sts.amazonaws.com", "http://localhost:1", ""]))), ("timeout", d_duration(rng))]
        if rng.random() < .7:
            ps.append(("forced_datetime_utc", rng.choice([{"t": "z"}, d_str("2024-02-03T04:05:06Z")])))
        rng.shuffle(ps)
        return d_map(("Aws", d_map(("AwsSecret", d_map(*ps)))))
    ps = [("endpoints", d_list(map(d_str, rng.sample(["http://localhost/1", "http://localhost/2", "x", ""], rng.randint(0, 3))))),
          ("method", d_str(rng.choice(["Get", "Post", "Put", "Delete", "Patch"]))),
          ("request_header", d_list(d_map(("key", d_str(a)), ("value", d_str(b))) for a, b in rng.sample([("A", "Bearer $MATCH"), ("x", "$MATCH"), ("é", "")], rng.randint(0, 2)))),
          ("valid_http_status_code", d_ranges(rng)), ("invalid_http_status_code", d_ranges(rng)),
          ("options", d_map(("timeout", d_duration(rng))))]
    rng.shuffle(ps)
    return d_map(("CustomHttp", d_map(*ps)))


def nodes(d):
    yield d
    for c in d.get("l", []):
        yield from nodes(c)
    for e in d.get("m", []):
        yield from nodes(e["v"])


def dull(s):
    return not any(chr(c) == ":" or chr(c) == "-" for c in s)


def mutate(rng, d):
    """Another document, one place away. Lists are not put where objects belong: JSON readers differ on that."""
    d = copy.deepcopy(d)
    n = rng.choice(list(nodes(d)))
    k = rng.random()
    maps = [m for m in nodes(d) if m["t"] == "m" and m["m"]]
    if k < .25 and maps:
        m = rng.choice(maps)
        m["m"].pop(rng.randrange(len(m["m"])))
    elif k < .4 and maps:
        e = rng.choice(rng.choice(maps)["m"])
        e["k"] = rng.choice([e["k"] + cp("s"), e["k"][:-1], cp("".join(map(chr, e["k"])).swapcase())])
    elif k < .5 and maps:
        m = rng.choice(maps)
        if not any("".join(map(chr, e["k"])) in ("Aws", "CustomHttp", "AwsSecret", "secs", "nanos", "start", "end") for e in m["m"]):
            new = rng.choice([u for u in UNKNOWN if not any(e["k"] == cp(u) for e in m["m"])])
            m["m"].insert(rng.randint(0, len(m["m"])), {"k": cp(new), "v": rng.choice([d_num(1), d_str("x"), d_list([d_map()])])})
    elif k < .65:
        ss = [x for x in nodes(d) if x["t"] == "s" and dull(x["s"])]
        if not ss:
            return d
        s = rng.choice(ss)
        t = "".join(map(chr, s["s"]))
        s["s"] = cp(rng.choice([t.lower(), t.upper(), t + "x", t[:-1], "None", "Hash", "Field", "Index", "Include", "Exclude", "LuhnChecksum", "NirChecksum", "AwsId", "Post", "Redact"]))
    else:
        new = rng.choice([d_str("x"), d_num(1), d_num(-1), d_num("1.5"), d_num("true"), {"t": "z"}, d_list([]), d_map(), d_num("70000")])
        if new["t"] == "m" and n["t"] == "s":
            new = d_num(7)
        n.clear()
        n.update(copy.deepcopy(new))
    return d


def dated(d):
    """Does the document have a date that is not one of ours? Dates have their own grammar."""
    for m in nodes(d):
        for e in m.get("m", []):
            if e["k"] == cp("forced_datetime_utc") and e["v"]["t"] == "s" and e["v"]["s"] != cp("2024-02-03T04:05:06Z"):
                return True
    return False


def cases(rng, n):
    out = []
    for i in range(n):
        ev = [leaf(p, rng.choice(["ab12 secret", "secret 1234", "é 4111111111111111", "x y 12", "token 7 ab", "ab ab"]))
              for p in uniq_paths([rand_path(rng) for _ in range(rng.randint(1, 3))])]
        r = some_rule(rng, [l["p"] for l in ev])
        if i % 5 == 0:
            if rng.random() < .2:
                r["act"] = {"t": rng.choice(["hash", "hash16"])}
            if "labels" in r:
                r["labels"] = [[cp(x) for x in l] for l in r["labels"]]
            out.append({"op": "doc", "rule": r})
            continue
        d = d_rule(rng, r)
        if rng.random() < .35:
            d["m"] = [e for e in d["m"] if e["k"] != cp("match_validation_type")]
            d["m"].insert(rng.randint(0, len(d["m"])), {"k": cp("match_validation_type"), "v": d_mv(rng)})
        if rng.random() < .06:
            d["m"] = [e for e in d["m"] if e["k"] != cp("labels")]
            d["m"].append({"k": cp("labels"), "v": d_list(d_list(map(d_str, rng.choices(STRS, k=rng.choice([0, 1, 2, 2, 3, 4])))) for _ in range(rng.randint(1, 3)))})
        if rng.random() < .5:
            d = mutate(rng, d)
            if rng.random() < .3:
                d = mutate(rng, d)
            if dated(d):
                continue
        out.append({"op": "doc", "doc": d, "ev": ev, "blocked": [], "enc": "utf8", "hash": any(x["t"] == "s" and x["s"] in (cp("Hash"), cp("Utf16Hash")) for x in nodes(d))})
    return out


def http(rng, n):
    out = []
    while len(out) < n:
        d = d_mv(rng)
        if d["m"][0]["k"] != cp("CustomHttp"):
            continue
        which = [f for f in ("method", "headers", "valid", "invalid", "timeout") if rng.random() < .5]
        rng.shuffle(which)
        hosts = [cp(h) for h in rng.choices(["a.example", "$HOST", "b", "", "é"], k=rng.choice([0, 0, 1, 2, 3]))]
        ep = rng.choice(["http://$HOST/v", "$HOST", "http://x/v", "$HOS", "$HOST/$HOST", "a$HOST", "$$HOSTT", ""])
        out.append({"op": "http", "ep": cp(ep), "hosts": hosts, "set": d["m"][0]["v"], "which": which})
    return out


def run(ctx):
    ctx.suite("documents", "TraceDoc.tla", cases(ctx.rand("documents"), ctx.n(4000, 40000)), nontrivial=lambda r: r["out"].get("ok", True))
    ctx.suite("HTTP validation builder", "TraceDoc.tla", http(ctx.rand("HTTP validation builder"), ctx.n(400, 4000)), nontrivial=lambda r: r["out"].get("ok", True))
