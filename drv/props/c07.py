"""C07: keywords in the event path."""
from sgen import *

LEVEL = "model_checking"

KWS = ["aws", "awsAccess", "aws-access", "aws_access", "AWS access", "access/key", "k", "Key", "KEY", "x-", "-x", "é", "éX", "aé",
       "my.path", "a b", "aB", "AB", "api--key", "key1", "1key", "aX ", "a:", ":", "中A"]
FLDS = ["aws", "awsAccess", "aws-access", "aws_access", "AWS", "AWSAccess", "aws access", "access", "access/key", "accessKey", "k", "Key",
        "KEY", "key1", "x-", "é x-", "-x", "é", "éX", "aé", "my", "path", "my.path", "a b", "aB", "AB", "api--key", "api_-key", "1key", "1Key",
        "a", "b", "aX", "a:", "", "中A", "é中-", "éa-b", "ééé_k", "kéé"]
TXT = ["1", "a 1", "k 1", "key 1", "é1", "awsAccess 1 1", "x- 1", "nothing", "", "1 k", "aws 11"]


def cases(rng, n):
    out = []
    for _ in range(n):
        rules = []
        for _ in range(rng.choice([1, 1, 2])):
            rules.append(regex(rng.choice(["\\d", "\\d+", "1", "[a1]"]), action(rng, "nnr"),
                               kw=kw(rng.choice([12, 20, 50]), rng.sample(KWS, rng.choice([1, 1, 2, 3])),
                                     rng.sample(["no", "k"], 1) if rng.random() < .1 else [])))
        ps = uniq_paths([[fld(rng.choice(FLDS)) if rng.random() < .8 else idx(rng.randrange(3)) for _ in range(rng.randint(0, 4))]
                         for _ in range(rng.randint(1, 4))])
        ev = [leaf(p, rng.choice(TXT)) for p in ps]
        out.append(scan(rules, ev, kwpath=rng.random() < .85))
    # every keyword against every field
    for k in KWS:
        ev = [leaf(p, "1") for p in uniq_paths([path(f) for f in FLDS] + [path("z", f) for f in FLDS] + [path(0, f) for f in FLDS])]
        out.append(scan([regex("1", kw=kw(30, [k]))], ev, kwpath=True))
    return out


SEPS = ["-", "_", ".", " ", "/", "--", "-_", "._", ":", ";", ",", "\\", "\t", "+", "@", "\u2010", "\u00a0", "", "", "#", "'"]
CASES = [str.lower, str.lower, str.upper, str.capitalize]


def spell(rng, ws, few=False):
    """The words in one spelling: joined by one separator (or several), or as camelCase."""
    if rng.random() < .25:
        return ws[0] + "".join(w.capitalize() for w in ws[1:])
    f, g = rng.choice(CASES), rng.choice(CASES)
    sep = rng.choice(SEPS[:5] if few else SEPS)
    return "".join([f(ws[0])] + [(sep if rng.random() < .85 else rng.choice(SEPS)) + g(w) for w in ws[1:]])


def spellings(rng, n):
    """One keyword, many spellings of (nearly) the same words as paths."""
    out = []
    for _ in range(n):
        ws = [rng.choice(["aws", "key", "id", "x", "é", "k9", "aé"]) for _ in range(rng.randint(1, 3))]
        k = rng.choice(["", "", "", "-", "x"]) + spell(rng, ws, True) + rng.choice(["", "", "", "_", "1"])
        ps = []
        for _ in range(12):
            v = list(ws)
            if rng.random() < .15:
                v[rng.randrange(len(v))] = rng.choice(["aws", "key", "z"])
            cut = rng.randint(0, len(v))
            segs = [spell(rng, q) for q in (v[:cut], v[cut:]) if q]
            pre, post = rng.choice(["", "", "", "-", "x", "my_", "1"]), rng.choice(["", "", "", "-", "s", "_id", "X"])
            segs[0], segs[-1] = pre + segs[0], segs[-1] + post
            p = []
            for q in segs:
                p.append(fld(q))
                if rng.random() < .25:
                    p.append(rng.choice([idx(0), fld(""), fld("z")]))
            ps.append([fld("z")] * rng.choice([0, 0, 1]) + p)
        out.append(scan([regex("1", kw=kw(50, [k] + (["zz"] if rng.random() < .2 else [])))], [leaf(p, "1") for p in uniq_paths(ps)],
                        kwpath=rng.random() < .95))
    return out


def long_strings(rng, n):
    out = []
    for _ in range(n):
        s = rng.choice(["1", ""]) + " " * rng.choice([300, 1100, 4200]) + "1"
        out.append(scan([regex("1", action(rng, "nr"), kw=kw(30, ["key"]))],
                        [leaf(path("some", "key"), s), leaf(path("some", "kex"), s)], kwpath=True))
    return out


def large(rng, n):
    """Deep paths, long segments, many keywords."""
    out = []
    fl = FLDS + ["AwsAccessKeyId", "someVeryLongFieldName" * 3, "x" * 70, "http_request.headers/Authorization", "-_-", "K", "é" * 40 + "-key", "y" * 70 + "_key", "myKey" + "Z" * 60, "some_" * 13 + "aws_access", "x" * 300 + "-aws-access"]
    for _ in range(n):
        ks = rng.sample(KWS, rng.choice([1, 2, 10])) + ["kw%02d" % i for i in range(rng.choice([0, 0, 35]))]
        rng.shuffle(ks)
        rules = [regex(rng.choice(["\\d", "1", "[a1]"]), action(rng, "nnr"), kw=kw(30, ks)) for _ in range(rng.choice([1, 2]))]
        ps = uniq_paths([[fld(rng.choice(fl)) if rng.random() < .75 else idx(rng.choice([0, 11, 4000]))
                          for _ in range(rng.choice([2, 6, 8, 12]))] for _ in range(rng.randint(1, 5))])
        out.append(scan(rules, [leaf(p, rng.choice(TXT)) for p in ps], kwpath=rng.random() < .9))
    return out


def run(ctx):
    ctx.suite("large", "TraceScan.tla", large(ctx.rand("large"), ctx.n(300, 3000)), nontrivial=has_match)
    ctx.suite("spellings", "TraceScan.tla", spellings(ctx.rand("spellings"), ctx.n(1500, 15000)), nontrivial=has_match)
    ctx.suite("long strings", "TraceScan.tla", long_strings(ctx.rand("long strings"), ctx.n(16, 60)), nontrivial=has_match)
    ctx.suite("random", "TraceScan.tla", cases(ctx.rand("random"), ctx.n(5000, 50000)), nontrivial=has_match)
