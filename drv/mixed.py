"""Scans with everything at once: features meet that the suites of the single properties keep apart."""
from sgen import *
from props.c03 import rscope
from props.c10 import luhn, nhs, chinese

PATS = ["\\d+", "[0-9]{2,}", "\\d", "[a-z]+", "\\w+", " ?\\d+ ?", "\\s\\d+", "[ab1]+", "a", "é.?", "(?i)key", "[^ ]+", "\\d[\\d -]*\\d", "1|11", ".1",
        "\\b\\d{3,}\\b", "\\d+X?", "[é中]+", "--?", "key \\d"]
WORDS = ["key", "a", "b", "no", "aws", "id"]
FIELDS = ["a", "b", "key", "awsKey", "my_id", "message", "", "é"]
MV = [{"t": "http", "ep": "/v", "hosts": [], "dead": True, "dflt": True}, {"t": "aws_id"}, {"t": "aws_session"}]


def token(rng):
    x = rng.random()
    if x < .3:
        return rng.choice(WORDS + ["KEY", "Key", "keys", "no-", "n-o", "k-ey"])
    if x < .4:
        return luhn(rng)
    if x < .45:
        return rng.choice([nhs, chinese])(rng)
    if x < .6:
        return rng.choice(["1", "11", "7", "42", "111"])
    return rng.choice([" ", "  ", "-", "_", ".", "é", "中", "😀", "é1", "a1", "ab", "1a", ": "])


def string(rng):
    k = rng.choice([0, 1, 2, 4, 8])
    s = "".join(token(rng) + rng.choice(["", " ", " ", "-"]) for _ in range(k))
    return s.strip(" ") if rng.random() < .5 else s


def rule(rng, texts, scripted=.2):
    sc = rscope(rng, 2) if rng.random() < .5 else None
    act = action(rng, "nnnrrefl")
    if rng.random() < scripted:
        return script(act, [spans_entry(t, rand_spans(rng, len(t), rng.randint(1, 3))) for t in texts if t], multipass=rng.random() < .6, scope=sc)
    more = {}
    k = None
    if rng.random() < .45:
        la = rng.choice([4, 6, 10, 30, 50])
        w = lambda n: rng.sample([x for x in WORDS if len(x) <= la], n)
        y = rng.random()
        k = kw(la, w(rng.choice([1, 2])) if y < .6 else [], w(rng.choice([1, 2])) if y > .5 else [])
    if rng.random() < .12:
        more["mv"] = rng.choice(MV)
    val = rng.choice(["luhn", "luhn", "nhs", "chinese"]) if rng.random() < .3 else ""
    return regex(rng.choice(PATS), act, scope=sc, kw=k, val=val, **more)


def place(rng):
    return [fld(rng.choice(FIELDS)) if rng.random() < .6 else idx(rng.randrange(2)) for _ in range(rng.randint(0, 3))]


def event(rng, texts, k):
    return [leaf(p, rng.choice(texts)) for p in uniq_paths([place(rng) for _ in range(k)])]


def blocked(rng, k):
    return [rng.randrange(k + 1) for _ in range(rng.randint(1, 4))] if rng.random() < .2 else []


def options(rng):
    return {o: rng.random() < .6 for o in ("multipass", "implicit", "kwpath") if rng.random() < .6}


def mixed(rng, n):
    out = []
    for _ in range(n):
        texts = list(dict.fromkeys(string(rng) for _ in range(rng.randint(1, 4))))
        rules = [rule(rng, texts) for _ in range(rng.choice([1, 2, 3, 6]))]
        out.append(scan(rules, event(rng, texts, rng.randint(1, 6)), blocked=blocked(rng, len(rules)), enc=rng.choice(["utf8", "utf8", "utf16"]),
                        **options(rng)))
    return out


def histories(rng, n, probes=False):
    """The same as histories of scans by one scanner, for TraceProbe."""
    out = []
    for _ in range(n):
        texts = list(dict.fromkeys(string(rng) for _ in range(rng.randint(1, 4))))
        rules = [rule(rng, texts, 0) for _ in range(rng.randint(1, 4))]
        scans = [{"ev": event(rng, texts, rng.randint(1, 5)), "blocked": blocked(rng, len(rules)), "enc": rng.choice(["utf8", "utf8", "utf16"])}
                 for _ in range(rng.randint(2, 4))]
        out.append({"op": "probe", "rules": rules, "opts": dict(options(rng), labels=[]), "scans": scans})
    return out
