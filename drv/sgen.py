"""Building blocks of scan cases."""
from core import cp

CH = "ab1é中😀-_ "          # 1 to 4 bytes in UTF-8, 1 or 2 units in UTF-16


def text(rng, n, alpha=CH):
    return "".join(rng.choice(alpha) for _ in range(n))


def off8(s, i):
    return len(s[:i].encode())


def action(rng, kinds="nnrrehflHN"):
    k = rng.choice(kinds)
    if k == "n":
        return {"t": "none"}
    if k == "r":
        return {"t": "redact", "r": cp(rng.choice(["*", "XX", "[é]", "😀😀", "abcdefgh", "<-->"]))}
    if k == "e":
        return {"t": "redact", "r": []}
    if k == "h":
        return {"t": "hash"}
    if k == "H":
        return {"t": "hash16"}
    if k == "f":
        return {"t": "first", "n": rng.choice([1, 1, 2, 3, 7])}
    if k == "l":
        return {"t": "last", "n": rng.choice([1, 1, 2, 3, 7])}
    return {"t": "none"}


def spans_entry(s, spans):
    return {"s": cp(s), "cs": [list(x) for x in spans], "sp": [[off8(s, a), off8(s, b)] for a, b in spans]}


def script(act, entries=(), whole=False, multipass=False, scope=None):
    return {"k": "script", "act": act, "spans": list(entries), "whole": whole, "multipass": multipass,
            "scope": scope or {"t": "all"}}


def regex(pat, act=None, scope=None, kw=None, val="", **more):
    r = {"k": "regex", "pat": cp(pat), "act": act or {"t": "none"}, "scope": scope or {"t": "all"}, "val": val}
    if kw:
        r["kw"] = kw
    r.update(more)
    return r


def kw(la, inc=(), exc=()):
    return {"la": la, "inc": [cp(k) for k in inc], "exc": [cp(k) for k in exc]}


def fld(s):
    return ["f", cp(s)]


def idx(i):
    return ["i", [i]]


def path(*segs):
    return [fld(s) if isinstance(s, str) else idx(s) for s in segs]


def leaf(p, s):
    return {"p": p, "s": cp(s)}


def scan(rules, ev, blocked=(), enc="utf8", hash=False, **opts):
    return {"op": "scan", "rules": rules, "ev": ev, "opts": opts, "blocked": list(blocked), "enc": enc, "hash": hash}


def needs_hash(rules):
    return any(r["act"]["t"] in ("hash", "hash16") for r in rules)


def rand_spans(rng, n, k):
    out = []
    for _ in range(k):
        a = rng.randrange(n)
        out.append((a, rng.randint(a + 1, min(n, a + 4))))
    return out


LENS = [1, 1, 2, 3, 8, 30, 100, 127, 128, 255, 256, 257, 300]


def big_action(rng, kinds="nnrrehflH"):
    """An action with a large parameter."""
    a = action(rng, kinds)
    if a["t"] == "redact" and a["r"]:
        a["r"] = cp(text(rng, rng.choice([1, 3, 40, 130, 260])))
    if a["t"] in ("first", "last"):
        a["n"] = rng.choice([1, 3, 17, 63, 64, 65, 100, 128, 255, 256, 300])
    return a


def far_spans(rng, n, k):
    """Spans of any length in a string of n characters."""
    out = []
    for _ in range(k):
        a = rng.randrange(n)
        out.append((a, min(n, a + rng.choice(LENS))))
    return out


def apart(rng, n, k):
    """Spans in order with gaps between them: no overlaps."""
    out, at = [], rng.randint(0, 5)
    for _ in range(k):
        b = at + rng.choice([1, 1, 2, 4, 9, 30, 70, 130])
        if b > n:
            break
        out.append((at, b))
        at = b + rng.choice([0, 0, 1, 2, 5, 20])
    return out


def rand_path(rng, maxlen=3, fields="ab", idxs=2):
    return [fld(rng.choice(fields)) if rng.random() < .55 else idx(rng.randrange(idxs))
            for _ in range(rng.randint(0, maxlen))]


def uniq_paths(paths):
    seen, out = set(), []
    for p in paths:
        t = str(p)
        if t not in seen:
            seen.add(t)
            out.append(p)
    return out


def has_match(r):
    return bool(r["out"].get("matches"))


# ------------------------------------------------------------------ documents and bytes (C15..C18)

def d_str(s):
    return {"t": "s", "s": cp(s) if isinstance(s, str) else s}


def d_num(n):
    return {"t": "n", "s": cp(str(n))}


def d_list(l):
    return {"t": "l", "l": list(l)}


def d_map(*pairs):
    return {"t": "m", "m": [{"k": cp(k), "v": v} for k, v in pairs]}


def d_path(p):
    return d_map(("segments", d_list(d_map(("type", d_str("Field")), ("value", d_str(s[1]))) if s[0] == "f"
                                     else d_map(("type", d_str("Index")), ("value", d_num(s[1][0]))) for s in p)))


VALDOC = {"luhn": "LuhnChecksum", "chinese": "ChineseIdChecksum", "github": "GithubTokenChecksum", "nhs": "NhsCheckDigit",
          "iban": "IbanChecker", "nir": "NirChecksum", "jwt": "JwtExpirationChecker"}


def d_action(a):
    t = a["t"]
    if t == "redact":
        return d_map(("type", d_str("Redact")), ("replacement", d_str(a["r"])))
    if t in ("first", "last"):
        return d_map(("type", d_str("PartialRedact")), ("direction", d_str("FirstCharacters" if t == "first" else "LastCharacters")),
                     ("character_count", d_num(a["n"])))
    return d_map(("type", d_str({"none": "None", "hash": "Hash", "hash16": "Utf16Hash"}[t])))


def d_scope(s):
    if s["t"] == "inc":
        return d_map(("type", d_str("Include")), ("paths", d_map(("include", d_list(map(d_path, s["inc"]))),
                                                                 ("exclude", d_list(map(d_path, s["exc"]))))))
    return d_map(("type", d_str("Exclude")), ("paths", d_list(map(d_path, s.get("exc", [])))))


def d_rule(rng, r):
    """A document for a rule, with the freedom a document has: optional parts may be left out or null."""
    opt = lambda k, v, default: [] if default and rng.random() < .5 else [(k, v)]
    kv = r.get("kw")
    ps = [("pattern", d_str(r["pat"])), ("match_action", d_action(r["act"]))]
    ps += opt("scope", d_scope(r["scope"]), r["scope"]["t"] == "all")
    if kv:
        lists = [("look_ahead_character_count", d_num(kv["la"]))]
        for n, k in (("included_keywords", "inc"), ("excluded_keywords", "exc")):
            if kv[k] or rng.random() < .4:
                lists.append((n, d_list(map(d_str, kv[k]))))
            elif rng.random() < .5:
                lists.append((n, {"t": "z"}))
        ps.append(("proximity_keywords", d_map(*lists)))
    else:
        ps += opt("proximity_keywords", {"t": "z"}, True)
    ps += [("validator", d_map(("type", d_str(VALDOC[r["val"]]))))] if r.get("val") else opt("validator", {"t": "z"}, True)
    if r.get("labels"):
        ps.append(("labels", d_list(d_list(map(d_str, p)) for p in r["labels"])))
    else:
        ps += opt("labels", rng.choice([{"t": "z"}, d_list([])]), True)
    ps += opt("match_validation_type", {"t": "z"}, True)
    if rng.random() < .1:
        ps.append(("id", d_str("unknown parts are ignored")))
    rng.shuffle(ps)
    return d_map(*ps)


def be32(n):
    return list((n & 0xffffffff).to_bytes(4, "big"))


def wstr(b):
    b = list(b.encode()) if isinstance(b, str) else list(b)
    return be32(len(b)) + b


def wire(node):
    """A tree of strings as event bytes; strings and keys may be code points (s, k) or raw bytes (b)."""
    if node["t"] == "s":
        return [3] + wstr(node["b"] if "b" in node else "".join(map(chr, node["s"])))
    out = []
    if node["t"] == "l":
        for i, v in zip(node.get("ix", range(len(node["l"]))), node["l"]):
            out += [1] + be32(i) + wire(v) + [2]
    else:
        for e in node["m"]:
            out += [0] + wstr(e["kb"] if "kb" in e else "".join(map(chr, e["k"]))) + wire(e["v"]) + [2]
    return out
