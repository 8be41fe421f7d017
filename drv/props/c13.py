"""C13: validation of matches over HTTP and AWS."""
from sgen import *
from core import cp, uncp
import core

LEVEL = "model_checking"

CODES = [200, 200, 201, 299, 300, 302, 399, 400, 401, 403, 404, 499, 500, 503, 599, 600, 0]
CODES += [100 * a + b for a in (2, 4) for b in (2, 3, 4, 5, 6, 8, 10, 22, 29, 31, 51)] + [501, 502, 504]      # 1xx is never a final answer
METHODS = ["GET", "POST", "PUT", "DELETE", "PATCH"]
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789/+"


def http(rng, ep="/v"):
    d = {"t": "http", "ep": ep, "hosts": rng.choice([[], [], [], ["/h1"], ["/h1", "/h2"], ["/h2", "/h1", "/h3"], ["/h1", "/h2", "/h3"], ["/h1", "/h2", "/h3", "/h4"], ["/h1", "/h1"]]),
         "dead": rng.random() < .08, "dflt": rng.random() < .25, "method": "GET",
         "headers": [[cp("authorization"), cp("Bearer $MATCH")]], "valid": [[200, 300]], "invalid": [[400, 500]]}
    if not d["dflt"]:
        d["method"] = rng.choice(METHODS)
        d["headers"] = [[cp(k), cp(v)] for k, v in rng.sample(
            [("x-key", "$MATCH"), ("authorization", "token $MATCH."), ("x-two", "$MATCH$MATCH"), ("x-fix", "fixed"),
             ("user-agent", "sds $MATC"), ("x-é"[:2] + "q", "$$MATCH é")], rng.randint(1, 3))]
        if rng.random() < .5:
            d["valid"] = rng.choice([[[200, 201]], [[200, 300], [400, 401]], [[403, 404]], [[204, 205], [200, 201]], []])
        if rng.random() < .5:
            d["invalid"] = rng.choice([[[403, 404]], [[200, 600]], [[401, 402], [500, 501]], []])
    return d


def aws_secret(rng, ep="/aws"):
    return {"t": "aws_secret", "ep": ep, "dead": rng.random() < .08}


def secret_text(rng):
    """A match of the secret rule and a guess of what is sent for it."""
    s = "".join(rng.choice(B64) for _ in range(40))
    k = rng.random()
    if k < .6:
        return s
    if k < .8:
        return "k=" + s
    if k < .9:
        return s + rng.choice(["=", "+", "-", "A", "é"])
    return s[:39]


def find_secret(t):
    import re
    m = re.search(r"[A-Za-z0-9/+]{40}\b", t)
    return m.group(0) if m else ""


def case(rng):
    words = ["tok-a", "tok-b", "tok-é", "tok-\t", "tok-\x07", "tok-7"]
    rules, kinds = [], []
    for _ in range(rng.randint(1, 4)):
        k = rng.choice(["http", "http", "id", "secret", "secret", "plain", "session"])
        act = action(rng, "nnnref")
        if k == "http":
            rules.append(regex(rng.choice(["tok-.", "tok-[a-z]", "tok-\\W?[ab]?"]), act, mv=http(rng, rng.choice(["/v", "/v", "/w"]))))
        elif k == "id":
            rules.append(regex("AK.[0-9]", act, mv={"t": "aws_id"}))
        elif k == "secret":
            rules.append(regex("<[^>]+", act, mv=aws_secret(rng, rng.choice(["/aws", "/aws", "/aws2"]))))
        elif k == "session":
            rules.append(regex("se[0-9]", act, mv={"t": "aws_session"}))
        else:
            rules.append(regex(rng.choice(["p+", "[0-9]"]), act))
    ids, secrets, parts = [], [], []
    for _ in range(rng.randint(1, 7)):
        k = rng.choice(["w", "w", "id", "id", "sec", "sec", "p", "se"])
        if k == "w":
            parts.append(rng.choice(words))
        elif k == "id":
            parts.append("AK" + rng.choice(["x", "x", "x", "y", "é", "\x01"]) + rng.choice("0123"))
            ids.append(parts[-1])
        elif k == "sec":
            parts.append("<" + secret_text(rng))
            secrets.append(parts[-1])
        elif k == "p":
            parts.append("pp")
        else:
            parts.append("se1")
    srv = []
    for p in ("/v", "/w", "/h1/v", "/h2/v", "/h3/v", "/h4/v", "/h1/w", "/h2/w", "/h3/w", "/h4/w"):
        for w in words:
            if rng.random() < .6:
                srv.append({"path": p, "needle": cp(w), "id": [], "aws": False, "code": rng.choice(CODES)})
    cand = sorted({find_secret(s) for s in secrets} | {""} | set(secrets))
    for i in sorted(set(ids)):
        for s in {find_secret(x) for x in secrets}:
            if rng.random() < .9:
                srv.append({"path": rng.choice(["/aws", "/aws", "/aws2"]), "needle": cp(s), "id": cp(i), "aws": True, "code": rng.choice(CODES)})
    rng.shuffle(srv)
    sep = [rng.choice([" ", ", ", "> "]) for _ in parts]
    k = rng.randint(0, len(parts)) if rng.random() < .3 else len(parts)
    both = ["> ".join(parts[:k]) + ">", "> ".join(parts[k:]) + ">"]
    ev = [leaf(path("a"), both[0])] + ([leaf(path("b", 0), both[1])] if k < len(parts) else [])
    return {"op": "mval", "rules": rules, "ev": ev, "srv": srv, "default": rng.choice(CODES), "ids": [cp(i) for i in sorted(set(ids))],
            "secrets": [cp(c) for c in cand], "rev": rng.random() < .2}


def from_model(v):
    """The model's matches, found in one string; the answers are given per check."""
    if v["aws"]:
        ids, secs = ["A1", "A2"], ["A" * 40, "B" * 40]
        rules = [regex("A[12]", mv={"t": "aws_id"}), regex("(A{40}|B{40})", mv={"t": "aws_secret", "ep": "/aws", "dead": False}), regex("p")]
        pairs = [(i, s) for i in ids for s in secs]
        srv = [{"path": "/aws", "needle": cp(s), "id": cp(i), "aws": True, "code": c} for (i, s), c in zip(pairs, v["codes"])]
        txt = "A1 " + secs[0] + " p A2 " + secs[1]
    else:
        ids, secs = [], []
        rules = [regex("t", mv={"t": "http", "ep": "/v", "hosts": ["/h1", "/h2", "/h3"], "dead": False, "dflt": False, "method": "GET",
                                "headers": [[cp("x-key"), cp("$MATCH")]], "valid": [[200, 300]], "invalid": [[400, 500]]}), regex("p")]
        srv = [{"path": f"/h{n + 1}/v", "needle": cp("t"), "id": [], "aws": False, "code": c} for n, c in enumerate(v["codes"])]
        txt = "t p"
    return {"op": "mval", "rules": rules, "ev": [leaf(path("a"), txt)], "srv": srv, "default": 599, "ids": [cp(i) for i in ids],
            "secrets": [cp(c) for c in secs + [""]], "rev": False}


def timeouts(rng, n):
    """Answers that come too late."""
    out = []
    while len(out) < n:
        c = case(rng)
        if any(r["mv"]["t"] in ("http", "aws_secret") for r in c["rules"] if "mv" in r):
            for r in c["rules"]:
                if "mv" in r:
                    r["mv"]["timeout"] = 3000
            for e in c["srv"]:
                e["code"] = rng.choice([-9000, 200, 403, -9000])
            c["default"] = -9000
            out.append(c)
    return out


def checked(r):
    return bool(r["out"].get("reqs"))


def run(ctx):
    vec = core.vectors(ctx.model("MC_Mval.tla", "MC_Mval.cfg")) + core.vectors(ctx.model("MC_Mval.tla", "MC_MvalHttp.cfg"))
    ctx.suite("model", "TraceMval.tla", [from_model(v) for v in vec], nontrivial=checked)
    ctx.suite("late answers", "TraceMval.tla", timeouts(ctx.rand("late answers"), ctx.n(8, 80)), nontrivial=checked)
    ctx.suite("random", "TraceMval.tla", [case(ctx.rand("random")) for _ in range(ctx.n(4000, 20000))], nontrivial=checked)
