"""C16: histories of handles of the C interface."""
import core
from core import cp
from sgen import *
from props import c15

LEVEL = "model_checking"

PLACE = {
    "A": [lambda: regex("\\d", {"t": "redact", "r": cp("#")}), lambda: regex("[0-9]+", {"t": "first", "n": 1}), lambda: regex("1|2")],
    "B": [lambda: regex("[a-c]+", {"t": "redact", "r": cp("<>")}), lambda: regex("é1?", {"t": "last", "n": 2}), lambda: regex("[a-z]1", {"t": "redact", "r": []})],
    "broken": [lambda: regex("a*"), lambda: regex("(b"), lambda: regex("a", {"t": "first", "n": 0}), lambda: regex("a", kw=kw(2, ["abc"])),
               lambda: regex("a", kw=kw(0, ["a"])), lambda: regex("a{5000000}"), lambda: regex("a", kw=kw(9, ["", "b"]))],
}
EV = [[("f", "abc12é1")], [("f", "é12"), ("g", "b1")], [("g", "xyz")]]


def bad_doc(rng):
    d = d_rule(rng, PLACE["A"][0]())
    k = rng.randrange(4)
    if k == 0:
        d["m"] = [e for e in d["m"] if e["k"] != cp("pattern")]
    elif k == 1:
        d["m"] = [e for e in d["m"] if e["k"] != cp("match_action")]
    elif k == 2:
        return rng.choice([d_str("x"), d_list([]), d_num(1), {"t": "z"}])
    else:
        for e in d["m"]:
            if e["k"] == cp("match_action"):
                e["v"] = rng.choice([d_str("None"), d_map(("type", d_str("Nothing"))), {"t": "z"}])
    return d


def ev_bytes(rng):
    return wire(d_map(*[(k, d_str(v)) for k, v in rng.choice(EV)]))


def from_model(h, rng):
    steps, live = [], []
    pick = {d: rng.choice(PLACE[d]) for d in PLACE}
    for s in h:
        s = dict(s)
        if s["do"] == "rule":
            s["doc"] = bad_doc(rng) if s["doc"] == "bad" else d_rule(rng, pick[s["doc"]]())
        if s["do"] == "scanner":
            s["kwpath"] = False
            if s["h"] < 90:
                live.append(s["h"])
        steps.append(s)
        if s["do"] == "delete":
            live.remove(s["h"])
        steps += [{"do": "scan", "h": x, "bytes": ev_bytes(rng)} for x in live]
    return {"op": "ffi", "steps": steps}


def long_history(rng, n):
    """A client with many handles at once."""
    steps, rules, lists, scanners, nxt = [], [], [], [], [0]

    def new():
        nxt[0] += 1
        return nxt[0]
    size = {}
    for _ in range(n):
        k = rng.random()
        if k < .2:
            h = new()
            steps.append({"do": "rule", "h": h, "doc": d_rule(rng, rng.choice(PLACE[rng.choice("AB")])())})
            rules.append(h)
        elif k < .24:
            steps.append({"do": "rule", "h": 900, "doc": bad_doc(rng)})
        elif k < .32:
            h = new()
            steps.append({"do": "list", "h": h})
            lists.append(h)
            size[h] = 0
        elif k < .5 and rules and lists:
            t = rng.choice(lists)
            if size[t] < 4:
                size[t] += 1
                steps.append({"do": "append", "rule": rng.choice(rules), "list": t})
        elif k < .62 and lists:
            h = new()
            steps.append({"do": "scanner", "h": h, "list": rng.choice(lists), "kwpath": False})
            scanners.append(h)
        elif k < .8 and scanners:
            steps.append({"do": "scan", "h": rng.choice(scanners), "bytes": c15.damage(rng, ev_bytes(rng)) if rng.random() < .1 else ev_bytes(rng)})
        elif k < .87 and rules:
            steps.append({"do": "free_rule", "h": rules.pop(rng.randrange(len(rules)))})
        elif k < .93 and lists:
            steps.append({"do": "free_list", "h": lists.pop(rng.randrange(len(lists)))})
        elif scanners:
            steps.append({"do": "delete", "h": scanners.pop(rng.randrange(len(scanners)))})
    rest = [("free_rule", h) for h in rules] + [("free_list", h) for h in lists] + [("delete", h) for h in scanners]
    rng.shuffle(rest)
    for d, h in rest:
        steps += [{"do": "scan", "h": x, "bytes": ev_bytes(rng)} for x in scanners[:2]]
        steps.append({"do": d, "h": h})
        if h in scanners:
            scanners.remove(h)
    return {"op": "ffi", "steps": steps}


def answered(r):
    return any(o.get("resp") for o in r["out"].get("outs", []))


REPS, SLACK = 200, 4000


def run(ctx):
    hs = core.vectors(ctx.model("MC_Ffi.tla", "MC_Ffi.cfg"))
    h2 = core.vectors(ctx.model("MC_Ffi.tla", "MC_Ffi2.cfg"))
    if ctx.thorough:
        ctx.model("MC_Ffi.tla", "MC_FfiBig.cfg")
    if not ctx.thorough:
        hs, h2 = ctx.rng.sample(hs, 3000), ctx.rng.sample(h2, 3000)
    ctx.suite("every history", "TraceFfi.tla", [from_model(h, ctx.rand("every history")) for h in hs + h2], nontrivial=answered)
    ctx.suite("many handles", "TraceFfi.tla", [long_history(ctx.rand("many handles"), ctx.rand("many handles").choice([20, 40, 80])) for _ in range(ctx.n(300, 4000))],
              nontrivial=answered)
    # the same history again and again does not take more and more memory
    cs = [from_model(h, ctx.rng) for h in ctx.rng.sample(hs + h2, ctx.n(120, 600))] + [long_history(ctx.rng, 30) for _ in range(ctx.n(40, 300))]
    for c in cs:
        c.update(reps=REPS, slack=SLACK)
    ctx.suite("memory", "TraceFfi.tla", cs, nontrivial=answered)
