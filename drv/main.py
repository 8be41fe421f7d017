import importlib, json, os, random, sys, time, traceback
import core


class Ctx:
    def __init__(self, prop, tier, seed, binary):
        self.prop, self.tier, self.seed, self.binary = prop, tier, seed, binary
        self.rng = random.Random(f"{prop}/{seed}")
        self.rands = {}
        self.states = self.trans = self.traces = self.evals = 0
        self.mc = []
        self.bad = []           # (suite, record, why)
        self.samples = []
        self.suites = {}
        self.nontrivial = set()
        self.assumptions = []

    def rand(self, suite):
        """Random numbers of one suite: adding a suite does not change the cases of the others."""
        return self.rands.setdefault(suite, random.Random(f"{self.prop}/{self.seed}/{suite}"))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, cfg, **kw):
        t = time.time()
        s, tr, out = core.model_check(module, cfg, **kw)
        self.states += s
        self.trans += tr
        self.mc.append({"model": cfg, "states": s, "transitions": tr})
        core.log(f"{cfg}: {s} states, {time.time() - t:.1f}s")
        return out

    def suite(self, name, module, cases, mode="", nontrivial=None, timeout=40, shards=core.NCPU, cfg="Trace.cfg", binary=None, post=None):
        """Execute the cases, judge the records with the trace specification."""
        t0 = time.time()
        recs = core.execute(binary or self.binary, cases, mode=mode, timeout=timeout, shards=shards)
        if post:
            post(recs)
        t1 = time.time()
        bad, st, tr = core.judge(module, recs, shards=core.NCPU, cfg=cfg)
        core.log(f"suite {name}: {len(cases)} cases, run {t1 - t0:.1f}s, judged {time.time() - t1:.1f}s, "
                 f"{len(bad)} mismatches")
        self.account(name, recs, st, tr, nontrivial)
        for r, why in bad:
            self.bad.append((name, module, mode, r, why))
        return recs

    def account(self, name, recs, st, tr, nontrivial):
        self.states += st
        self.trans += tr
        self.traces += len(recs)
        nt = sum(1 for r in recs if nontrivial is None or nontrivial(r))
        self.suites[name] = {"traces": len(recs), "nontrivial": nt, "states": st}
        if recs:
            for r in (recs[0], recs[len(recs) // 2]):
                s = json.dumps(r)
                if len(s) < 3000:
                    self.samples.append({"suite": name, **r})

    def violation(self, name, rec, why):
        self.bad.append((name, None, "", rec, why))


def load_known():
    f = os.path.join(core.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for line in open(f):
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def strip(case):
    return {k: v for k, v in case.items() if k != "id"}


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        mod = importlib.import_module("props." + prop.lower())
        binary = core.build()
        ctx = Ctx(prop, tier, seed, binary)
        if "--replay" in argv:
            return replay(ctx, argv[argv.index("--replay") + 1])
        mod.run(ctx)
    except core.Broken as b:
        print(f"CHECK-ERROR property={prop} {b}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"CHECK-ERROR property={prop} internal error")
        return 2
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    fresh, seen = [], []
    for b in ctx.bad:
        d = core.digest(strip(b[3]["in"]))
        k = next((k for k in known if k["input"] == d and k["why"] == b[4]), None)
        (seen.append(k) if k else fresh.append(b))
    for k in seen:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    os.makedirs(core.EVID, exist_ok=True)
    rc = 0
    if fresh:
        rc = 1
        rd = os.path.join(core.EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        fresh.sort(key=lambda b: len(json.dumps(b[3])))
        for n, (suite, module, mode, rec, why) in enumerate(fresh[:int(os.environ.get("VERIF_MAX", "5"))]):
            f = os.path.join(rd, f"{prop}-{n + 1}.json")
            with open(f, "w") as h:
                json.dump({"property": prop, "suite": suite, "module": module, "mode": mode, "why": why,
                           "digest": core.digest(strip(rec["in"])), "record": rec}, h)
            print(f"[{suite}] {why}: {json.dumps(rec)[:int(os.environ.get("VERIF_SHOW", "700"))]}")
            print(f"VIOLATION property={prop} replay={f}")
        print(f"{len(fresh)} mismatches in all")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "states": ctx.states, "transitions": ctx.trans,
            "traces_validated_against_impl": ctx.traces,
            "suites": ctx.suites, "models": ctx.mc, "samples": ctx.samples[:12],
            **getattr(ctx, "extra", {}),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(fresh),
    }
    with open(os.path.join(core.EVID, f"{prop}.json"), "w") as h:
        json.dump(ev, h, indent=1)
    print(f"{prop}: {'VIOLATED' if rc else 'held'} — {ctx.traces} traces of the code judged, "
          f"{ctx.states} states, {time.time() - t0:.0f}s")
    return rc


def replay(ctx, f):
    j = json.load(open(f))
    if j["record"]["in"].get("op") == "go":
        ctx.binary = core.build_go()
    recs = core.execute(ctx.binary, [strip(j["record"]["in"])], mode=j.get("mode", ""), shards=1)
    if "hash" in j["record"]["out"]:
        recs[0]["out"].setdefault("hash", j["record"]["out"]["hash"])
    print(json.dumps(recs[0]))
    bad, _, _ = core.judge(j["module"], recs, shards=1)
    for _, why in bad:
        print(why)
        print(f"VIOLATION property={ctx.prop} replay={f}")
    return 1 if bad else 0
