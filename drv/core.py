"""Shared machinery of the checks: build the executor from /repo, run cases, let TLC judge.

Nothing here decides a property. A case is generated (or comes out of a TLC run over the
specification), the executor runs it against the library built from /repo's working tree, and TLC
evaluates the trace specification in /verif/spec over the recorded result.
"""
import hashlib, json, os, queue, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "target", "work")
EVID = os.path.join(VERIF, "evidence")
NCPU = 8


class Broken(Exception):
    """The machinery itself failed: no verdict (exit 2)."""


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/opt/veriftools/bin:/usr/local/go/bin:" + e.get("PATH", "")
    e.update(
        HOME="/root", RUSTUP_TOOLCHAIN="1.83.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
        CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
        CARGO_TARGET_DIR=os.path.join(VERIF, "target"),
    )
    e.pop("RUSTFLAGS", None)
    # AWS / proxies must never be picked up by the code under test
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"):
        e.pop(k, None)
    return e


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


def build():
    t = time.time()
    for attempt in (1, 2):
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "sds-verif"],
                           cwd=os.path.join(VERIF, "harness"), env=env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            log(f"built the executor from /repo in {time.time() - t:.1f}s")
            return os.path.join(VERIF, "target", "debug", "sds-verif")
        if attempt == 1 and re.search(r"^error(\[|: could not compile)", p.stdout, re.M):
            break
    print(p.stdout[-6000:], file=sys.stderr)
    raise Broken("the executor does not build against /repo")


def build_go():
    """The executor for the Go binding; it loads the C library that build() made."""
    t = time.time()
    e = env()
    deps = os.path.join(VERIF, "target", "debug", "deps")
    if not os.path.exists(os.path.join(deps, "libdd_sds_go.so")):
        raise Broken("the C library of the Go binding was not built")
    e.update(CGO_ENABLED="1", GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOENV="off", GOPROXY="off", GOWORK="off",
             GOCACHE=os.path.join(VERIF, "target", "gocache"), GOPATH=os.path.join(VERIF, "target", "gopath"),
             CGO_LDFLAGS=f"-L{deps} -Wl,-rpath,{deps}")
    out = os.path.join(VERIF, "target", "sds-go-verif")
    p = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(VERIF, "goexec"), env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:], file=sys.stderr)
        raise Broken("the Go executor does not build against /repo")
    log(f"built the Go executor in {time.time() - t:.1f}s")
    return out


# --------------------------------------------------------------------------------- executor

class Exec:
    def __init__(self, binary, mode=""):
        self.p = subprocess.Popen([binary, mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=env(), text=True, bufsize=1,
                                  cwd=WORK)
        self.q = queue.Queue()
        self.err = []
        threading.Thread(target=self._out, daemon=True).start()
        threading.Thread(target=self._err, daemon=True).start()

    def _out(self):
        for line in self.p.stdout:
            self.q.put(line)
        self.q.put(None)

    def _err(self):
        for line in self.p.stderr:
            self.err.append(line)
            del self.err[:-20]

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()


def _run_shard(binary, mode, cases, out, timeout):
    ex = None
    hung = 0
    for i, c in cases:
        if ex is None:
            ex = Exec(binary, mode)
        try:
            ex.p.stdin.write(json.dumps(c) + "\n")
            ex.p.stdin.flush()
            # after a few hangs of a shard, do not spend the whole budget on waiting
            line = ex.q.get(timeout=timeout if hung < 2 else 5)
        except queue.Empty:
            ex.kill()
            ex = None
            hung += 1
            out[i] = {"hang": True}
            continue
        except (BrokenPipeError, OSError):
            line = None
        if line is None:
            ex.p.wait()
            out[i] = {"crash": str(ex.p.returncode)}
            ex = None
            continue
        out[i] = json.loads(line)["out"]
    if ex:
        ex.p.stdin.close()
        ex.kill()


def execute(binary, cases, mode="", shards=NCPU, timeout=40):
    """Run the cases; returns records {id, in, out}. out may be {"panic"}, {"hang"}, {"crash"}."""
    os.makedirs(WORK, exist_ok=True)
    out = [None] * len(cases)
    for i, c in enumerate(cases):
        c["id"] = i
    ts = []
    for s in range(shards):
        part = [(i, cases[i]) for i in range(s, len(cases), shards)]
        if part:
            t = threading.Thread(target=_run_shard, args=(binary, mode, part, out, timeout))
            t.start()
            ts.append(t)
    for t in ts:
        t.join()
    return [{"id": i, "in": c, "out": o} for i, (c, o) in enumerate(zip(cases, out))]


# --------------------------------------------------------------------------------- TLC

MIS = re.compile(r'<<\s*"MISMATCH",\s*(\d+),\s*"([^"]*)"')
STATES = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def _workdir(name):
    d = os.path.join(WORK, f"{name}.{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def tlc(module, cfg, workdir, extra_env=None, workers=1, heap="2g", opts=(), timeout=1500):
    e = env()
    e.update(extra_env or {})
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
           f"-DTLA-Library={SPEC}", "tlc2.TLC", "-workers", str(workers), "-metadir", workdir,
           "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg), *opts, os.path.join(SPEC, module)]
    try:
        return subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise Broken(f"TLC ran out of time on {module}: {(x.stdout or b'')[-500:]}")


def judge(module, records, shards=NCPU, cfg="Trace.cfg", timeout=1500):
    """TLC consumes the records with the trace specification `module`; returns (mismatches, states)
    where mismatches is a list of (record, reason)."""
    if not records:
        return [], 0, 0
    d = _workdir(module.replace(".tla", ""))
    res = [None] * shards
    by_id = {r["id"]: r for r in records}

    def one(s):
        part = records[s::shards]
        if not part:
            return
        f = os.path.join(d, f"cases{s}.ndjson")
        with open(f, "w") as h:
            for r in part:
                h.write(json.dumps(r) + "\n")
        try:
            res[s] = (len(part), tlc(module, cfg, os.path.join(d, f"m{s}"), {"CASES": f}, timeout=timeout))
        except Broken as b:
            res[s] = (len(part), b)

    ts = [threading.Thread(target=one, args=(s,)) for s in range(shards)]
    for s in range(shards):
        os.makedirs(os.path.join(d, f"m{s}"))
    [t.start() for t in ts]
    [t.join() for t in ts]
    bad, states, trans = [], 0, 0
    for s in range(shards):
        if res[s] is None:
            continue
        n, p = res[s]
        if isinstance(p, Broken):
            raise p
        m = STATES.search(p.stdout)
        if p.returncode != 0 or "No error has been found" not in p.stdout or not m:
            print(p.stdout[-5000:], file=sys.stderr)
            raise Broken(f"TLC failed on {module} shard {s} (files in {d})")
        states += int(m.group(2))
        trans += max(0, int(m.group(1)) - 1)
        done = re.findall(r'"CONSUMED", (\d+)', p.stdout)
        if not done or int(done[-1]) != n:
            print(p.stdout[-3000:], file=sys.stderr)
            raise Broken(f"TLC consumed {done} of {n} records of {module} shard {s}")
        for i, why in MIS.findall(p.stdout):
            bad.append((by_id[int(i)], why))
    shutil.rmtree(d, ignore_errors=True)
    seen, uniq = set(), []
    for r, why in bad:
        if r["id"] not in seen:
            seen.add(r["id"])
            uniq.append((r, why))
    return uniq, states, trans


def model_check(module, cfg, workers=NCPU, heap="8g", extra_env=None, timeout=1500, opts=()):
    """Exhaustive TLC run of a small model of the specification; returns (states, transitions, stdout).
    A failure means the specification is wrong, not the code: exit 2."""
    d = _workdir(cfg)
    p = tlc(module, cfg, d, extra_env, workers=workers, heap=heap, timeout=timeout, opts=opts)
    m = STATES.search(p.stdout)
    if p.returncode != 0 or "No error has been found" not in p.stdout or not m:
        print(p.stdout[-6000:], file=sys.stderr)
        raise Broken(f"TLC rejects the model {module} / {cfg}")
    shutil.rmtree(d, ignore_errors=True)
    return int(m.group(2)), max(0, int(m.group(1)) - 1), p.stdout


def vectors(stdout):
    """JSON documents printed by a model as <<"VEC", "...">>."""
    lines = dict.fromkeys(l for l in stdout.splitlines() if l.startswith('<<"VEC", "'))
    return [json.loads(json.loads(line[len('<<"VEC", '):-2])) for line in sorted(lines)]


# --------------------------------------------------------------------------------- helpers

def cp(s):
    return [ord(c) for c in s]


def uncp(a):
    return "".join(chr(c) for c in a)


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]
