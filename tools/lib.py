"""Shared by all checks: building the harness from /repo, running TLC, reporting."""
import fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "replay")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CP = ":".join("/opt/veriftools/tla/" + j for j in ("tla2tools.jar", "CommunityModules-deps.jar"))
T0 = time.time()


class ToolError(Exception):
    """something of ours went wrong: neither a pass nor a violation"""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def source_hash():
    h = hashlib.sha256()
    for base in ("packet", "server-lib"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fd:
                    h.update(fd.read() + b"\0")
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            with open(p, "rb") as fd:
                h.update(fd.read())
    for d, ds, fs in os.walk(os.path.join(VERIF, "harness", "src")):
        for f in sorted(fs):
            with open(os.path.join(d, f), "rb") as fd:
                h.update(f.encode() + fd.read() + b"\0")
    return h.hexdigest()


def build():
    """The harness, from /repo's current tree, with the hooks on. Returns its path."""
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ, RUSTFLAGS="--cfg apiformes_verif", CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("CARGO_BUILD_TARGET", None)
    exe = os.path.join(TARGET, "debug", "apiformes-verif-harness")
    cwd = os.path.join(VERIF, "harness")
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = source_hash()
        stamp = os.path.join(TARGET, ".srchash")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have == want and os.path.exists(exe):
            return exe
        if have:
            # do not trust time stamps
            subprocess.run(["cargo", "clean", "--offline", "-p", "apiformes-packet", "-p", "apiformes-server-lib",
                            "-p", "apiformes-verif-harness"], cwd=cwd, env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=cwd, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            raise ToolError("the harness does not build")
        with open(stamp, "w") as f:
            f.write(want)
    log("harness built")
    return exe


# what the code under test did to the driver's process, as opposed to trouble of the driver itself
DEATHS = {-6: "it ended the process (abort)", -11: "it ended the process (segmentation fault)", -7: "it ended the process (bus error)",
          -4: "it ended the process (illegal instruction)", 9: "nothing happens any more"}


def drive(prop, cmd, what, timeout=800):
    """Run a driver; returns its last line of output."""
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode in DEATHS:
        raise Violation(DEATHS[r.returncode], {"property": prop, "cmd": cmd, "exit": r.returncode, "output": r.stdout[-1000:]})
    if r.returncode != 0:
        raise ToolError("%s driver: %s" % (what, r.stdout[-2000:]))
    return r.stdout.strip().splitlines()[-1]


TLC_RUNS = []


def tlc(module, config=None, env=None, workers=8, args=(), timeout=840, heap="8g", quiet=False,
        meta=None):
    """Run TLC; returns (ok, output, stats). ok is False iff a property is violated."""
    meta = os.path.join(OUT, "tlc-%s-%d" % (meta or config or module, os.getpid()))
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+Use%sGC" % ("Serial" if workers == 1 else "Parallel"), "-cp", CP, "tlc2.TLC", "-noTE",
           "-workers", str(workers), "-metadir", meta]
    if config:
        cmd += ["-config", config + ".cfg"]
    cmd += list(args) + [module]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({"TIER": TIER})
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s did not finish in %d s" % (module, timeout))
    finally:
        subprocess.run(["rm", "-rf", meta])
    out = r.stdout
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    st = [int(x.replace(",", "")) for x in m[-1]] if m else [0, 0]
    d = re.findall(r"depth of the complete state graph search is (\d+)", out)
    stats = {"module": config or module, "generated": st[0], "distinct": st[1], "depth": int(d[-1]) if d else 0,
             "s": round(time.time() - t, 1)}
    TLC_RUNS.append(stats)
    if r.returncode == 0:
        quiet or log("TLC %s: %d states (%d distinct) in %.1f s" % (config or module, st[0], st[1], stats["s"]))
        return True, out, stats
    if r.returncode in (10, 11, 12, 13) or ("is violated" in out and r.returncode not in (150, 151)):
        log("TLC %s: rejected (%d)" % (config or module, r.returncode))
        return False, out, stats
    print(out[-6000:])
    raise ToolError("TLC on %s failed with code %d" % (module, r.returncode))


def tlc_split(module, lines, env=None, parts=8, timeout=840, heap="3g", config=None):
    """Validate the lines of a trace in several TLC processes at once (a TLC worker would load its own copy of the
    trace anyway). Returns (number of the first broken line found or None, outputs)."""
    from concurrent.futures import ThreadPoolExecutor
    parts = max(1, min(parts, len(lines)))

    def one(k):
        f = os.path.join(OUT, "part-%s-%d-%d.ndjson" % (module, os.getpid(), k))
        with open(f, "w") as fd:
            for l in lines[k::parts]:
                fd.write(l + "\n")
        try:
            return tlc(module, config=config, env=dict(env or {}, TRACE=f), workers=1, timeout=timeout, heap=heap,
                       meta="%s-%d" % (module, k), quiet=True)
        finally:
            os.remove(f)
    t = time.time()
    with ThreadPoolExecutor(parts) as ex:
        rs = list(ex.map(one, range(parts)))
    log("TLC %s: %d records, %d states in %.1f s" % (module, len(lines), sum(r[2]["distinct"] for r in rs),
                                                       time.time() - t))
    bad = []
    for k, (ok, out, _) in enumerate(rs):
        if not ok:
            m = re.search(r'<<"BROKEN", (\d+)', out)
            if not m:
                print(out[-3000:])
                raise ToolError("TLC on %s failed" % module)
            bad.append((int(m.group(1)) - 1) * parts + k)
    return (min(bad) if bad else None), [r[1] for r in rs]


def printed(out, tag):
    """the tuples <<"tag", ...>> that TLC printed"""
    return re.findall(r'^<<"%s", (.*)>>$' % tag, out, re.M)


def total(out, tag):
    """the sum over all workers of a counter that the POSTCONDITION printed"""
    return sum(int(n) for o in ([out] if isinstance(out, str) else out) for x in printed(o, tag)[-1:]
               for n in re.findall(r"\d+", x))


def known_findings(prop):
    """key -> text of the recorded findings of this property"""
    known = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def replay_file(prop, obj):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, "%s-%d.json" % (prop, SEED))
    with open(p, "w") as f:
        json.dump(obj, f, indent=1)
    return p


def clip(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def evidence(prop, level, coverage, assumptions, violations=0):
    os.makedirs(EVIDENCE, exist_ok=True)
    coverage.setdefault("states", sum(r["distinct"] for r in TLC_RUNS))
    coverage.setdefault("transitions", sum(r["generated"] for r in TLC_RUNS))
    coverage.setdefault("tlc_runs", TLC_RUNS)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(time.time() - T0, 2),
                   "violations": violations}, f, indent=1)
