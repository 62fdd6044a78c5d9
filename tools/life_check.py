"""B20: servers that are started and shut down, several in one process, against spec/Lifecycle.tla."""
import copy, json, os, random
from lib import *

RUNTIMES = [(8, 64, 0), (8, 64, 100), (1, 8, 0)]


def scripts():
    h = hashlib.sha256()
    for f in ("Lifecycle.tla", "GenLifecycle.tla", "GenLifecycle.cfg"):
        h.update(open(os.path.join(SPEC, f), "rb").read())
    p = os.path.join(OUT, "life-%s-%s.ndjson" % (TIER, h.hexdigest()[:16]))
    os.makedirs(OUT, exist_ok=True)
    if not os.path.exists(p):
        # one worker: the paths are the shortest, and the same every time
        ok, out, _ = tlc("GenLifecycle", config="GenLifecycle", workers=1, heap="10g")
        if not ok:
            print(out[-3000:])
            raise ToolError("the specification breaks its own rules")
        with open(p + ".tmp", "w") as f:
            for l in out.splitlines():
                if l.startswith('"@'):
                    f.write(json.loads(l)[1:] + "\n")
        os.rename(p + ".tmp", p)
    with open(p) as f:
        return f.read().splitlines()


def falsified(lines, rng):
    out = []
    for i in rng.sample(range(len(lines)), min(len(lines), 200)):
        r = json.loads(lines[i])
        o = rng.choice(r["ops"])
        k = rng.randrange(5)
        if k == 0:
            o["res"] = "no" if o["res"] == "ok" else "ok"
        elif k == 1:
            a = rng.randrange(1, 4)
            o["free"] = [x for x in o["free"] if x != a] if a in o["free"] else o["free"] + [a]
        elif k == 2 and o["open"]:
            o["open"].pop()
        elif k == 3:
            rng.choice(o["lists"]).append("nobody")
        elif k == 4 and r["heard"]:
            x = rng.choice(r["heard"])
            x.append(rng.randrange(1, 4)) if not x or rng.random() < .5 else x.pop()
        else:
            continue
        r["canary"] = True
        out.append(json.dumps(r))
    return out[:60]


def run(prop):
    exe = build()
    rng = random.Random(SEED)
    cov = {"traces_validated_against_impl": 0, "falsified_rejected": 0, "telling": 0, "calls": 0, "samples": []}
    ls = scripts()
    cov["transitions_of_the_model"] = len(ls)
    short = [l for l in ls if l.count('"call"') <= 3]
    ls = rng.sample(short, min(len(short), 400 if TIER == "quick" else 1500)) + rng.sample(ls, min(len(ls), 6000 if TIER == "quick" else 60000))
    for k, (threads, jobs, delays) in enumerate(RUNTIMES):
        part = ls[k::len(RUNTIMES)]
        f = os.path.join(OUT, "B20-life.ndjson")
        with open(f, "w") as fd:
            fd.write("".join(l + "\n" for l in part))
        cmd = [exe, "life", "--scripts", f, "--out", f + ".trace", "--threads", str(threads), "--jobs", str(jobs), "--delays",
               str(delays), "--seed", str(SEED)]
        log("played", json.loads(drive(prop, cmd, "life")))
        with open(f + ".trace") as fd:
            lines = fd.read().splitlines()
        os.remove(f)
        os.remove(f + ".trace")
        fals = falsified(lines, rng)
        bad, outs = tlc_split("LifecycleTrace", lines + fals, config="LifecycleTrace", parts=4)
        if bad is not None:
            if bad >= len(lines):
                raise ToolError("a falsified record was accepted: " + clip(fals[bad - len(lines)], 3000))
            raise Violation("the servers did not do what they should", {"property": prop, "record": json.loads(lines[bad]), "cmd": cmd})
        if len(fals) < 10:
            raise ToolError("too few records to falsify")
        cov["traces_validated_against_impl"] += len(lines)
        cov["falsified_rejected"] += len(fals)
        cov["telling"] += total(outs, "BITES")
        cov["calls"] += sum(len(json.loads(l)["ops"]) for l in lines)
        if not cov["samples"]:
            cov["samples"] = [clip(lines[i]) for i in rng.sample(range(len(lines)), 3)]
    cov["rule"] = ("a sample of the scripts of spec/GenLifecycle.tla, one per transition (all short ones in reach first); telling: "
                   "more than one start, or something that has to fail")
    evidence(prop, "model_checking", cov, ["an address is free if the driver itself can listen there"])
