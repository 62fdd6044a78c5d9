"""C08, C09: sequences of builder calls on the real packets against spec/Builder.tla."""
import copy, json, os, random, subprocess
from lib import *
import codec_check


def calls():
    """TLC explores the state machine and writes one test per transition"""
    h = hashlib.sha256()
    for f in ("MqttWire.tla", "Builder.tla", "GenBuilder.tla", "GenBuilder.cfg"):
        h.update(open(os.path.join(SPEC, f), "rb").read())
    p = os.path.join(OUT, "calls-%s-%s.ndjson" % (TIER, h.hexdigest()[:16]))
    os.makedirs(OUT, exist_ok=True)
    if not os.path.exists(p):
        ok, out, st = tlc("GenBuilder", workers=1)
        if not ok:
            print(out[-3000:])
            raise ToolError("the builder specification breaks its own rules")
        with open(p + ".tmp", "w") as f:
            for l in out.splitlines():
                if l.startswith('"@'):
                    f.write(json.loads(l)[1:] + "\n")
        with open(p + ".stats", "w") as f:
            json.dump(st, f)
        os.rename(p + ".tmp", p)
    return p, json.load(open(p + ".stats"))


def falsified(prop, recs, rng):
    out = []
    for r in rng.sample(recs, min(len(recs), 600)):
        r = copy.deepcopy(r)
        try:
            o, c = r["obs"][-1], r["calls"][-1]
            if o["s"] != "ok" or not o.get("full"):
                continue
            pc = c["op"] in ("prop", "wprop")
            if prop == "C08":
                x = rng.randrange(4)
                if x == 0 and pc:
                    o["ok"] = not o["ok"]
                elif x == 1:
                    o["g"].setdefault("ps", []).append([38, [97, 98, 99]])
                elif x == 2 and o["fl"] > 0:
                    o["fl"] += 1
                else:
                    o["ge"] = False
            else:
                x = rng.randrange(3)
                if x == 0 and not pc:
                    o["ok"] = not o["ok"]
                elif x == 1:
                    o["g"]["keep"] = o["g"].get("keep", 0) + 1
                else:
                    o["g"]["cf"] = o["g"].get("cf", 0) ^ 64
        except (KeyError, TypeError, IndexError):
            continue    # a record of a broken build
        r["canary"] = True
        out.append(r)
        if len(out) >= 40:
            break
    return out


def run(prop):
    exe = build()
    stim, st = calls()
    cov = {"records": 0, "calls": 0, "kinds": {}, "samples": [], "falsified_rejected": 0,
           "model": st}
    rounds = 1 if TIER == "quick" else 12
    for k in range(rounds):
        trace = os.path.join(OUT, "%s-builder.ndjson" % prop)
        cmd = [exe, "builder", "--out", trace, "--seed", str(SEED + 1000003 * k),
               "--random", "2500" if TIER == "quick" else "10000"]
        if k == 0:
            cmd += ["--calls", stim]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0:
            if r.returncode in (2, -9):
                raise ToolError("builder driver: " + r.stdout[-2000:])
            raise Violation(DEATHS[9] if r.returncode == 9 else "a packet made by the builders ended the process when parsed",
                            {"property": prop, "cmd": cmd, "exit": r.returncode, "output": r.stdout[-1000:]})
        s = json.loads(r.stdout.strip().splitlines()[-1])
        with open(trace) as f:
            lines = f.read().splitlines()
        rng = random.Random(SEED + k)
        pick = sorted(rng.sample(range(len(lines)), min(len(lines), 1500)))
        fals = falsified(prop, [json.loads(lines[i]) for i in pick if len(lines[i]) < 20000], rng)
        if not fals:
            raise ToolError("no record to falsify")
        log("recorded %d sequences of calls" % len(lines))
        bad, outs = tlc_split("BuilderTrace", lines + [json.dumps(c) for c in fals], env={"PROP": prop})
        if bad is not None:
            if bad >= len(lines):
                raise ToolError("a falsified record was accepted: " + clip(fals[bad - len(lines)]))
            step = [int(x) for o in outs for x in re.findall(r'<<"BROKEN", \d+, (\d+)', o)]
            rec = json.loads(lines[bad])
            raise Violation("sequence %d is not what the specification says" % bad,
                            {"property": prop, "calls": rec["calls"], "last": rec["obs"][-1], "steps": step,
                             "record": rec, "cmd": cmd})
        cov["records"] += len(lines)
        cov["falsified_rejected"] += len(fals)
        for a, n in s["kinds"].items():
            cov["kinds"][a] = cov["kinds"].get(a, 0) + n
        if not cov["samples"]:
            cov["samples"] = [clip(lines[i]) for i in rng.sample(range(len(lines)), 3)]
        os.remove(trace)
    cov["traces_validated_against_impl"] = cov["records"]
    cov["rule"] = ("one test per transition of the state graph of spec/GenBuilder.tla (shortest path to its source, "
                   "then the call) plus seeded random sequences of up to 16 calls, every step of them compared")
    evidence(prop, "model_checking", cov,
             ["the accessors, the frame length, the bytes and the packet parsed from them are all there is to see"])
