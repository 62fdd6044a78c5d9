"""T01-T04: histories of the real topics table against spec/Topics.tla."""
import copy, json, os, random, subprocess
from lib import *


def generated(module, name, printing):
    """the stimuli that TLC writes; cached under the hash of the specification"""
    h = hashlib.sha256()
    for f in ("Topics.tla", module + ".tla", module + ".cfg"):
        h.update(open(os.path.join(SPEC, f), "rb").read())
    p = os.path.join(OUT, "%s-%s-%s" % (name, TIER, h.hexdigest()[:16]))
    os.makedirs(OUT, exist_ok=True)
    if not os.path.exists(p + ".stats"):
        ok, out, st = tlc(module, workers=1, env={"OUT": p + ".file"}, heap="6g")
        if not ok:
            print(out[-3000:])
            raise ToolError("the topics specification breaks its own rules")
        with open(p + ".lines", "w") as f:
            for l in out.splitlines():
                if l.startswith('"@'):
                    f.write(json.loads(l)[1:] + "\n")
        with open(p + ".tmp", "w") as f:
            json.dump(st, f)
        os.rename(p + ".tmp", p + ".stats")
    return p, json.load(open(p + ".stats"))


def stimuli():
    generated("GenTopics", "topics", True)
    generated("GenTopicsConc", "tconc", False)


def falsified(prop, lines, rng):
    out = []
    for i in rng.sample(range(len(lines)), min(len(lines), 3000)):
        r = json.loads(lines[i])
        try:
            if prop == "T04":
                if r["end"] != "ok":
                    continue
                x = rng.randrange(5)
                if x == 0:
                    r["end"] = "deadlock"
                elif x == 1:
                    rng.choice(r["fin"])["r"].append([7, [0, 0]])
                elif x == 2:
                    # a subscription that nobody touched
                    busy = {o["c"][1] for o in r["ops"] if o["c"][0] != "look"}
                    f = rng.choice([f for f in r["fin"] if f["r"] and f["r"][-1][0] not in busy])
                    f["r"].pop()
                elif x == 3:
                    rng.choice(r["swept"])["r"].append([1, [0, 0]])
                else:
                    o = rng.choice([o for o in r["ops"] if o["c"][0] == "look"])
                    # more than anyone asked for
                    o["r"] = [[1, [2, 2]], [1, [1, 1]]]
            else:
                st = r["steps"]
                at = [k for k, s in enumerate(st) if s[0] == "look" and s[2]]
                if not at or len(st) > 300:
                    continue
                k = rng.choice(at)
                r["steps"] = st = st[:k + 1]
                a = st[k][2]
                x = rng.randrange(3)
                if prop == "T01":
                    if x == 0:
                        a.pop(rng.randrange(len(a)))
                    elif x == 1:
                        a.append([77, [0, 0]])
                    else:
                        a.append(a[0])
                elif prop == "T02":
                    if x == 0:
                        a.pop(rng.randrange(len(a)))
                    elif x == 1:
                        st[k] = ["died", "panic"]
                    else:
                        a.append([77, [0, 0]])
                else:
                    if x == 0:
                        a.append(copy.deepcopy(a[0]))
                    elif x == 1:
                        y = rng.randrange(len(a))
                        a[y][1][0] = (a[y][1][0] + 1) % 3
                    else:
                        y = rng.randrange(len(a))
                        a[y][1][1] ^= 1
        except (KeyError, TypeError, IndexError):
            continue
        r["canary"] = True
        out.append(r)
        if len(out) >= 40:
            break
    return out


def run(prop):
    exe = build()
    quick = TIER == "quick"
    cov = {"histories": 0, "falsified_rejected": 0, "exercising": 0, "samples": []}
    rounds = 1 if quick else 8
    for k in range(rounds):
        trace = os.path.join(OUT, "%s-topics.ndjson" % prop)
        seed = SEED + 1000003 * k
        if prop == "T04":
            p, st = generated("GenTopicsConc", "tconc", False)
            cmd = [exe, "topics-conc", "--out", trace, "--seed", str(seed), "--stress", "400" if quick else "4000"]
            if quick:
                cmd += ["--scen", p + ".file", "--max", "700", "--random", "30"]
            elif k == 0:
                cmd += ["--scen", p + ".file", "--max", "4000", "--random", "1000"]
            else:
                cmd += ["--scen", p + ".file", "--max", "1", "--random", "2000"]
        else:
            p, st = generated("GenTopics", "topics", True)
            cmd = [exe, "topics-seq", "--out", trace, "--seed", str(seed), "--random", "4000" if quick else "30000"]
            if k == 0:
                cmd += ["--calls", p + ".lines", "--match", p + ".file"]
        s = json.loads(drive(prop, cmd, "topics"))
        with open(trace) as f:
            lines = f.read().splitlines()
        rng = random.Random(seed)
        fals = falsified(prop, lines, rng)
        if not fals:
            log("no record to falsify")
        log("recorded", s)
        bad, outs = tlc_split("TopicsConc" if prop == "T04" else "TopicsTrace", lines + [json.dumps(c) for c in fals],
                              env={"PROP": prop})
        if bad is not None:
            if bad >= len(lines):
                raise ToolError("a falsified record was accepted: " + clip(fals[bad - len(lines)]))
            step = [int(x) for o in outs for x in re.findall(r'<<"BROKEN", \d+, (\d+)', o)]
            rec = json.loads(lines[bad])
            raise Violation("history %d is not what the specification says" % bad,
                            {"property": prop, "steps": step, "record": rec, "cmd": cmd})
        if not fals:
            raise ToolError("no record to falsify")
        cov["histories"] += len(lines)
        cov["exercising"] += total(outs, "BITES")
        cov["falsified_rejected"] += len(fals)
        cov["driver"] = s
        if not cov["samples"]:
            cov["samples"] = [clip(lines[i]) for i in rng.sample(range(len(lines)), 3)]
        os.remove(trace)
    cov["traces_validated_against_impl"] = cov["histories"]
    cov["model"] = st
    cov["rule"] = ("every scenario of spec/GenTopicsConc.tla under systematically enumerated and random schedules, "
                   "one lock at a time, and seeded runs on several threads" if prop == "T04" else
                   "one test per transition of spec/GenTopics.tla, all bounded filters against all bounded topics, "
                   "and seeded random histories")
    evidence(prop, "model_checking", cov,
             ["the schedules are those at lock granularity of one thread, plus what several threads happen to do"]
             if prop == "T04" else ["lookups are all there is to see of the table"])
