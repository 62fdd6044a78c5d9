"""B18: when the real server closes connections against spec/Deadlines.tla."""
import copy, json, os, random, subprocess
from lib import *


# keep-alives that nobody will wait for, and that do not fit into something smaller, alone or multiplied
HOURS = "257,8193,21846,32769,43691,65535"


def scenarios(patient=False):
    h = hashlib.sha256()
    for f in ("Deadlines.tla", "GenDeadlines.tla", "GenDeadlines.cfg"):
        h.update(open(os.path.join(SPEC, f), "rb").read())
    p = os.path.join(OUT, "deadlines-%s-%s.ndjson" % ("patient" if patient else TIER, h.hexdigest()[:16]))
    os.makedirs(OUT, exist_ok=True)
    if not os.path.exists(p):
        ok, out, _ = tlc("GenDeadlines", config="GenDeadlines", workers=1, env={"PATIENT": "yes" if patient else "no"},
                         meta="GenDeadlines-%s" % patient)
        if not ok:
            print(out[-3000:])
            raise ToolError("the specification breaks its own rules")
        ls = sorted({json.loads(l)[1:] for l in out.splitlines() if l.startswith('"@')})
        if patient:
            ls = [json.dumps(dict(json.loads(l), tick=250)) for l in ls]
        with open(p + ".tmp", "w") as f:
            f.write("".join(l + "\n" for l in ls))
        os.rename(p + ".tmp", p)
    return p


def stimuli():
    scenarios()
    scenarios(True)


def falsified(lines, rng):
    out = []
    for i in rng.sample(range(len(lines)), min(len(lines), 200)):
        r = json.loads(lines[i])
        if r["closed"] >= 0:
            k = rng.randrange(4)
            if k == 0:
                r["closed"] = r["closed"] // 2
            elif k == 1:
                r["closed"] += 4 * r["keep"] + 8 * r["lag"] + 4000
            elif k == 2:
                r["closed"], r["end"] = -1, r["end"] + 4 * r["keep"] + 8 * r["lag"] + 4000
            else:
                r["listed"] = True
        elif not r["alive"] or rng.random() < .5:
            r["closed"], r["alive"], r["listed"] = r["end"], False, False
        else:
            r["listed"] = False
        r["canary"] = True
        out.append(json.dumps(r))
    return out[:60]


def run(prop):
    exe = build()
    rng = random.Random(SEED)
    cov = {"traces_validated_against_impl": 0, "falsified_rejected": 0, "samples": []}
    # waiting for the beginning of the hours, putting the clock of the broker forward, and waiting for it all
    runs = [(HOURS, "wait"), (HOURS, "jump")] + [(k, "") for k in (
        ["1,2,6"] if TIER == "quick" else ["1,2", "2,3", "1,4", "1,2,3", "5"])]
    if TIER != "quick":
        runs += [(",".join(str(rng.randrange(10, 65536)) for _ in range(24)), "jump") for _ in range(4)]
    for keeps, how in runs:
        p = scenarios(how == "wait")
        t = os.path.join(OUT, "B18.trace")
        cmd = [exe, "timed", "--scripts", p, "--out", t, "--keep", keeps] + (["--jump", "yes"] if how == "jump" else [])
        s = json.loads(drive(prop, cmd, "deadlines"))
        log("played", s)
        with open(t) as fd:
            lines = fd.read().splitlines()
        os.remove(t)
        fals = falsified(lines, rng)
        bad, outs = tlc_split("DeadlinesTrace", lines + fals, config="DeadlinesTrace")
        if bad is not None:
            if bad >= len(lines):
                raise ToolError("a falsified record was accepted: " + clip(fals[bad - len(lines)]))
            raise Violation("a connection was closed, or not, when it should not have been",
                            {"property": prop, "record": json.loads(lines[bad]), "cmd": cmd})
        cov["traces_validated_against_impl"] += len(lines)
        cov["falsified_rejected"] += len(fals)
        cov["lag_ms"] = max(cov.get("lag_ms", 0), s["lag"])
        cov["keep_alive_s"] = cov.get("keep_alive_s", []) + [(keeps + " " + how).strip()]
        if not cov["samples"]:
            cov["samples"] = [clip(lines[i]) for i in rng.sample(range(len(lines)), 3)]
    cov["rule"] = "one scenario per transition of spec/GenDeadlines.tla, in quarters of the keep-alive"
    evidence(prop, "model_checking", cov,
             ["what happens within 0.3 s of a deadline (more on a slow machine) may count as in time or not",
              "closing 1.5 s after the deadline (more on a slow machine) is in time"])
