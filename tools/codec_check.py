"""C01-C08, C10: recorded runs of the real parser and serialiser against spec/MqttWire.tla."""
import copy, json, os, random, subprocess
from lib import *

GROUPS = {
    "C01": ("enc,cases,tail,mutate", 130),
    "C02": ("enc,cases,tail,cut,mutate", 120),
    "C03": ("cases,prefix,cut,mutate,random", 100),
    "C04": ("enc,cases,prefix,cut,tail,mutate,random,split", 100),
    "C05": ("cases,cut,mutate,random", 150),
    "C06": ("enc", 500),
    "C07": ("cases,prefix,tail,cut,mutate,random,split", 70),
    "C10": ("topics", 100),
}


def cases():
    """the family of packets and frames that spec/GenCodec.tla describes, written by TLC"""
    h = hashlib.sha256()
    for f in ("MqttWire.tla", "GenCodec.tla", "GenCodec.cfg"):
        h.update(open(os.path.join(SPEC, f), "rb").read())
    p = os.path.join(OUT, "cases-%s-%s.ndjson" % (TIER, h.hexdigest()[:16]))
    os.makedirs(OUT, exist_ok=True)
    if not os.path.exists(p):
        tmp = p + ".%d" % os.getpid()
        ok, out, _ = tlc("GenCodec", env={"OUT": tmp}, workers=1)
        if not ok:
            print(out[-3000:])
            raise ToolError("the wire specification contradicts itself")
        os.rename(tmp, p)
    return p


def falsified(prop, recs, rng):
    """copies of records with one field changed so that the property no longer holds"""
    out = []
    def ok(r):
        return r["k"] == "dec" and r["o"]["s"] == "ok"
    for r in rng.sample(recs, min(len(recs), 400)):
        r = copy.deepcopy(r)
        o = r.get("o")
        try:
            if prop == "C01" and ok(r) and o["p"]["t"] != 10:
                o["p"]["id"] = 1 + o["p"].get("id", -1)
            elif prop == "C01" and r["k"] == "enc":
                r["g"].setdefault("ps", []).append([38, [1]])
            elif prop == "C02" and ok(r):
                o["n"] += 1
            elif prop == "C02" and r["k"] == "enc":
                r["fl"] -= 1
            elif prop == "C03" and r["k"] == "dec" and r["vp"]:
                o["s"] = "bad"
            elif prop == "C03" and ok(r):
                r["o"] = {"s": "more"}
            elif prop == "C04" and r["k"] == "dec":
                if rng.random() < .5:
                    r["o"] = {"s": "panic"}
                else:
                    r["al"] += 1 << 28
            elif prop == "C05" and ok(r):
                if o["p"]["t"] in (12, 13):
                    continue
                o["p"].setdefault("cid", []).append(7)
            elif prop == "C06" and r["k"] == "enc" and len(r["b"]["pre"]) > 2:
                r["b"]["pre"][0] ^= 16
            elif prop == "C07" and r["k"] == "dec":
                r["fr"].append({"s": "bad"})
            elif prop == "C10" and r["k"] == "topic":
                f = rng.choice(["bp", "bs", "bu", "mt", "pp", "ps", "pu"])
                r[f] = "n" if r[f] == "y" else "y"
            else:
                continue
        except (KeyError, TypeError, IndexError):
            continue    # a record of a broken build
        r["canary"] = True
        out.append(r)
        if len(out) >= 40:
            break
    return out


def one_round(prop, exe, seed, scale, groups, cov):
    trace = os.path.join(OUT, "%s-codec.ndjson" % prop)
    cmd = [exe, "codec", "--cases", cases(), "--out", trace, "--seed", str(seed), "--scale", str(scale),
           "--groups", groups]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        raise ToolError("the codec driver did not finish")
    if r.returncode != 0:
        try:
            cur = open(trace + ".cur", "rb").read()
            n = int.from_bytes(cur[:8], "little")
            b = list(cur[8:8 + n])
        except Exception:
            b = []
        what = "parsing did not return" if r.returncode == 9 else "parsing ended the process"
        if r.returncode in (2, -9):
            raise ToolError("codec driver: " + r.stdout[-2000:])
        raise Violation(what, {"property": prop, "what": what, "bytes": b, "exit": r.returncode, "cmd": cmd})
    s = json.loads(r.stdout.strip().splitlines()[-1])
    log("recorded %d parses in %d records" % (s["parses"], s["records"]))
    rng = random.Random(seed)
    with open(trace) as f:
        lines = f.read().splitlines()
    pick = sorted(rng.sample(range(len(lines)), min(len(lines), 3000)))
    fals = falsified(prop, [json.loads(lines[i]) for i in pick if len(lines[i]) < 20000], rng)
    if not fals:
        raise ToolError("no record to falsify")
    bad, outs = tlc_split("CodecTrace", lines + [json.dumps(c) for c in fals], env={"PROP": prop})
    if bad is not None:
        if bad >= len(lines):
            raise ToolError("a falsified record was accepted: " + clip(fals[bad - len(lines)]))
        raise Violation("record %d is not what the specification says" % bad,
                        {"property": prop, "record": json.loads(lines[bad]), "cmd": cmd, "index": bad,
                         "hint": "spec/CodecTrace.tla clauses for %s; b is the input: pre, then n times c" % prop})
    cov["records"] += len(lines)
    cov["parses"] += s["parses"]
    cov["falsified_rejected"] += len(fals)
    cov["relevant"] += total(outs, "BITES")
    for k, n in s["kinds"].items():
        cov["kinds"][k] = cov["kinds"].get(k, 0) + n
    if not cov["samples"]:
        for i in rng.sample(range(len(lines)), 4):
            cov["samples"].append(clip(lines[i]))
    os.remove(trace)


def run(prop):
    exe = build()
    groups, scale = GROUPS[prop]
    cov = {"records": 0, "parses": 0, "relevant": 0, "falsified_rejected": 0, "kinds": {}, "samples": []}
    rounds = 1 if TIER == "quick" else 12
    for k in range(rounds):
        one_round(prop, exe, SEED + 1000003 * k, scale if TIER == "quick" else scale * 3, groups, cov)
    cov["traces_validated_against_impl"] = cov["records"]
    cov["rule"] = ("frames and packets that spec/GenCodec.tla enumerates plus seeded random packets, prefixes, "
                   "concatenations, cuts, mutations and chunkings; relevant = the property says something about it")
    if not cov["relevant"]:
        raise ToolError("the property was not exercised")
    evidence(prop, "model_checking", cov, [
        "the accessors of a packet are the only way a user sees it",
        "range errors in otherwise well-placed values (see DESIGN.md) may be accepted or refused"])
