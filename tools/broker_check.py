"""B01-B17, B19, N01, N02: scripts that TLC writes from the specification of the broker are played against the real
server, and TLC validates what was recorded (spec/BrokerTrace.tla)."""
import copy, json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import *
import codec_check, impl_check

FILES = ("Topics.tla", "Broker.tla", "BrokerScripts.tla", "MqttWire.tla")
# which scripts decide which property: source -> how many of them, quick and thorough (0: all)
PLAN = {
    "B01": {"deliver": (1500, 0), "calm": (150, 1500), "mix": (150, 1500), "storm": (100, 1000), "topics": (60, 1000), "stall": (40, 320), "crowd": (16, 160), "churn": (6, 80), "usurp": (60, 500)},
    "B02": {"contents": (200, 2000), "calm": (150, 1500), "cuts": (50, 400), "crowd": (12, 160)},
    "B03": {"order": (100, 800), "suback": (60, 1500), "queue": (60, 400), "calm": (100, 1500), "mix": (100, 1500), "deliver": (300, 0), "stall": (32, 320), "crowd": (16, 160)},
    "B04": {"deliver": (2500, 0), "topics": (150, 1000), "calm": (150, 1500), "mix": (100, 1500), "crowd": (16, 160)},
    "B05": {"perm": (0, 0), "calm": (150, 1500), "mix": (100, 1500), "crowd": (8, 160), "storm": (60, 600)},
    "B06": {"first": (0, 0), "session": (1200, 0), "wire": (150, 0), "storm": (50, 500)},
    "B07": {"connack": (150, 1500), "first": (0, 0), "session": (1200, 0), "churn": (6, 80)},
    "B08": {"suback": (150, 1500), "topics": (80, 1000), "deliver": (1500, 0), "mix": (100, 1500), "crowd": (12, 160), "usurp": (60, 500)},
    "B09": {"refuse": (0, 0), "values": (0, 0), "wire": (200, 0), "storm": (150, 1500), "misbehave": (0, 0), "usurp": (60, 600)},
    "B10": {"misbehave": (0, 0), "values": (200, 0), "topics": (60, 1000), "wire": (200, 0), "storm": (150, 1500), "packets": (80, 0), "session": (400, 0), "stall": (40, 320), "crowd": (8, 160), "churn": (6, 80)},
    "B11": {"session": (2500, 0), "storm": (150, 1500), "misbehave": (0, 0), "race": (60, 500), "stall": (24, 160), "crowd": (12, 160), "churn": (8, 80), "usurp": (50, 500)},
    "B12": {"session": (2500, 0), "race": (150, 1500), "storm": (150, 1500), "stall": (40, 320), "crowd": (16, 160), "churn": (6, 80), "usurp": (150, 1500)},
    "B13": {"session": (2500, 0), "storm": (150, 1500), "race": (60, 500), "crowd": (16, 160), "churn": (6, 80), "usurp": (100, 1500)},
    "B14": {"size": (0, 0), "sizes": (0, 0), "calm": (50, 500)},
    "B15": {"size": (0, 0), "sizes": (0, 0), "calm": (100, 1500)},
    "B16": {"cuts": (150, 1500), "size": (150, 0), "calm": (100, 1500), "packets": (0, 0), "sizes": (100, 0), "crowd": (8, 160)},
    "B17": {"shutdown": (600, 6000), "storm": (152, 1000), "session": (1500, 0), "misbehave": (0, 0), "first": (0, 0), "mix": (152, 1500), "crowd": (12, 160)},
    "B19": {"queue": (150, 1000), "order": (60, 600), "calm": (100, 1000), "mix": (100, 1000), "stall": (24, 320), "crowd": (16, 160)},
    "N01": {"noise": (0, 0), "mix": (50, 500)},
    "N02": {"packets": (0, 0), "cuts": (100, 1000), "wire": (150, 0), "sizes": (60, 0)},
}
MODULE = dict([(x, "GenBroker") for x in ("deliver", "perm", "session", "refuse", "size")] +
              [(x, "GenCases") for x in ("noise", "packets", "first", "misbehave", "sizes", "values")] +
              [(x, "GenMix") for x in ("mix", "calm", "storm", "order", "queue", "race", "connack", "suback",
                                       "contents", "topics", "cuts", "shutdown", "stall", "crowd", "churn", "usurp")] + [("wire", "GenWire")])
# those of which the effort is in how many there are
DRAWN = 8
# what is also stated of the algorithm (spec/BrokerImpl.tla)
TASKS = {"B01", "B03", "B08", "B10", "B11", "B12", "B13", "B16", "B17", "B19"}
# in which the table is looked at
TABLE = {"B06", "B08", "B09", "B11", "B12", "B13", "N01", "N02"}


def generated(source, n):
    """n scripts of a source (0: all there are); what TLC wrote is cached under the hash of the specification"""
    want = n
    module = MODULE[source]
    if module == "GenMix":
        n = max(x[source][0 if TIER == "quick" else 1] for x in PLAN.values() if source in x)
    h = hashlib.sha256()
    for f in FILES + (module + ".tla", module + ".cfg"):
        h.update(open(os.path.join(SPEC, f), "rb").read())
    drawn = module == "GenMix"
    name = "scripts-%s-%s" % (source, "%d-%d" % (n, SEED) if drawn else TIER)
    if module == "GenWire":
        cases = codec_check.cases()
        h.update(cases.encode())
        name += "-%d" % SEED
    p = os.path.join(OUT, "%s-%s.ndjson" % (name, h.hexdigest()[:16]))
    os.makedirs(OUT, exist_ok=True)
    if not os.path.exists(p):
        jobs = []
        if drawn:
            per = (n + DRAWN - 1) // DRAWN
            jobs = [({"KIND": source, "N": str(per)}, ["-seed", str(1000 * SEED + k)]) for k in range(DRAWN)]
        elif module == "GenWire":
            # a different part of them for every seed
            step = 5 if TIER == "quick" else 1
            per = step * DRAWN
            jobs = [({"CASES": cases, "STEP": str(per), "FROM": str((SEED * 7 + k * step) % per)}, [])
                    for k in range(DRAWN)]
        else:
            jobs = [({"FAMILY": source}, [])]

        def one(j):
            k, (env, args) = j
            ok, out, st = tlc(module, config=module, env=env, workers=1, args=args, quiet=True, heap="3g",
                              meta="%s-%s-%d" % (module, source, k))
            if not ok:
                print(out[-3000:])
                raise ToolError("the broker specification breaks its own rules")
            return [json.loads(l)[1:] for l in out.splitlines() if l.startswith('"@')]
        with ThreadPoolExecutor(DRAWN) as ex:
            parts = list(ex.map(one, enumerate(jobs)))
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            for part in parts:
                for l in part:
                    f.write(l + "\n")
        os.rename(tmp, p)
        log("%s: %d scripts written" % (source, sum(len(x) for x in parts)))
    with open(p) as f:
        lines = f.read().splitlines()
    if want and len(lines) > want:
        rng = random.Random("%s %d" % (source, SEED))
        lines = [lines[i] for i in sorted(rng.sample(range(len(lines)), want))]
    return lines


def sources(prop):
    return [(s, q if TIER == "quick" else t) for s, (q, t) in PLAN[prop].items()]


def stimuli():
    for s, n in sorted({x for p in PLAN for x in sources(p)}):
        generated(s, n)


# --- records that are falsified on purpose -------------------------------
def steady(r):
    """where something happened that cannot be explained away: (phase, connection, what it received)"""
    out = []
    for p in r["phases"]:
        if p.get("race") or p.get("quiet"):
            return []
        for c, got in p["recv"]:
            if c in p["live"]:
                out.append((p, c, got))
    return out


def pubs(got):
    return [k for k, g in enumerate(got) if g["t"] == "pub"]


def settled(p, c):
    """does this connection neither connect nor subscribe in this phase?"""
    return not any(x["t"] in ("sub", "connect") for d in p["do"] if d["c"] == c for a in d["as"] if a["a"] == "send"
                   for x in a["ps"])


def firm(r):
    """receptions that no order of events can change: (phase, connection, what it received, which of it)"""
    out = []
    for p, c, got in steady(r):
        if settled(p, c):
            who = senders(p)
            ks = [k for k in pubs(got) if who.get(got[k]["pay"][0]) in p["live"]]
            if ks:
                out.append((p, c, got, ks))
    return out


def lose(r, rng):
    p, c, got, ks = rng.choice(firm(r))
    got.pop(rng.choice(ks))


def twice(r, rng):
    p, c, got = rng.choice([x for x in steady(r) if pubs(x[2])])
    k = rng.choice(pubs(got))
    got.insert(k, copy.deepcopy(got[k]))


def stray(r, rng):
    """a message for someone who should not have it"""
    p, c, got, ks = rng.choice(firm(r))
    g = got[rng.choice(ks)]
    for d in p["live"]:
        if not settled(p, d):
            continue
        have = [x for x in p["recv"] if x[0] == d]
        if not have:
            p["recv"].append([d, [copy.deepcopy(g)]])
            return
        if all(x.get("pay") != g["pay"] for x in have[0][1]):
            have[0][1].append(copy.deepcopy(g))
            return
    raise KeyError


def alter(r, rng):
    p, c, got = rng.choice([x for x in steady(r) if pubs(x[2])])
    g = got[rng.choice(pubs(got))]
    k = rng.randrange(4)
    if k == 0:
        g["props"] = g["props"] + [[38, "?"]]
    elif k == 1:
        g["topic"] = g["topic"] + ["?"]
    elif k == 2:
        g["fl"] = 1
    else:
        g["pay"] = [g["pay"][0], g["pay"][1] + 1]


def senders(p):
    who = {}
    for d in p["do"]:
        for a in d["as"]:
            if a["a"] == "send":
                for x in a["ps"]:
                    if x["t"] == "pub":
                        who[x["pay"][0]] = d["c"]
            elif a["a"] == "flood":
                for k in range(a["n"]):
                    who["%s.%d" % (a["p"]["pay"][0], k)] = d["c"]
    return who


def swap(r, rng):
    """two messages of one sender"""
    todo = steady(r)
    rng.shuffle(todo)
    for p, c, got in todo:
        who = senders(p)
        ks = pubs(got)
        for a in ks:
            for b in ks:
                x, y = got[a]["pay"], got[b]["pay"]
                if a < b and x != y and x[0] in who and who.get(x[0]) == who.get(y[0]):
                    got[a], got[b] = got[b], got[a]
                    return
    raise KeyError


def closed(r, rng):
    p = rng.choice([p for p in r["phases"] if p["live"] and not p.get("race")])
    if p["closed"] and p["ends"] and rng.random() < .5:
        p["closed"].remove(p["ends"][0])
    else:
        c = rng.choice([c for c in p["live"] if c not in p["closed"]])
        p["closed"].append(c)


def listed(r, rng):
    p = rng.choice([p for p in r["phases"] if not p.get("race")])
    if p["listed"] and rng.random() < .5:
        p["listed"].pop()
    else:
        p["listed"].append("nobody")


def seen(r, rng):
    p = rng.choice([p for p in r["phases"] if p["seen"] and not p.get("race")])
    x = rng.choice(p["seen"])
    if x[1] and rng.random() < .5:
        x[1].pop()
    else:
        x[1].append("nobody")


def stuck(r, rng):
    p = rng.choice([p for p in r["phases"] if p["live"]])
    p["stuck"].append(p["live"][0])


def end(r, rng):
    if rng.random() < .5:
        r["end"] = "hangs"
    else:
        r["open"] = [1]


def of(kind, change):
    def f(r, rng):
        p, c, got = rng.choice([x for x in steady(r) if any(g["t"] == kind for g in x[2])])
        change(rng.choice([g for g in got if g["t"] == kind]), rng)
    return f


def connack(g, rng):
    if g["rc"] != 0:
        g["rc"] = 0
    elif rng.random() < .5:
        g["sp"] = 1
    else:
        g["props"].pop()


def suback(g, rng):
    k = rng.randrange(len(g["rcs"]))
    g["rcs"][k] = 131 - g["rcs"][k] if g["rcs"][k] in (0, 131) else 0


def unanswered(r, rng):
    """a refusal that never came"""
    todo = [(p, got) for p in r["phases"] for c, got in p["recv"] if not p.get("race")
            and any(g["t"] == "disconnect" for g in got)]
    p, got = rng.choice(todo)
    g = [g for g in got if g["t"] == "disconnect"][0]
    if rng.random() < .5:
        g["rc"] = 0
    else:
        g["rc"] = 130


FALSIFY = {
    "B01": [lose, twice, stray], "B02": [alter], "B03": [swap, lose], "B04": [lose, stray], "B05": [lose, stray],
    "B06": [closed, listed, seen], "B07": [of("connack", connack), listed], "B08": [of("suback", suback), seen],
    "B09": [unanswered, closed, seen], "B10": [lose, closed, listed, stuck], "B11": [closed, listed, seen],
    "B12": [closed, listed, seen, lose], "B13": [seen, stray], "B14": [closed, lose], "B15": [closed, lose, stray],
    "B16": [lose, swap, alter, twice], "B17": [end], "B19": [lose, swap, twice],
    "N01": [closed, listed, seen, stray], "N02": [closed, alter, lose, seen],
}


def falsified(prop, lines, rng, n=40):
    out = []
    for i in rng.sample(range(len(lines)), min(len(lines), 400)):
        r = json.loads(lines[i])
        if len(r["phases"]) == 0 or len(lines[i]) > 60000:
            continue
        try:
            rng.choice(FALSIFY[prop])(r, rng)
        except (KeyError, IndexError):
            continue
        r["canary"] = True
        out.append(json.dumps(r))
        if len(out) >= n:
            break
    return out


def count(lines):
    c = {"phases": 0, "messages_delivered": 0, "subacks": 0, "connacks": 0, "disconnects": 0, "connections_closed": 0}
    kind = {"pub": "messages_delivered", "suback": "subacks", "connack": "connacks", "disconnect": "disconnects"}
    for l in lines:
        r = json.loads(l)
        c["phases"] += len(r["phases"])
        if r["phases"]:
            c["connections_closed"] += len(r["phases"][-1]["closed"])
        for p in r["phases"]:
            for _, got in p["recv"]:
                for g in got:
                    if g["t"] in kind:
                        c[kind[g["t"]]] += 1
    return c


# part of the scripts (of 16), threads of the runtime, scripts at once, how many of 1000 times a task of the broker is
# delayed when it reaches one of the points between its steps
RUNTIMES = [(6, 8, 128, 0), (5, 8, 128, 30), (3, 8, 128, 150), (1, 2, 24, 3), (1, 1, 12, 0), (0, 8, 128, 2)]
# sources with too many messages for many delays: what they stand
LONG = {"stall": 3, "order": 3, "queue": 3, "usurp": 30}
HUGE = '"n":8250'


def play1(exe, prop, k, scripts, seed, threads, jobs, delays):
    f = os.path.join(OUT, "%s-broker-%d.ndjson" % (prop, k))
    with open(f, "w") as fd:
        for l in scripts:
            fd.write(l + "\n")
    t = f + ".trace"
    cmd = [exe, "broker", "--scripts", f, "--out", t, "--seed", str(seed), "--jobs", str(jobs), "--threads", str(threads),
           "--delays", str(delays)]
    s = json.loads(drive(prop, cmd, "broker"))
    with open(t) as fd:
        lines = fd.read().splitlines()
    os.remove(t)
    os.remove(f)
    return lines, s


def play(exe, prop, scripts, origin, seed):
    """Plays the scripts in runtimes of different sizes; returns the records, the sources of their scripts and how many got stuck"""
    groups, turn = [[] for _ in RUNTIMES], [k for k, r in enumerate(RUNTIMES) for _ in range(r[0])]
    for n in range(len(scripts)):
        k = turn[n % len(turn)]
        if HUGE in scripts[n].replace(" ", ""):
            k = 0
        elif RUNTIMES[k][3] > LONG.get(origin[n], 1000):
            k = len(RUNTIMES) - 1 if LONG[origin[n]] < 30 else 1
        groups[k].append(n)
    used = [k for k, g in enumerate(groups) if g]
    with ThreadPoolExecutor(len(used)) as ex:
        rs = list(ex.map(lambda k: play1(exe, prop, k, [scripts[n] for n in groups[k]], seed, *RUNTIMES[k][1:]), used))
    lines = [l for r in rs for l in r[0]]
    came = [origin[n] for k, r in zip(used, rs) for n in groups[k][:len(r[0])]]
    log("played", [r[1] for r in rs])
    return lines, came, {"stuck": sum(r[1]["stuck"] for r in rs)}


def stripped(prop, l):
    """without the questions that this property does not ask"""
    if prop in TABLE or '"looks"' not in l:
        return l
    r = json.loads(l)
    for p in r["phases"]:
        p["looks"] = []
    return json.dumps(r)


def run(prop):
    exe = build()
    rng = random.Random(SEED)
    cov = {"traces_validated_against_impl": 0, "falsified_rejected": 0, "sources": {}, "samples": []}
    scripts, origin = [], []
    for s, n in sources(prop):
        ls = generated(s, n)
        cov["sources"][s] = len(ls)
        scripts += ls
        origin += [s] * len(ls)
    order = list(range(len(scripts)))
    rng.shuffle(order)
    scripts = [stripped(prop, scripts[i]) for i in order]
    origin = [origin[i] for i in order]
    rounds = 1 if TIER == "quick" else 3
    for k in range(rounds):
        step = 20000
        for a in range(0, len(scripts), step):
            one(exe, prop, scripts[a:a + step], origin[a:a + step], SEED + 1000003 * k, rng, cov)
    cov["rule"] = ("the scripts of spec/GenBroker (one per transition), GenCases (enumerated), GenMix (seeded) and GenWire "
                   "(the packets of GenCodec) named under sources, each recorded run explained by spec/Broker.tla")
    if prop in TASKS:
        cov["algorithm"] = {"note": "spec/BrokerImpl.tla, explored once per specification (by setup_cmd)", "runs": impl_check.explore()}
    evidence(prop, "model_checking", cov,
             ["the interleavings are those that the runtime happens to choose with 8 threads and 128 brokers at once, with 2, and with 1, in half of the scripts with random delays between the steps of its tasks",
              "a run whose packets can be explained by no order in which the broker may have processed them is a "
              "violation; who is closed and who is listed is looked at when all is quiet, within 10 s"])


def one(exe, prop, scripts, origin, seed, rng, cov):
    lines, origin, s = play(exe, prop, scripts, origin, seed)
    fals = falsified(prop, lines, rng)
    if not fals and not s["stuck"]:
        raise ToolError("no record to falsify")
    bad, outs = tlc_split("BrokerTrace", lines + fals, env={"PROP": prop}, config="BrokerTrace")
    if bad is not None:
        if bad >= len(lines):
            raise ToolError("a falsified record was accepted: " + clip(fals[bad - len(lines)], 3000))
        rec = json.loads(lines[bad])
        reached = max([int(x) for o in outs for x in re.findall(r'<<"BROKEN", \d+, (\d+)', o)] or [0])
        raise Violation("the specification does not explain what happened (script of %s, phase %d)"
                        % (origin[bad] if bad < len(origin) else "?", reached),
                        {"property": prop, "seed": seed, "phase": reached, "record": rec})
    if len(lines) < len(scripts):
        # something got stuck that this property says nothing about
        log("%d of %d scripts were played" % (len(lines), len(scripts)))
    cov["traces_validated_against_impl"] += len(lines)
    cov["falsified_rejected"] += len(fals)
    c = count(lines)
    for k, v in c.items():
        cov[k] = cov.get(k, 0) + v
    if not cov["samples"]:
        cov["samples"] = [clip(lines[i]) for i in rng.sample(range(len(lines)), min(3, len(lines)))]
