"""The tasks of the broker (spec/BrokerImpl.tla): TLC explores all their interleavings for small configurations, with the
algorithm as it is and with each of its flaws.  Nothing of this depends on /repo, so the results are kept."""
import hashlib, json, os
from concurrent.futures import ThreadPoolExecutor
from lib import *

INVARIANTS = "TypeOk OwnSubs Registered Delivered Right InOrder Answered Settled Stopped"
BASE = {"Conns": "{1,2}", "Ids": '{"a"}', "Kind": 1, "Leaves": "FALSE", "Stops": "FALSE", "Reads": "FALSE", "Q": 1, "Room": 1}
# name -> (constants, liveness, tier)
CONFIGS = {
    "takeover": ({"Leaves": "TRUE"}, False, "quick"),
    "takeover and refusals": ({"Kind": 2, "Leaves": "TRUE"}, False, "quick"),
    "two that do not read": ({"Ids": '{"a","b"}', "Kind": 3, "Reads": "TRUE"}, False, "quick"),
    "stop": ({"Kind": 3, "Stops": "TRUE"}, True, "quick"),
    "two clients": ({"Ids": '{"a","b"}', "Leaves": "TRUE", "Reads": "TRUE"}, False, "thorough"),
    "two clients and refusals": ({"Ids": '{"a","b"}', "Kind": 2, "Leaves": "TRUE", "Reads": "TRUE"}, False, "thorough"),
    "longer queue": ({"Ids": '{"a","b"}', "Kind": 2, "Leaves": "TRUE", "Q": 2}, False, "thorough"),
    "stop and leave": ({"Kind": 2, "Leaves": "TRUE", "Stops": "TRUE"}, True, "thorough"),
    "three": ({"Conns": "{1,2,3}", "Kind": 4}, False, "thorough"),
    "three that leave": ({"Conns": "{1,2,3}", "Kind": 5, "Leaves": "TRUE"}, False, "thorough"),
}
# flaw -> (the configuration that shows it, what it breaks)
FLAWS = {
    "sender by identifier": ({"Leaves": "TRUE"}, "OwnSubs"),
    "old subscriptions stay": ({"Leaves": "TRUE"}, "OwnSubs"),
    "retired subscriptions stay": ({"Leaves": "TRUE"}, "OwnSubs"),
    "subscribe without sender": ({"Leaves": "TRUE"}, "OwnSubs"),
    "kill who listens": ({"Leaves": "TRUE"}, "Registered"),
    "retire by identifier": ({"Leaves": "TRUE"}, "Registered"),
    "bounded outgoing queue": ({"Ids": '{"a","b"}', "Reads": "TRUE"}, "Settled"),
    "stop at an error": ({"Ids": '{"a","b"}', "Leaves": "TRUE"}, "Delivered"),
    "notify once": ({"Kind": 3, "Stops": "TRUE"}, "Stopping"),
}


def config(name, consts, live, flaws=()):
    c = dict(BASE, **consts)
    f = os.path.join(OUT, "impl-%s-%d.cfg" % (name.replace(" ", "-"), os.getpid()))
    with open(f, "w") as fd:
        fd.write("SPECIFICATION Spec\nCONSTANTS\nPrograms <- Pr\nFlaws = {%s}\n" % ",".join('"%s"' % x for x in flaws))
        for k, v in c.items():
            fd.write("%s = %s\n" % (k, v))
        fd.write("INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % INVARIANTS)
        if live:
            fd.write("PROPERTIES Stopping\n")
    return f


def explore():
    """Runs what the tier asks for; returns what was explored"""
    h = hashlib.sha256()
    for f in ("BrokerImpl.tla", "MCImpl.tla"):
        h.update(open(os.path.join(SPEC, f), "rb").read())
    h.update(repr((CONFIGS, FLAWS, BASE, INVARIANTS)).encode())
    keep = os.path.join(OUT, "impl-%s-%s.json" % (TIER, h.hexdigest()[:16]))
    if os.path.exists(keep):
        return json.load(open(keep))
    todo = [("", n, c, live, ()) for n, (c, live, t) in CONFIGS.items() if t == "quick" or TIER == "thorough"]
    todo += [(breaks, n, c, breaks == "Stopping", (n,)) for n, (c, breaks) in FLAWS.items()]

    def one(j):
        breaks, name, consts, live, flaws = j
        f = config(name, consts, live, flaws)
        try:
            ok, out, st = tlc("MCImpl", config=f[:-4], workers=2, quiet=True, heap="6g", timeout=1500, meta="impl-" + name.replace(" ", "-"))
        finally:
            os.remove(f)
        if breaks:
            want = "Temporal property Stopping was violated" if breaks == "Stopping" else "Invariant %s is violated" % breaks
            if ok or want not in out:
                raise ToolError("the flaw '%s' does not break %s" % (name, breaks))
        elif not ok:
            print(out[-5000:])
            raise ToolError("the tasks of the broker break what is asked of them (%s)" % name)
        return {"configuration": name, "breaks": breaks, "states": st["distinct"]}
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, todo))
    tmp = keep + ".%d" % os.getpid()
    with open(tmp, "w") as fd:
        json.dump(res, fd)
    os.rename(tmp, keep)
    log("tasks of the broker: %d configurations, %d states, %d flaws shown"
        % (sum(not r["breaks"] for r in res), sum(r["states"] for r in res), sum(bool(r["breaks"]) for r in res)))
    return res


if __name__ == "__main__":
    for r in explore():
        print(r)
