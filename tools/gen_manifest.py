"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODEC = "TLA+ wire-format specification (MqttWire, CodecTrace); TLC generates the stimuli and validates recorded runs of the real codec"
BUILD = "TLA+ state machine of the packet builders (Builder, GenBuilder); TLC explores it, writes one test per transition and validates the recorded calls of the real builders"
TOP = "TLA+ specification of topic matching and the subscription table (Topics); TLC explores it, writes one test per transition and validates recorded histories of the real table"
CONC = "TLA+ specification of concurrent use of the table (TopicsConc): TLC writes the scenarios and validates the recorded histories of systematically enumerated schedules of the real table"
BROKER = "TLA+ specification of the broker (Broker); TLC explores it and writes scripts from it, and decides for each recorded run of the real server whether the specification explains it (BrokerTrace)"
LEVEL = "model_checking"
CHECKS = {**{c: CODEC for c in "C01 C02 C03 C04 C05 C06 C07 C10".split()}, **{c: BUILD for c in "C08 C09".split()}, **{c: TOP for c in "T01 T02 T03".split()}, "T04": CONC,
          **{b: BROKER for b in ["B%02d" % k for k in range(1, 21) if k not in (18, 20)] + ["N01", "N02"]},
          "B20": "TLA+ specification of servers, addresses and their clients (Lifecycle): TLC explores it, writes one script per transition and validates what was recorded of real servers",
          "B18": "TLA+ timed specification of connection establishment (Deadlines): TLC explores it, writes one scenario per transition and validates the recorded times of the real server"}
NOTE = "see DESIGN.md: exhaustive over the bounded model; the binding to the code is by generated and randomised conformance runs, not by proof"
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1, "setup_cmd": "./setup.sh",
    "hooks": {"guard": "cfg(apiformes_verif)", "enable": "RUSTFLAGS=--cfg apiformes_verif", "source_commits": ["0fe0def", "b5e677a", "db0a526"]},
    "checks": [{"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
                "technique": CHECKS[i], "level": LEVEL, "level_note": NOTE} for i in ids if i in CHECKS],
    "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in CHECKS],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
