#!/usr/bin/env python3
"""check.py PROPERTY: exit 0 if it holds on everything explored, 1 with a VIOLATION line, 2 on trouble."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import *


def main():
    prop = sys.argv[1]
    os.makedirs(OUT, exist_ok=True)
    if prop in ("C08", "C09"):
        import builder_check as m
    elif prop[0] == "C":
        import codec_check as m
    elif prop[0] == "T":
        import topics_check as m
    elif prop == "B20":
        import life_check as m
    elif prop == "B18":
        import deadlines_check as m
    else:
        import broker_check as m
    ev = os.path.join(EVIDENCE, prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    try:
        m.run(prop)
    except Violation as v:
        p = replay_file(prop, v.replay)
        print(clip(v.replay, 1500))
        print("broken:", v.what)
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
        sys.exit(1)
    except ToolError as e:
        print("ERROR:", e, flush=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    log("%s holds on everything explored" % prop)


main()
