#!/usr/bin/env python3
"""tools/show.py PID [seed]: print the replays of a check in short."""
import json, sys
pid, seed = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "1"
for v in json.load(open(f"/verif/replays/{pid}-{seed}.json")):
    print("==", v["case"], "|", v["key"], "|", v["message"][:700])
    w = v["witness"]
    if isinstance(w, dict):
        for k, x in w.items():
            if isinstance(x, list):
                print("  ", k)
                for y in x[-45:]:
                    print("     ", str(y)[:260])
            else:
                print("  ", k, ":", str(x)[:600])
    else:
        print(str(w)[-2500:])
