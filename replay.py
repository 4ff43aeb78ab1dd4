#!/usr/bin/env python3
"""replay.py FILE: re-runs a recorded counterexample on a native build of /repo."""
import json
import sys
import check

r = json.load(open(sys.argv[1]))
nat = check.Native(r["crate"])
line = " ".join([r["harness"]] + [str(x) for x in r["inputs"]])
for prof in dict.fromkeys([r["profile"], "dev"]):
    print(prof, nat.batch(prof, [line], timeout=240))
