#!/usr/bin/env python3
"""mkbug.py ID PROPERTY NEEDS BREAKS < main.rs : makes seeded/ID from the working tree of /tmp/bug (a clone of /repo with the change)."""
import json, os, shutil, subprocess, sys
i, prop, needs, breaks = sys.argv[1:5]
v = "/verif"
d = f"{v}/seeded/{i}"
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d + "/kit")
ig = shutil.ignore_patterns("target", "__pycache__")
for n in ("stubs", "crates"):
    shutil.copytree(f"{v}/{n}", f"{d}/kit/{n}", ignore=ig)
shutil.copytree(f"{v}/kit/demo", f"{d}/kit/demo", ignore=ig)
shutil.copy(f"{v}/kit/demo.sh", d + "/demo.sh")
os.chmod(d + "/demo.sh", 0o755)
open(d + "/main.rs", "w").write(sys.stdin.read())
p = subprocess.run(["git", "-C", "/tmp/bug", "diff"], stdout=subprocess.PIPE, text=True).stdout
assert p.strip(), "no change"
open(d + "/patch.diff", "w").write(p)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
