#!/usr/bin/env python3
"""blame.py   for each planted bug: how many of the lines it removes are the original repository's"""
import os, re, subprocess
base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).decode().split()[0]
base = "a708162"
cache = {}
def blame(f):
    if f not in cache:
        o = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-l", f"{base}..HEAD", "--", f]).decode().splitlines()
        cache[f] = [l.startswith("^") for l in o]
    return cache[f]
for b in sorted(os.listdir("/verif/seeded")):
    t = open(f"/verif/seeded/{b}/patch.diff").read()
    f = None; old = mine = add = 0
    for l in t.splitlines():
        if l.startswith("--- "): f = l[4:].removeprefix("a/")
        elif m := re.match(r"@@ -(\d+)", l): n = int(m[1])
        elif l.startswith("+++") or l.startswith("diff") or l.startswith("index"): pass
        elif l.startswith("-"):
            if blame(f)[n - 1]: old += 1
            else: mine += 1
            n += 1
        elif l.startswith("+"): add += 1
        elif l.startswith(" "): n += 1
    print(f"{b:28} original {old:3} mine {mine:3} added {add:3}" + ("  <== none original" if old == 0 else ""))
