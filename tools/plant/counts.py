#!/usr/bin/env python3
"""Which planted bugs delete at least one line of the original repository (not one of our fix commits)?"""
import glob, os, re, subprocess
BASE = "9e1f6af"
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
cache = {}
def orig(f):
    if f not in cache:
        o = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f"{BASE}..HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout.split("\n")
        cache[f] = [l.startswith("^") for l in o]
    return cache[f]
for d in sorted(glob.glob(root + "/seeded/*/patch.diff")):
    ok = tot = add = 0
    f = None
    for l in open(d):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("+++"): pass
        elif m := re.match(r"@@ -(\d+)", l): n = int(m[1]) - 1
        elif l.startswith("-"):
            tot += 1; ok += orig(f)[n] and bool(l[1:].strip()); n += 1
        elif l.startswith("+"): add += 1
        elif l.startswith(" "): n += 1
    print(os.path.basename(os.path.dirname(d)), f"deleted {tot} of which original {ok}, added {add}", "" if ok or not tot else "  <-- none original")
