#!/usr/bin/env python3
"""replay.py <trace>: rebuilds from /repo and replays one violation trace exactly. exit 1: reproduced, 0: the run is clean."""
import os, sys, subprocess, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, check as C
t = open(sys.argv[1]).read(); prop = re.search(r"^check (\S+)", t, re.M).group(1)
exe = B.build(C.CFG[prop]["exe"])
r = subprocess.run([exe, "replay", "--known", ",".join(k for k, _ in C.known(prop)), "--file", sys.argv[1]], stdout=subprocess.PIPE, text=True)
print(r.stdout.strip())
for l in C.symbolise(exe, r.stdout): print("  " + l)
sys.exit(r.returncode)
