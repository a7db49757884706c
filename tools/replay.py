"""Rebuilds the simulator from /repo and runs a replay file: replay.py FILE [trace]. Exit 1 if the violation happens."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, check as C

text = open(sys.argv[1]).read()
exe = B.build()
d = C.run_plan(exe, text, len(sys.argv) > 2)
if d["log"]:
    print(d["log"])
print("verdict %d\nclass %s\nmessage %s\nhash %s" % (d["verdict"], d.get("class"), d.get("message"), d.get("hash")))
for i, s in enumerate(d["stack"]):
    print("stack %d:" % i)
    for l in C.symbols(exe, s):
        print("  " + l)
sys.exit(d["verdict"])
