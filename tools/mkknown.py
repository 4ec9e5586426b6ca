#!/usr/bin/env python3
"""Writes known_findings.txt from the fix commits of /repo (property of each below)."""
import os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "cf948ed": "C13", "a3bd12f": "C13", "36bb9b9": "C15", "9b9452b": "C15", "ce7bdf3": "C09", "6abb78e": "C09", "d2966e0": "C11", "72651f7": "C11",
 "5fb35d6": "C11", "1fe6391": "C02", "dd60eca": "C12", "a1e884b": "C16", "85cfbab": "C16", "ad03ba9": "C16", "8a8fcaa": "C07", "6408826": "C07",
 "f5c76dd": "C18", "2124fe5": "C08", "efa232a": "C21", "cadb0ec": "C25", "79a35b0": "C22", "0762431": "C20", "ebeb814": "C27", "97557a9": "C29",
 "392fbb8": "C18", "ac60e5c": "C24", "e9a9703": "C23", "0a95553": "C26", "2b927dd": "C14", "648c86e": "C14", "580b8ae": "C13", "7285bf6": "C03",
 "0040d1a": "C22", "584b103": "C25", "e1cb7e1": "C17", "cb03ff5": "C26", "edd6b02": "C13", "a922596": "C21",
}
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "ccd2b3a..HEAD"], capture_output=True, text=True).stdout
L = []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    assert s.startswith("fix: "), l
    L.append("fixed: property=%s %s %s" % (PROP[h[:7]], h, s[5:]))
extra = os.path.join(ROOT, "tools", "known_extra.txt")
if os.path.exists(extra):
    L += [x.rstrip("\n") for x in open(extra) if x.strip()]
with open(os.path.join(ROOT, "known_findings.txt"), "w") as f:
    f.write("\n".join(L) + "\n")
print(len(L))
