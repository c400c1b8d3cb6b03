#!/usr/bin/env python3
"""blame.py <seed>…: do the lines a planted bug removes belong to the original repository?"""
import subprocess, sys, re
base = subprocess.check_output(["git","-C","/repo","rev-list","--max-parents=0","HEAD"]).decode().split()
log = subprocess.check_output(["git","-C","/repo","log","--format=%H %s"]).decode().splitlines()
mine = {l.split()[0] for l in log if l.split(" ",1)[1].startswith("fix:")}
for s in sys.argv[1:]:
    f=None; o=0; res=[]
    for l in open("/verif/seeded/%s/patch.diff"%s, newline="", errors="replace"):
        if l.startswith("--- a/"): f=l[6:].strip()
        elif l.startswith("@@"): o=int(re.match(r"@@ -(\d+)",l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b=subprocess.check_output(["git","-C","/repo","blame","-l","-L%d,%d"%(o,o),f]).decode(errors="replace").lstrip("^")[:39]
            res.append(any(m.startswith(b) for m in mine)); o+=1
        elif l.startswith(" "): o+=1
    if not res or all(res): print(s,"NOT ORIGINAL",res)
