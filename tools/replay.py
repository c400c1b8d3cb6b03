#!/usr/bin/env python3
"""replay.py <case>: runs a reported counterexample again on the native (ASan) build of /repo's current code. Exit 1 when it still fails."""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, run
case = os.path.abspath(sys.argv[1]); t = open(case).read(); h = re.search(r"harness (\S+)", t).group(1); params = {m.group(1): int(m.group(2)) for m in re.finditer(r"^P (\S+) (\d+)", t, re.M)}
tmp = tempfile.mkdtemp(prefix="vrep")
try:
    exe = build.harness_native(h, tmp); res, err = run.replay(exe, params, [case]); r = res.get(case)
    print("".join(l + "\n" for l in t.splitlines() if l.startswith("#"))); print("input:", run.describe(case)); print("result: %s %s\n%s\n%s" % (r + (err[-3000:],) if r else ("none", 0, "", err[-3000:])))
    sys.exit(1 if r and run.reproduced(r) else 0)
finally: shutil.rmtree(tmp, ignore_errors=True)
