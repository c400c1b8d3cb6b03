#!/usr/bin/env python3
# Regenerates MANIFEST.json from harness/specs.py and properties.jsonl
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "harness")); import specs
sys.path.insert(0, os.path.join(V, "tools")); import props as pr; props = pr.PROPS; open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in props))
NOTE = "Every path of the real code (clang -O1 LLVM IR of /repo's current source) is executed symbolically; each assertion and each memory access is decided by Z3 for all values of the symbolic inputs. Bounds: %s. Trusts: the engine's IR semantics and the C/C++ library model in /verif/rt (sampled paths are replayed and compared on the native build; every counterexample is confirmed natively before it is reported)."
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in specs.PROPS: m["checks"].append({"property": i, "quick_cmd": "python3 tools/run.py " + i, "thorough_cmd": "python3 tools/run.py %s --tier=thorough" % i, "evidence_file": "evidence/%s.json" % i, "technique": "symbolic execution of compiled LLVM IR with an SMT solver (Z3)", "level": "model_checking", "level_note": NOTE % specs.PROPS[i]["bounds"]})
    else: m["not_applicable"].append({"property": i, "reason": specs.NOT_APPLICABLE.get(i, "check not built yet")})
m["notes"] = "see DESIGN.md"
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
