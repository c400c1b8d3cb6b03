#!/usr/bin/env python3
"""mkseed.py FILE.py: writes /verif/seeded/<id>/ from a description: SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
The demo body is a C++ main body; CHECK(c) makes it exit 1."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}; exec(open(sys.argv[1]).read(), ns); only = set(sys.argv[2:])
DEMO = """// fails (exit 1) when the property is broken
#include "demo.h"
%s
int main() {
%s
  puts("ok"); return 0;
}
"""
H = """#pragma once
#include <string>
#include <vector>
#include <memory>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include "Prefix/StdAfx.h"
#include "XmlFileHelper.h"
#include "GDTFManager.h"
#include "SceneDataExchange.h"
using namespace VectorworksMVR; using namespace VectorworksMVR::VWFC; using namespace VectorworksMVR::VWFC::Tools; using namespace SceneData;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "failed: %s (line %d)\\n", #c, __LINE__); exit(1); } } while (0)
static inline std::string str(const TXString& s) { return std::string(s.GetCharPtr()); }
"""
SH = """#!/bin/bash
# cwd /repo, after the build: compiles demo.cpp against the built library and runs it in a scratch folder
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT; export HOME="$T"
g++ -std=gnu++14 -O1 -fno-access-control %s -DGS_LIN -D_LINUX -DUNICODE -D_UNICODE -DBUILD_MVR_XCHANGE -DDONT_USE_XERCES_AS_XMLLIB -D_FILE_OFFSET_BITS=64 -w -I/repo/src -I/repo/mdns_cpp/include -I/repo/mdns_cpp/src "$D/demo.cpp" -o "$T/demo" /repo/_build/libs/libMvrGdtf.a /repo/_build/libs/libmdns_cpp.a -luuid -lpthread || exit 3
cd "$T" && timeout 100 ./demo
"""
tmp = tempfile.mkdtemp(prefix="mkseed"); subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    for f, o, n in s["edits"]:
        p = os.path.join(tmp, "r", f); b = open(p, newline="").read(); crlf = "\r\n" in b
        if crlf: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
        if b.count(o) < 1: sys.exit("%s: text not found in %s: %r" % (s["id"], f, o))
        k = s.get("nth", 0); parts = b.split(o)
        if len(parts) > 2 and "nth" not in s: sys.exit("%s: text found %d times" % (s["id"], len(parts) - 1))
        open(p, "w", newline="").write(o.join(parts[:k + 1]) + n + o.join(parts[k + 1:]))
    diff = subprocess.check_output(["git", "-C", tmp + "/r", "diff"]); open(d + "/patch.diff", "wb").write(diff); subprocess.check_call(["git", "-C", tmp + "/r", "checkout", "-q", "--", "."])
    open(d + "/demo.h", "w").write(H); open(d + "/demo.cpp", "w").write(DEMO % (s.get("pre", ""), s["demo"])); open(d + "/demo.sh", "w").write(SH % s.get("flags", "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1); print(s["id"])
shutil.rmtree(tmp)
