"""Compiles /repo's translation units (bitcode for the symbolic executor, ASan objects for replay) with a content-keyed cache,
and selects archive-style the units a harness needs.  Always derived from /repo's current working tree."""
import hashlib, json, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
DEFS = ["-DGS_LIN", "-D_LINUX", "-DUNICODE", "-D_UNICODE", "-DBUILD_MVR_XCHANGE", "-DDONT_USE_XERCES_AS_XMLLIB", "-DIS_UNITTEST", '-DGITPATH="/repo"']
INCS = ["-I" + REPO + "/src", "-I" + REPO + "/mdns_cpp/include"]
BCFLAGS = ["-O1", "-g1", "-emit-llvm", "-c", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fno-discard-value-names", "-fno-pic", "-fno-pie"]
NATFLAGS = ["-O1", "-g1", "-c", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 4))))
def sha(b): return hashlib.sha256(b).hexdigest()[:32]
_fh = {}
def fhash(p):
    if p not in _fh:
        try: _fh[p] = sha(open(p, "rb").read())
        except OSError: _fh[p] = "missing"
    return _fh[p]
def repo_units():
    us = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) + sorted(glob.glob(REPO + "/src/**/*.c", recursive=True)) + sorted(glob.glob(REPO + "/mdns_cpp/src/*.cpp"))
    return us
def unit_cmd(src, mode, extra=()):
    fl = BCFLAGS if mode == "bc" else NATFLAGS
    if src.endswith(".c"): return ["clang"] + fl + DEFS + INCS + list(extra) + [src]
    std = "-std=c++17" if "/mdns_cpp/" in src or src.startswith(VERIF) else "-std=gnu++14"
    pre = ["-include", "algorithm"] if "/mdns_cpp/" in src else []
    if mode == "bc": pre += ["-include", VERIF + ("/rt/pre_mdns.h" if "/mdns_cpp/" in src else "/rt/pre.h")]
    if mode == "bc" and src.endswith("/ZIPFileImpl.cpp"): pre += ["-fno-inline"] # it includes the third-party compressor, whose functions a harness may replace
    return ["clang++", std] + fl + pre + DEFS + INCS + list(extra) + [src]
def compile_unit(src, mode, extra=()):
    """returns (object path, None) or (None, error text)"""
    cmd = unit_cmd(src, mode, extra)
    key = sha(("\0".join(cmd)).encode())
    d = os.path.join(CACHE, key[:2], key); os.makedirs(d, exist_ok=True)
    man = os.path.join(d, "manifest.json"); entries = []
    if os.path.exists(man):
        try: entries = json.load(open(man))
        except Exception: entries = []
        for e in entries:
            if all(fhash(p) == h for p, h in e["deps"]) and os.path.exists(e["obj"]): return e["obj"], None
    tmp = os.path.join(d, "t%d_%s" % (os.getpid(), key[:6])); dep = tmp + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-o", tmp + ".o"], capture_output=True, text=True, cwd="/")
    if r.returncode: return None, src + "\n" + r.stderr[-3000:]
    txt = open(dep).read().replace("\\\n", " "); deps = [p.replace("\\ ", " ") for p in txt.split(":", 1)[1].split()]; os.unlink(dep)
    deps = [p for p in deps if p.startswith(REPO) or p.startswith(VERIF)]
    dl = [(p, fhash(p)) for p in deps]; obj = os.path.join(d, sha(json.dumps(dl).encode()) + (".bc" if mode == "bc" else ".o"))
    os.replace(tmp + ".o", obj)
    entries = [{"deps": dl, "obj": obj}] + [e for e in entries if e["obj"] != obj][:6]
    json.dump(entries, open(man + str(os.getpid()), "w")); os.replace(man + str(os.getpid()), man)
    return obj, None
def compile_many(srcs, mode, extra=(), strict=True):
    with ThreadPoolExecutor(JOBS) as ex: rs = list(ex.map(lambda s: compile_unit(s, mode, extra), srcs))
    objs, errs = {}, []
    for s, (o, e) in zip(srcs, rs):
        if o: objs[s] = o
        else: errs.append(e)
    if errs and strict: raise BuildError("\n".join(errs[:3]))
    return objs, errs
class BuildError(Exception): pass
def nm(obj):
    c = obj + ".nm"
    if os.path.exists(c):
        try: return json.load(open(c))
        except Exception: pass
    r = subprocess.run(["llvm-nm-18" if shutil.which("llvm-nm-18") else "llvm-nm", "-j" if False else "--format=posix", obj], capture_output=True, text=True)
    strong, weak, und = [], [], []
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) < 2: continue
        n, t = p[0], p[1]
        if t == "U" or t in "wv": und.append(n)
        elif t in "TDBRSC": strong.append(n)
        elif t in "WV": weak.append(n)
    v = [strong, weak, und]; json.dump(v, open(c + str(os.getpid()), "w")); os.replace(c + str(os.getpid()), c); return v
def select(roots, objs, exclude=()):
    """archive-style selection: units that (transitively) define what the roots need"""
    dstrong, dweak = {}, {}
    tabs = {}
    with ThreadPoolExecutor(JOBS) as ex: tl = list(ex.map(nm, [objs[s] for s in objs]))
    for s, t in zip(objs, tl):
        tabs[s] = t
        for n in t[0]: dstrong.setdefault(n, s)
        for n in t[1]: dweak.setdefault(n, s)
    have, need, chosen = set(), [], []
    for r in roots:
        t = nm(r); have.update(t[0]); have.update(t[1])
    for r in roots: need += nm(r)[2]
    while need:
        n = need.pop()
        if n in have: continue
        s = dstrong.get(n) or dweak.get(n)
        if not s or s in chosen or s in exclude: continue
        chosen.append(s); have.update(tabs[s][0]); have.update(tabs[s][1]); need += tabs[s][2]
    return sorted(chosen)
def repo_objs(mode):
    # a unit that does not compile is only fatal when it is needed; the repository's own build decides what must compile
    objs, errs = compile_many(repo_units(), mode, strict=False)
    return objs, errs
def rt_objs():
    out = []
    for f in ("rt_libc.c", "rt_cxx.cpp"):
        src = os.path.join(VERIF, "rt", f); extra = ("-fno-builtin",) if f.endswith(".c") else ()
        o, e = compile_unit(src, "bc", extra)
        if not o: raise BuildError(e)
        out.append(o)
    return out
def engine():
    b = os.path.join(BUILD, "engine"); os.makedirs(b, exist_ok=True)
    r = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "engine"), "BUILD=" + b], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    return os.path.join(b, "symex")
def engine_path(): return os.path.join(BUILD, "engine", "symex")
HEXTRA = ("-fno-access-control", "-I" + VERIF + "/rt", "-I" + VERIF + "/harness")
def harness_bc(h):
    src = os.path.join(VERIF, "harness", h)
    o, e = compile_unit(src, "bc", HEXTRA)
    if not o: raise BuildError(e)
    objs, errs = repo_objs("bc"); rts = rt_objs()
    sel = select([o] + rts, objs)
    ins = [o] + [objs[s] for s in sel] + rts
    key = sha("\0".join(ins).encode()); ld = os.path.join(CACHE, "linked"); os.makedirs(ld, exist_ok=True); out = os.path.join(ld, key + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid(); ll = shutil.which("llvm-link-18") or "llvm-link"; op = shutil.which("opt-18") or "opt"
        r = subprocess.run([ll, "-o", tmp] + ins, capture_output=True, text=True)
        if r.returncode: raise BuildError("llvm-link: " + r.stderr[-2000:])
        r = subprocess.run([op, "-passes=internalize,globaldce", "-internalize-public-api-list=sym_main,_ZSt17__throw_bad_allocv,__cxa_throw_bad_array_new_length", "-o", tmp + "o", tmp], capture_output=True, text=True)
        if r.returncode: raise BuildError("opt: " + r.stderr[-2000:])
        os.unlink(tmp); os.replace(tmp + "o", out)
    else: os.utime(out)
    return [out], sel, errs
def harness_native(h, outdir):
    src = os.path.join(VERIF, "harness", h)
    o, e = compile_unit(src, "nat", HEXTRA)
    if not o: raise BuildError(e)
    rp, e = compile_unit(os.path.join(VERIF, "rt", "replay.cpp"), "nat", HEXTRA)
    if not rp: raise BuildError(e)
    objs, errs = repo_objs("nat"); sel = select([o, rp], objs)
    exe = os.path.join(outdir, "replay_" + os.path.splitext(h)[0])
    r = subprocess.run(["clang++", "-fsanitize=address", "-o", exe, o, rp] + [objs[s] for s in sel] + ["-luuid", "-lpthread"] + ["-Wl,--wrap=" + w for w in ("fopen", "fopen64", "mkdir", "remove", "unlink", "rmdir", "rename")], capture_output=True, text=True)
    if r.returncode: raise BuildError("link: " + r.stderr[-3000:])
    return exe
def prune_cache(max_bytes=6 << 30):
    fs = []
    for r, _, ns in os.walk(CACHE):
        for n in ns:
            p = os.path.join(r, n)
            try: st = os.stat(p); fs.append((st.st_mtime, st.st_size, p))
            except OSError: pass
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot <= max_bytes: break
        try: os.unlink(p); tot -= s
        except OSError: pass
if __name__ == "__main__":
    import time
    t = time.time(); engine(); print("engine %.1fs" % (time.time() - t)); t = time.time()
    rt_objs(); o, e = repo_objs("bc"); print("bitcode", len(o), "errors", len(e), "%.1fs" % (time.time() - t)); t = time.time()
    for x in e: print(x[:600])
    if "--bc-only" not in sys.argv:
        o, e = repo_objs("nat"); print("native", len(o), "errors", len(e), "%.1fs" % (time.time() - t))
