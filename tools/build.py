#!/usr/bin/env python3
"""Builds the simulation binaries from /repo's working tree. Objects are cached by content hash in /verif/build."""
import hashlib, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("FG_REPO", "/repo")
B = os.path.join(V, "build")

COMMON = ["-std=c++17", "-g1", "-DNDEBUG", "-DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=1", "-DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=1",
          "-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=0", "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=0", "-DFASTGLTF_USE_64BIT_FLOAT=0",
          "-I" + R + "/include", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
SAN = ["-fsanitize=address", "-fsanitize=bounds,vla-bound,object-size,null,integer-divide-by-zero,unreachable,return,bool,enum,builtin,alignment",
       "-fno-sanitize-recover=all"]
LIB = ["src/base64.cpp", "src/fastgltf.cpp", "src/io.cpp"]
SIM = ["core", "alloc", "vfs", "sched", "race", "driver"]

def targets():
    ck = sorted(os.path.basename(p)[:-4] for p in glob.glob(V + "/checks/*.cpp"))
    model = sorted(os.path.basename(p)[:-4] for p in glob.glob(V + "/model/*.cpp"))
    harness = COMMON + ["-O1", "-I" + V]
    main = []
    for s in LIB: main.append((os.path.join(R, s), COMMON + ["-O2"] + SAN))
    for s in SIM: main.append((V + "/sim/%s.cpp" % s, harness))
    for s in model: main.append((V + "/model/%s.cpp" % s, harness))
    for s in ck:
        if s.startswith("thr_"): continue
        main.append((V + "/checks/%s.cpp" % s, harness + SAN))
    thr = []
    tl = ["-O1", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize=thread"]
    for s in LIB: thr.append((os.path.join(R, s), COMMON + tl))
    for s in SIM + ["tsanrt"]: thr.append((V + "/sim/%s.cpp" % s, harness))
    for s in model: thr.append((V + "/model/%s.cpp" % s, harness))
    for s in ck:
        if s.startswith("thr_lib_"): thr.insert(3, (V + "/checks/%s.cpp" % s, COMMON + tl + ["-I" + V]))
        elif s.startswith("thr_"): thr.append((V + "/checks/%s.cpp" % s, harness))
    for s in ["common", "exporting"]: 
        if os.path.exists(V + "/checks/%s.cpp" % s): thr.append((V + "/checks/%s.cpp" % s, harness))
    return {"sim": (main, ["-fsanitize=address,undefined", "-rdynamic"]), "thr": (thr, ["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=malloc,--wrap=calloc,--wrap=realloc"])}

def content(p):
    with open(p, "rb") as f: return f.read()

def main():
    which = sys.argv[1:] or ["sim", "thr"]
    os.makedirs(B, exist_ok=True)
    lock = open(B + "/.lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    repo_h = hashlib.sha256()
    for p in sorted(glob.glob(R + "/include/**/*", recursive=True) + glob.glob(R + "/src/*")):
        if os.path.isfile(p) and not p.endswith(".cpp"): repo_h.update(p[len(R):].encode()); repo_h.update(content(p))
    my_h = hashlib.sha256()
    for p in sorted(glob.glob(V + "/sim/*.hpp") + glob.glob(V + "/model/*.hpp") + glob.glob(V + "/checks/*.hpp")): my_h.update(content(p))
    jobs, links = [], []
    used = set()
    for name, (srcs, lflags) in targets().items():
        if name not in which: continue
        if name == "thr" and not os.path.exists(V + "/sim/tsanrt.cpp"): continue
        objs = []
        for s, flags in srcs:
            h = hashlib.sha256(("\0".join([x for x in flags]) + s).encode() + content(s) + repo_h.digest() + (my_h.digest() if s.startswith(V) else b"")).hexdigest()[:24]
            o = "%s/%s-%s.o" % (B, os.path.basename(s)[:-4], h)
            used.add(o); objs.append(o)
            if not os.path.exists(o): jobs.append((s, flags, o))
        links.append((name, objs, lflags))
    def size(j): return -os.path.getsize(j[0])
    def comp(j):
        s, flags, o = j
        r = subprocess.run(["g++", "-c", s, "-o", o + ".tmp"] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: os.rename(o + ".tmp", o)
        return (s, r.returncode, r.stdout)
    bad = False
    jobs = sorted({j[2]: j for j in jobs}.values(), key=size)
    with ThreadPoolExecutor(8) as ex:
        for s, rc, out in ex.map(comp, jobs):
            if rc: bad = True; print("error compiling", s); print(out[:6000])
            elif out and "-v" in os.environ.get("FG_VERBOSE", ""): print(out[:3000])
    if bad: return 3
    for name, objs, lflags in links:
        h = hashlib.sha256(("\0".join(objs + lflags)).encode()).hexdigest()[:24]
        exe, stamp = B + "/" + name, B + "/" + name + ".stamp"
        if os.path.exists(exe) and os.path.exists(stamp) and content(stamp).decode() == h: continue
        r = subprocess.run(["g++"] + objs + ["-o", exe + ".tmp"] + lflags + ["-Wl,-Bstatic", "-lsimdjson_static", "-Wl,-Bdynamic", "-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: print("link failed", name); print(r.stdout[:6000]); return 3
        os.rename(exe + ".tmp", exe)
        with open(stamp, "w") as f: f.write(h)
    if not sys.argv[1:]:
        for o in glob.glob(B + "/*.o"):
            if o not in used: os.unlink(o)
    return 0
sys.exit(main())
