#!/usr/bin/env python3
"""Sensitivity measurement: random one-line mutants of the library, each run against all scenarios for a short time.
usage: mutants.py COUNT [SEED] [SECONDS_PER_CHECK] [FIRST_LINE-LAST_LINE]   (works in /tmp/mut, results in /tmp/mut/results.jsonl)
The survivors are either equivalent, outside the properties, or gaps."""
import sys, os, re, random, subprocess, json, hashlib, glob, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv, argv = [sys.argv[0], "sim"], sys.argv
R = "/repo"; W = "/tmp/mut"
count = int(argv[1]); seed = int(argv[2]) if len(argv) > 2 else 1; secs = argv[3] if len(argv) > 3 else "12"
lo, hi = (int(x) for x in argv[4].split("-")) if len(argv) > 4 else (1, 10**9)
src = (argv[5] if len(argv) > 5 else "src/fastgltf.cpp")
ORDER = ["C24", "C25", "C12", "C18", "C06", "C17", "C03", "C04", "C01", "C07", "C09", "C16", "C10", "C13", "C14", "C15", "C02", "C05", "C11"]
rng = random.Random(seed)
text = open(f"{R}/{src}").read().split("\n")

def mutations(l):
    out = []
    s = l.strip()
    if not s or s.startswith(("//", "*", "/*", "#", "static_assert", "namespace", "template", "using")): return out
    code = l
    def sub(pat, rep, name):
        for m in re.finditer(pat, code):
            r = rep(m) if callable(rep) else m.expand(rep)
            out.append((name, code[:m.start()] + r + code[m.end():]))
    sub(r" == ", " != ", "eq"); sub(r" != ", " == ", "ne")
    sub(r" < ", " <= ", "lt"); sub(r" > ", " >= ", "gt"); sub(r" <= ", " < ", "le"); sub(r" >= ", " > ", "ge")
    sub(r" && ", " || ", "and"); sub(r" \|\| ", " && ", "or")
    sub(r" \+ ", " - ", "plus"); sub(r" - ", " + ", "minus")
    sub(r"\bif \((?!const|auto|!|\(|constexpr)(.*)\) ?(\{?)", r"if (!(\1)) \2", "negif")
    sub(r"\bif \(!(.*)\) ?(\{?)", r"if (\1) \2", "posif")
    sub(r"(?<![\w.\"x])(\d+)(U|u|f)?(?=[;,) \]])", lambda m: str(int(m.group(1)) + 1) + (m.group(2) or ""), "num")
    sub(r'"([A-Za-z_]\w{2,})"', r'"\1_"', "str")
    sub(r"\bAlphaMode::Mask\b", "AlphaMode::Blend", "enum")
    sub(r"\btrue\b", "false", "true"); sub(r"\bfalse\b", "true", "false")
    if re.match(r"^\t+[\w:.\->\[\]()*&, ]+( = |\.|->|\().*;$", l) and not s.startswith(("auto", "const", "std::", "return", "using", "size_t", "static", "struct", "bool", "char", "break", "continue", "case")):
        out.append(("del", re.match(r"^\t+", l).group(0) + ";"))
    if re.match(r"^\t+return (Error::\w+);$", l) : out.append(("noerr", re.match(r"^\t+", l).group(0) + ";"))
    if s in ("break;", "continue;"): out.append(("nob", re.match(r"^\s*", l).group(0) + ";"))
    return out

cands = []
for i, l in enumerate(text):
    if not (lo <= i + 1 <= hi): continue
    for n, m in mutations(l): cands.append((i, n, m))
rng.shuffle(cands)
seen = set(); pick = []
for c in cands:
    if c[0] in seen: continue
    seen.add(c[0]); pick.append(c)
    if len(pick) >= count: break
print(len(cands), "possible,", len(pick), "picked", flush=True)

spec = {}
exec(compile(open(V + "/tools/build.py").read().split("def content")[0], "build", "exec"), {"__file__": V + "/tools/build.py", "__name__": "b"}, spec) if False else None
import importlib.util
src_text = open(V + "/tools/build.py").read().replace("sys.exit(main())", "")
ns = {"__file__": V + "/tools/build.py"}
exec(compile(src_text, "build", "exec"), ns)
os.makedirs(W, exist_ok=True)
objdir = W + "/obj"; os.makedirs(objdir, exist_ok=True)
main, lflags = ns["targets"]()["sim"]
base = {}
def comp(s, flags, o):
    return subprocess.run(["g++", "-c", s, "-o", o] + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def prep(x):
    s, flags = x
    o = "%s/%s.o" % (objdir, hashlib.md5(s.encode()).hexdigest()[:8] + os.path.basename(s))
    h = o + ".h"; k = hashlib.md5(open(s, "rb").read() + " ".join(flags).encode()).hexdigest()
    if not (os.path.exists(o) and os.path.exists(h) and open(h).read() == k and not os.environ.get("FRESH")):
        r = comp(s, flags, o)
        assert r.returncode == 0, r.stdout[:2000]
        open(h, "w").write(k)
    base[s] = (o, flags)
with ThreadPoolExecutor(8) as ex: list(ex.map(prep, main))
target = f"{R}/{src}"
res = open(W + "/results.jsonl", "a")
def one(c):
    i, n, m = c
    d = f"{W}/m{os.getpid()}_{i}_{n}"; os.makedirs(d, exist_ok=True)
    rec = {"src": src, "line": i + 1, "kind": n, "old": text[i].strip(), "new": m.strip()}
    try:
        t = list(text); t[i] = m
        f = d + "/" + os.path.basename(src); open(f, "w").write("\n".join(t))
        flags = [x if x != "-O2" else "-O1" for x in base[target][1]] + ["-I" + R + "/src"]
        r = comp(f, flags, d + "/o.o")
        if r.returncode: rec["result"] = "nocompile"; return rec
        objs = [base[s][0] if s != target else d + "/o.o" for s, _ in main]
        r = subprocess.run(["g++"] + objs + ["-o", d + "/sim"] + lflags + ["-Wl,-Bstatic", "-lsimdjson_static", "-Wl,-Bdynamic", "-ldl", "-lpthread"], capture_output=True, text=True)
        if r.returncode: rec["result"] = "nolink"; return rec
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:symbolize=0", UBSAN_OPTIONS="print_stacktrace=0:symbolize=0")
        for p in ORDER:
            try: r = subprocess.run([d + "/sim", "--prop", p, "--seed", "1", "--time", secs, "--runs", "100000000", "--jobs", "1", "--mintime", "0", "--replays", d], env=env, capture_output=True, text=True, timeout=180)
            except subprocess.TimeoutExpired: rec["result"] = "timeout " + p; return rec
            if r.returncode == 1:
                rec["result"] = "killed"; rec["by"] = p
                ls = [x for x in r.stdout.split("\n") if x and not x.startswith("VIOLATION")]
                rec["msg"] = (ls[0] if ls else "")[:160]
                return rec
        rec["result"] = "SURVIVED"
        return rec
    finally: shutil.rmtree(d, ignore_errors=True)
n = {}
with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
    for rec in ex.map(one, pick):
        n[rec["result"]] = n.get(rec["result"], 0) + 1
        res.write(json.dumps(rec) + "\n"); res.flush()
        if rec["result"] != "killed" and rec["result"] != "nocompile": print(rec, flush=True)
print(n)
