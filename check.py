#!/usr/bin/env python3
"""Builds Blend2D from the current /repo tree together with one harness and runs it.

  python3 check.py --setup                 build the library variants and every harness
  python3 check.py C01 [--tier thorough]   decide one property (VERIF_SEED, VERIF_TIER from the environment)
  python3 check.py C01 --replay FILE       re-run one saved failure
  python3 check.py C01 --print 3           show generated cases
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
NCPU = os.cpu_count() or 4
HARN = os.path.join(HERE, "harness")

COMMON = ["-std=c++17", "-DNDEBUG", "-DBL_STATIC", "-DBL_BUILD_VERIF_HOOKS"]
LIBDEF = ["-DBL_BUILD_OPT_AVX512", "-DBL_BUILD_NO_JIT", "-DBL_BUILD_NO_STDCXX", "-fno-math-errno", "-fno-threadsafe-statics",
          "-fno-exceptions", "-fno-rtti", "-fno-trapping-math", "-w", "-fno-semantic-interposition"]
ASAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"]
VARIANTS = {
    "asan": dict(cxx="clang++", flags=["-O2", "-gline-tables-only", "-fno-omit-frame-pointer"] + ASAN,
                 lib=["-fsanitize-coverage=inline-8bit-counters"], link=ASAN, harness=["-DPBT_COVERAGE", "-DPBT_ASAN"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=thread"], lib=[],
                 link=["-fsanitize=thread"], harness=[]),
    "fast": dict(cxx="g++", flags=["-O2"], lib=[], link=[], harness=["-w"]),
}
SIMD = [("_ssse3.cpp", ["-mssse3"]), ("_sse4_2.cpp", ["-mpopcnt", "-mpclmul", "-msse4.2"]),
        ("_avx.cpp", ["-mpopcnt", "-mpclmul", "-mavx"]),
        ("_avx2.cpp", ["-mpopcnt", "-mpclmul", "-mbmi", "-mbmi2", "-mavx2", "-DBL_TARGET_OPT_POPCNT", "-DBL_TARGET_OPT_BMI2"]),
        ("_avx512.cpp", ["-mavx512f", "-mavx512bw", "-mavx512dq", "-mavx512cd", "-mavx512vl", "-mbmi", "-mbmi2", "-mpopcnt", "-mpclmul"])]
SLOW = ["fixedpiperuntime", "otlayout", "pathstroke", "bitset", "array.cpp", "path.cpp", "rastercontext", "pixelconverter", "deflate", "otcff", "jpeg", "imagescale"]

_h = {}
def fhash(p):
    if p not in _h:
        try:
            with open(p, "rb") as f: _h[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError: _h[p] = "missing"
    return _h[p]

def rel(p):
    p = os.path.normpath(p)
    if p.startswith(REPO + "/"): return "@R/" + p[len(REPO) + 1:]
    if p.startswith(HERE + "/"): return "@V/" + p[len(HERE) + 1:]
    return p
def unrel(p): return p.replace("@R/", REPO + "/", 1) if p.startswith("@R/") else p.replace("@V/", HERE + "/", 1) if p.startswith("@V/") else p

class BuildError(Exception): pass

def compile_one(src, obj, cxx, flags):
    man = obj + ".json"
    key = [cxx] + [f.replace(REPO, "@R").replace(HERE, "@V") for f in flags]
    if os.path.exists(obj) and os.path.exists(man):
        try:
            m = json.load(open(man))
            if m["key"] == key and all(fhash(unrel(p)) == h for p, h in m["deps"].items()): return False
        except Exception: pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run([cxx] + flags + ["-MMD", "-MF", obj + ".d", "-c", src, "-o", obj + ".tmp"], capture_output=True, text=True)
    if r.returncode != 0: raise BuildError(f"{src}: {r.stderr[-3000:]}")
    d = open(obj + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
    json.dump({"key": key, "deps": {rel(p): fhash(os.path.normpath(p)) for p in d}}, open(man + ".tmp", "w"))
    os.replace(obj + ".tmp", obj); os.replace(man + ".tmp", man); os.remove(obj + ".d")
    return True

def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "blend2d")):
        if "pipeline/jit" in d: continue
        for f in fs:
            if f.endswith(".cpp") and not re.search(r"_test(_[a-z0-9_]+)?\.cpp$", f) and "asimd" not in f: out.append(os.path.join(d, f))
    return sorted(out)

def slow_rank(s):
    for i, k in enumerate(SLOW):
        if k in s: return i
    return 99

def build_lib(variant, pool):
    v = VARIANTS[variant]
    jobs = []
    for s in sorted(lib_sources(), key=slow_rank):
        fl = COMMON + LIBDEF + v["flags"] + v["lib"] + ["-I" + REPO]
        for suf, extra in SIMD:
            if s.endswith(suf): fl = fl + extra
        obj = os.path.join(BUILD, variant, os.path.relpath(s, REPO).replace("/", "_") + ".o")
        jobs.append((obj, pool.submit(compile_one, s, obj, v["cxx"], fl)))
    return jobs

def harness_conf(pid):
    conf = {"VARIANT": ["asan"], "LINK": []}
    for line in open(os.path.join(HARN, pid + ".cpp")):
        m = re.match(r"// (VARIANT|LINK): (.*)", line)
        if m: conf[m.group(1)] = m.group(2).split()
    return conf

def link(out, objs, v, extra):
    key = hashlib.sha256(("\n".join(fhash(o) for o in objs) + repr(extra) + repr(v["link"])).encode()).hexdigest()
    if os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == key: return
    r = subprocess.run([v["cxx"], "-o", out + ".tmp"] + objs + v["link"] + extra + ["-lpthread", "-lm", "-lrt"], capture_output=True, text=True)
    if r.returncode != 0: raise BuildError(f"link {out}: {r.stderr[-3000:]}")
    os.replace(out + ".tmp", out)
    with open(out + ".key", "w") as f: f.write(key)

def build(pids, variant_override=None):
    """Returns {pid: {variant: exe}}"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    _h.clear()
    try:
        with cf.ThreadPoolExecutor(NCPU) as pool:
            need = {}
            for p in pids:
                for v in (variant_override or harness_conf(p)["VARIANT"]): need.setdefault(v, []).append(p)
            libs = {v: build_lib(v, pool) for v in need}
            hobjs = {}
            for v, ps in need.items():
                V = VARIANTS[v]
                for p in ps:
                    obj = os.path.join(BUILD, v, "h_" + p + ".o")
                    fl = COMMON + V["flags"] + V["harness"] + ["-Wall", "-Wno-unused-function", "-I" + REPO, "-I" + HARN]
                    if v != "fast" : fl.append("-Wno-unused-variable")
                    hobjs[p, v] = (obj, pool.submit(compile_one, os.path.join(HARN, p + ".cpp"), obj, V["cxx"], fl))
                if v == "asan":
                    obj = os.path.join(BUILD, v, "h_pbt_cov.o")
                    hobjs["cov", v] = (obj, pool.submit(compile_one, os.path.join(HARN, "pbt_cov.cpp"), obj, V["cxx"], ["-O2"]))
            errs = []
            for js in list(libs.values()) + [hobjs.values()]:
                for _, f in js:
                    try: f.result()
                    except BuildError as e: errs.append(str(e))
            if errs: raise BuildError("\n".join(errs[:5]))
            exes, links = {}, []
            for v, ps in need.items():
                base = [o for o, _ in libs[v]] + ([hobjs["cov", v][0]] if v == "asan" else [])
                for o in base: fhash(o)
                for p in ps:
                    out = os.path.join(BUILD, v, "run_" + p)
                    _h.pop(hobjs[p, v][0], None)
                    links.append(pool.submit(link, out, [hobjs[p, v][0]] + base, VARIANTS[v], harness_conf(p)["LINK"]))
                    exes.setdefault(p, {})[v] = out
            for l in links: l.result()
            return exes
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN); lock.close()

def all_ids(): return sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(HARN, "C*.cpp")))

def known_entries(pid):
    p = os.path.join(HERE, "known_findings.jsonl"); out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                e = json.loads(line)
                if e["property"] == pid and e["status"] == "known": out.append(e)
    return out

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:exitcode=99:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:external_symbolizer_path=/usr/bin/llvm-symbolizer:quarantine_size_mb=16:malloc_context_size=8"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
ENV["TSAN_OPTIONS"] = "exitcode=97:halt_on_error=1:report_signal_unsafe=0:history_size=4"
ENV.pop("LD_PRELOAD", None)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?"); ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay"); ap.add_argument("--print", type=int); ap.add_argument("--sub"); ap.add_argument("--mult"); ap.add_argument("--deadline", type=float)
    ap.add_argument("--build-only", action="store_true"); ap.add_argument("--variant"); ap.add_argument("--workers")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"): a.tier = "quick"
    try: seed = int(a.seed) & (2**63 - 1)
    except ValueError: seed = 1
    if a.setup:
        exes = build(all_ids()); print("built", len(exes), "harnesses in %.0fs" % (time.time() - T0)); return 0
    pid = a.id
    vo = [a.variant] if a.variant else None
    try: exes = build([pid], vo)
    except BuildError as e:
        print("clang/sanitizer build failed, falling back to plain g++:\n" + str(e)[:2000], file=sys.stderr)
        try: exes = build([pid], ["fast"])
        except BuildError as e2: print(str(e2)[:4000], file=sys.stderr); return 3
    if a.build_only: return 0
    exe = list(exes[pid].values())[0]
    outdir = os.path.join(HERE, "out", "replays"); os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.replay and not a.print:
        for f in glob.glob(os.path.join(outdir, pid + "-*.replay")): os.remove(f)
    scratch = os.path.join("/tmp", f"verif_{pid}_{os.getpid()}"); os.makedirs(scratch, exist_ok=True)
    env = dict(ENV); env["VERIF_SCRATCH"] = scratch; env["VERIF_REPO"] = REPO; env["VERIF_TIER"] = a.tier
    args = []
    kn = known_entries(pid)
    for e in kn: args += ["--known", e["sub"], e["match"], e["what"]]
    try:
        if a.replay:
            rp = a.replay if os.path.isabs(a.replay) else os.path.join(HERE, a.replay)
            return subprocess.run([exe, "--replay", rp], env=env).returncode
        if a.print: return subprocess.run([exe, "--print", str(a.print), "--seed", str(seed)] + (["--sub", a.sub] if a.sub else []), env=env).returncode
        limit = a.deadline or ((780 if a.tier == "quick" else 3000) - (time.time() - T0))
        cmd = [exe, "--tier", a.tier, "--seed", str(seed), "--out", outdir, "--evidence", os.path.join(HERE, "evidence", pid + ".json"), "--deadline", str(max(30, limit)), "--workers", a.workers or str(NCPU)] + args
        if a.sub: cmd += ["--sub", a.sub]
        if a.mult: cmd += ["--mult", a.mult]
        for e in kn:
            if e.get("replay"):
                r = subprocess.run([exe, "--replay", os.path.join(HERE, e["replay"])], env=env, capture_output=True, text=True)
                if r.returncode == 1: print(f"KNOWN-FINDING: property={pid} {e['what']}", flush=True)
        rc = subprocess.run(cmd, env=env).returncode
        return rc if rc in (0, 1) else 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__": sys.exit(main())
