#!/usr/bin/env python3
"""Runs the solver-based check of one property.

usage: check.py <property> [quick|thorough]     decide a property
       check.py --setup                         build the executor, bitcode of the library, native objects
       check.py <property> --entry NAME         only one harness entry (development)

Every run: (re)compiles /repo's current sources to LLVM bitcode (content-hash cache), links the harness,
symbolically executes each harness entry over all inputs within the stated bounds, replays every
counterexample on natively compiled real code, replays sampled path witnesses (translator validation),
and writes evidence/<property>.json.
"""
import sys, os, json, subprocess, hashlib, time, glob, fcntl, shutil, re, random
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "cpp/lib_moment")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
LLVM = "/usr/lib/llvm-18/bin/"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
GXX = shutil.which("g++-12") or shutil.which("g++") or "g++"
PLUGIN = '-DEIGEN_SPARSEMATRIX_PLUGIN="%s/engine/shim/sx_sparse_plugin.h"' % V
CLANG_FLAGS = ["--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/12", "-std=c++20", "-O2", "-DNDEBUG", "-fno-vectorize", "-fno-slp-vectorize",
               "-fno-unroll-loops", "-fno-pic", "-fno-pie", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DEIGEN_DONT_VECTORIZE", PLUGIN, "-include", V + "/engine/shim/sx_prelude.h",
               "-I", V + "/engine/shim", "-I", V + "/engine", "-I", V + "/harness", "-I", SRC, "-isystem", "/usr/include/eigen3", "-w"]
NAT_FLAGS = ["-std=c++20", "-O1", "-g1", "-DNDEBUG", PLUGIN, "-include", "numeric", "-ffunction-sections", "-fdata-sections", "-w",
             "-I", V + "/engine", "-I", V + "/harness", "-I", SRC, "-isystem", "/usr/include/eigen3"]
UNBUILDABLE = set()

class BuildError(Exception): pass

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
def fhash(p, cache={}):
    try:
        st = os.stat(p); k = (p, st.st_mtime_ns, st.st_size)
        if k not in cache: cache[k] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        return cache[k]
    except OSError: return "missing"

def deps_of(d):
    try: t = open(d).read()
    except OSError: return None
    t = t.replace("\\\n", " ")
    return [x for x in t.split(":", 1)[1].split() if not x.startswith("/usr/")]

def compile_cached(cmd, src, out):
    """compile src -> out unless dependencies' contents are unchanged"""
    dep = out + ".d"; sig = out + ".sig"
    tag = hashlib.sha1(" ".join(cmd).encode()).hexdigest()
    ds = deps_of(dep)
    if ds is not None and os.path.exists(out) and os.path.exists(sig):
        cur = tag + "".join(fhash(x) for x in sorted(set(ds)))
        if open(sig).read() == hashlib.sha1(cur.encode()).hexdigest(): return False
    tmp = out + ".tmp%d" % os.getpid()
    r = run(cmd + ["-MD", "-MF", dep, src, "-o", tmp])
    if r.returncode: raise BuildError("compilation of %s failed:\n%s" % (src, r.stderr[-3000:]))
    os.replace(tmp, out)
    cur = tag + "".join(fhash(x) for x in sorted(set(deps_of(dep))))
    open(sig, "w").write(hashlib.sha1(cur.encode()).hexdigest())
    return True

def lib_sources():
    r = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(".cpp"):
                p = os.path.relpath(os.path.join(d, f), SRC)
                if p not in UNBUILDABLE: r.append(p)
    return sorted(r)

def objname(p): return p.replace("/", "__")

def build_engine():
    r = run([V + "/engine/build.sh", B])
    if r.returncode or not os.path.exists(B + "/sx"): raise BuildError("engine build failed\n" + r.stdout[-2000:] + r.stderr[-3000:])

def build_lib():
    os.makedirs(B + "/bc", exist_ok=True)
    srcs = lib_sources()
    def one(p): return compile_cached([LLVM + "clang++"] + CLANG_FLAGS + ["-emit-llvm", "-c"], os.path.join(SRC, p), B + "/bc/" + objname(p) + ".bc")
    with ThreadPoolExecutor(JOBS) as ex: ch = list(ex.map(one, srcs))
    rt = compile_cached([LLVM + "clang++"] + CLANG_FLAGS + ["-emit-llvm", "-c"], V + "/engine/rt.cpp", B + "/rt.bc")
    outs = [B + "/bc/" + objname(p) + ".bc" for p in srcs]
    key = hashlib.sha1(("".join(srcs) + "".join(fhash(o) for o in outs) + fhash(B + "/rt.bc")).encode()).hexdigest()
    kf = B + "/lib.key"
    if not os.path.exists(B + "/lib.bc") or not os.path.exists(kf) or open(kf).read() != key:
        r = run([LLVM + "llvm-link"] + outs + [B + "/rt.bc", "-o", B + "/lib.bc"])
        if r.returncode: raise BuildError("llvm-link: " + r.stderr[-2000:])
        open(kf, "w").write(key)
    # strong symbol -> TU
    sm = B + "/symmap.json"; sk = B + "/symmap.key"
    if not os.path.exists(sm) or not os.path.exists(sk) or open(sk).read() != key:
        m = {}
        for p, o in zip(srcs, outs):
            for l in run([LLVM + "llvm-nm", "--defined-only", o]).stdout.splitlines():
                f = l.split()
                if len(f) == 3 and f[1] in "TDBR": m[f[2]] = p
        json.dump(m, open(sm, "w")); open(sk, "w").write(key)
    return json.load(open(sm))

def link_harness(prop, files, entries, symmap):
    os.makedirs(B + "/h", exist_ok=True)
    hb = []
    def hc(f):
        o = B + "/h/" + f + ".bc"
        compile_cached([LLVM + "clang++"] + CLANG_FLAGS + ["-emit-llvm", "-c"], V + "/harness/" + f, o); return o
    with ThreadPoolExecutor(JOBS) as ex: hb = list(ex.map(hc, files))
    tag = "%s/h/%s" % (B, prop)
    r = run([LLVM + "llvm-link"] + hb + ["--only-needed", B + "/lib.bc", "-o", tag + ".all.bc"])
    if r.returncode: raise BuildError("llvm-link: " + r.stderr[-2000:])
    r = run([LLVM + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries + ["__dso_handle", "sx_errno_storage"]), tag + ".all.bc", "-o", tag + ".bc"])
    if r.returncode: raise BuildError("opt: " + r.stderr[-2000:])
    os.remove(tag + ".all.bc")
    tus = set()
    und = []
    for l in run([LLVM + "llvm-nm", tag + ".bc"]).stdout.splitlines():
        f = l.split(); s = f[-1]
        if s in symmap: tus.add(symmap[s])
    return tag + ".bc", sorted(tus)

NATIVE = {}
def build_native(prop, files, tus, symmap, asan=False):
    d = B + ("/nat_asan" if asan else "/nat"); os.makedirs(d, exist_ok=True)
    flags = NAT_FLAGS + (["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else [])
    jobs = [(os.path.join(SRC, p), d + "/" + objname(p) + ".o") for p in tus] + [(V + "/harness/" + f, d + "/" + f + ".o") for f in files] + [(V + "/engine/native_rt.cpp", d + "/native_rt.o")]
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(lambda j: compile_cached([GXX] + flags + ["-c"], j[0], j[1]), jobs))
    exe = d + "/" + prop
    r = run([GXX] + (["-fsanitize=address"] if asan else []) + [j[1] for j in jobs] + ["-o", exe, "-rdynamic", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy", "-ldl", "-lpthread"])
    if r.returncode: raise BuildError("native link: " + r.stderr[-3000:])
    NATIVE[exe] = (prop, files, tus, symmap, asan)
    return exe

def native_run(exe, entry, inputs, params, timeout=20):
    # translation units whose code only the native build needs are added on demand
    for _ in range(40):
        r = native_run1(exe, entry, inputs, params, timeout)
        m = re.search(r"undefined symbol: (\S+)", r[1]) if r[2] == 127 else None
        if not m or exe not in NATIVE or m.group(1) not in NATIVE[exe][3]: return r
        prop, files, tus, symmap, asan = NATIVE[exe]
        tu = symmap[m.group(1)]
        if tu in tus: return r
        tus.append(tu)
        try: build_native(prop, files, tus, symmap, asan)
        except BuildError: return r
    return r

def native_run1(exe, entry, inputs, params, timeout=20):
    os.makedirs(B + "/tmp", exist_ok=True)
    f = "%s/tmp/in.%d.%d" % (B, os.getpid(), random.getrandbits(40))
    with open(f, "w") as o:
        for k, v in params.items(): o.write("@%s %d\n" % (k, v))
        for k, v in inputs: o.write("%s %d\n" % (k, v))
    try:
        p = subprocess.run([exe, entry, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0"))
        out, err, rc, to = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), p.returncode, False
    except subprocess.TimeoutExpired as e:
        out, err, rc, to = (e.stdout or b"").decode(errors="replace"), "", -999, True
    os.unlink(f)
    return out, err, rc, to

def merge(res):
    m = {}
    for r in res:
        for k, v in r.items():
            if k in ("errors", "witnesses"): m.setdefault(k, []).extend(v)
            elif k == "asserts":
                d = m.setdefault(k, {})
                for a, s in v.items():
                    t = d.setdefault(a, {})
                    for x, n in s.items(): t[x] = t.get(x, 0) + n
            elif k == "params": m.setdefault(k, {}).update(v)
            elif isinstance(v, dict):
                d = m.setdefault(k, {})
                for a, n in v.items(): d[a] = d.get(a, 0) + n
            elif k in ("wall", "max_query"): m[k] = max(m.get(k, 0), v)
            else: m[k] = m.get(k, 0) + v
    return m

def run_entry(prop, bc, e, tier, seed, tlimit):
    out = "%s/tmp/%s.%s.json" % (B, prop, e["name"]) ; os.makedirs(B + "/tmp", exist_ok=True)
    for f in glob.glob(out + ".*"): os.unlink(f)
    params = dict(e.get("params", {})); params.update(e.get(tier, {}))
    jobs = e.get("jobs", JOBS)
    cmd = [B + "/sx", "--entry", e.get("fn", e["name"]), "--out", out, "--time", str(tlimit), "--jobs", str(min(jobs, JOBS)), "--witnesses", str(e.get("witnesses", 4)), "--seed", str(seed)]
    if "max_steps" in e: cmd += ["--max-steps", str(e["max_steps"])]
    for k, v in params.items(): cmd += ["--param", "%s=%d" % (k, v)]
    cmd.append(bc)
    t0 = time.time()
    try: r = subprocess.run(["bash", "-c", "ulimit -v %d; exec \"$@\"" % (6 * 1024 * 1024), "sx"] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=tlimit + 120)
    except subprocess.TimeoutExpired: return {"incomplete": {"executor timeout": 1}, "errors": [], "witnesses": [], "asserts": {}, "reached": {}, "functions": {}, "enum_where": {}}, params
    res = []
    for f in sorted(glob.glob(out + ".*")):
        try: res.append(json.load(open(f)))
        except Exception as ex: res.append({"incomplete": {"unreadable result": 1}})
        os.unlink(f)
    m = merge(res)
    if r.returncode or not res: m.setdefault("incomplete", {})["executor exit %d %s" % (r.returncode, r.stderr[-300:])] = 1
    for k in ("errors", "witnesses"): m.setdefault(k, [])
    for k in ("asserts", "reached", "incomplete", "functions", "enum_where"): m.setdefault(k, {})
    m["wall"] = time.time() - t0
    return m, params

def parse_native(out):
    obs, fails = [], []
    for l in out.splitlines():
        p = l.split(" ", 2)
        if p[0] == "OBS" and len(p) == 3: obs.append([p[1], p[2]])
        elif p[0] == "ASSERT-FAIL": fails.append(l[len("ASSERT-FAIL "):])
    return obs, fails

def confirm(err, out, errtxt, rc, to):
    obs, fails = parse_native(out)
    k = err["kind"]
    if k == "assert": return err["msg"] in fails or rc < 0 or to
    if k == "hang": return to
    if k == "memory": return "AddressSanitizer" in errtxt or rc < 0
    if k == "uncaught": return "UNCAUGHT" in out or "terminate called" in errtxt or rc < 0
    if k == "crash": return rc < 0 or "AddressSanitizer" in errtxt or "terminate called" in errtxt or to
    return False

def same_obs(a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if x[0] != y[0]: return False
        if x[1] != y[1]:
            try:
                p, q = float(x[1]), float(y[1])
                if abs(p - q) > 1e-9 * max(1, abs(p), abs(q)): return False
            except ValueError: return False
    return True

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        os.makedirs(B, exist_ok=True)
        lk = open(B + "/lock", "w"); fcntl.flock(lk, fcntl.LOCK_EX)
        build_engine(); symmap = build_lib()
        import specs
        for p, s in sorted(specs.SPECS.items()):
            ents = sorted(set(e.get("fn", e["name"]) for e in s["entries"] + s.get("findings", [])))
            bc, tus = link_harness(p, s["harness"], ents, symmap); build_native(p, s["harness"], tus, symmap)
        print("setup complete"); return 0
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else "quick"
    only = sys.argv[sys.argv.index("--entry") + 1] if "--entry" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, V)
    import specs
    spec = specs.SPECS[prop]
    t0 = time.time()
    os.makedirs(B, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    lk = open(B + "/lock", "w"); fcntl.flock(lk, fcntl.LOCK_EX)
    findings = spec.get("findings", [])
    entries = spec["entries"]
    if only: entries = [e for e in entries if e["name"] == only]
    if tier == "quick": entries = [e for e in entries if not e.get("thorough_only")]
    ents = sorted(set(e.get("fn", e["name"]) for e in spec["entries"] + findings))
    try:
        build_engine(); symmap = build_lib()
        bc, tus = link_harness(prop, spec["harness"], ents, symmap)
        nat_future = ThreadPoolExecutor(1).submit(build_native, prop, spec["harness"], tus, symmap)
        exe = nat_future.result()
    except BuildError as ex:
        print("BUILD-ERROR " + str(ex)); return 2
    fcntl.flock(lk, fcntl.LOCK_UN)
    tbuild = time.time() - t0
    budget = (spec.get("budget", 420) if tier == "quick" else spec.get("thorough_budget", 3000))
    tot = {}; per = {}; violations = []; unconfirmed = []; incomplete = {}; validated = 0; mismatches = []; samples = []; assertions = {}; functions = {}; reach_missing = []
    asan_exe = None; known_lines = []
    kf = json.load(open(V + "/known_findings.json")) if os.path.exists(V + "/known_findings.json") else []
    for e in entries:
        left = budget - (time.time() - t0 - tbuild)
        m, params = run_entry(prop, bc, e, tier, seed, max(10, min(left, e.get("time", budget))))
        per[e["name"]] = m
        for k in ("paths", "completed", "forks", "enum_forks", "steps", "sym_branches", "queries", "sat", "unsat", "unknown", "solver_time"): tot[k] = tot.get(k, 0) + m.get(k, 0)
        for k, v in m["functions"].items(): functions[k] = functions.get(k, 0) + v
        for k, v in m["incomplete"].items(): incomplete[e["name"] + ": " + k] = v
        for a, s in m["asserts"].items(): assertions[e["name"] + ":" + a] = s
        pp = m.get("params", {}); pp.update(params)
        # counterexamples: replay on the real code
        for er in m["errors"]:
            need_asan = er["kind"] in ("memory", "crash")
            out, et, rc, to = native_run(exe, e.get("fn", e["name"]), er["inputs"], pp)
            ok = confirm(er, out, et, rc, to)
            if not ok and need_asan:
                try:
                    if not asan_exe: asan_exe = build_native(prop, spec["harness"], tus, symmap, asan=True)
                    out, et, rc, to = native_run(asan_exe, e.get("fn", e["name"]), er["inputs"], pp, 60); ok = confirm(er, out, et, rc, to)
                except BuildError as ex: et = str(ex)
            rec = {"property": prop, "entry": e["name"], "fn": e.get("fn", e["name"]), "params": pp, "kind": er["kind"], "msg": er["msg"], "where": er["where"], "stack": er["stack"], "inputs": er["inputs"], "replay_stdout": out[-2000:], "replay_stderr": et[-1500:], "replay_rc": rc, "confirmed": ok}
            (violations if ok else unconfirmed).append(rec)
        if not m["errors"]:
            for r in e.get("reach", ["end"]):
                if not m["reached"].get(r): reach_missing.append(e["name"] + ":" + r)
        # translator validation
        for w in m["witnesses"][: int(os.environ["VERIF_WITNESSES"]) if "VERIF_WITNESSES" in os.environ else 12 if tier == "quick" else 48]:
            out, et, rc, to = native_run(exe, e.get("fn", e["name"]), w["inputs"], pp)
            obs, fails = parse_native(out)
            if rc == 0 and same_obs(obs, w["trace"]): validated += 1
            else: mismatches.append({"entry": e["name"], "inputs": w["inputs"], "engine": w["trace"][:40], "native": obs[:40], "rc": rc, "out": out[-500:], "err": et[-500:]})
            if len(samples) < 6 and w["inputs"]: samples.append({"entry": e["name"], "inputs": dict((k, v) for k, v in w["inputs"]), "observed": w["trace"][:12]})
    # recorded findings
    for f in findings:
        m, params = run_entry(prop, bc, f, tier, seed, 120)
        hit = False; pp = m.get("params", {}); pp.update(params)
        for er in m["errors"]:
            out, et, rc, to = native_run(exe, f.get("fn", f["name"]), er["inputs"], pp)
            if confirm(er, out, et, rc, to):
                if f.get("match", "") in er["msg"]: hit = True
                else: violations.append({"property": prop, "entry": f["name"], "kind": er["kind"], "msg": er["msg"], "inputs": er["inputs"], "params": pp, "confirmed": True})
            elif er["kind"] in ("memory", "crash"):
                if not asan_exe: asan_exe = build_native(prop, spec["harness"], tus, symmap, asan=True)
                out, et, rc, to = native_run(asan_exe, f.get("fn", f["name"]), er["inputs"], pp, 60); hit = hit or confirm(er, out, et, rc, to)
        listed = any(k.get("property") == prop and k.get("entry") == f["name"] and k.get("status") == "known" for k in kf)
        if hit and listed: known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        elif hit: violations.append({"property": prop, "entry": f["name"], "kind": "finding", "msg": f["what"], "inputs": m["errors"][0]["inputs"], "params": pp, "confirmed": True})
    rdir = V + "/evidence/replay"; os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(rdir + "/" + prop + ".*"): os.unlink(f)
    for i, v in enumerate(violations):
        v["path"] = "%s/%s.%d.json" % (rdir, prop, i); v["rerun"] = "write the inputs as 'name value' lines (params as '@name value') to F; %s %s F" % (exe, v.get("fn", v["entry"])); json.dump(v, open(v["path"], "w"), indent=1)
    for i, v in enumerate(unconfirmed + mismatches): json.dump(v, open("%s/%s.unconfirmed.%d.json" % (rdir, prop, i), "w"), indent=1)
    exhaustive = not incomplete and not unconfirmed and not violations
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot.get("paths", 0), "transitions": tot.get("forks", 0), "traces_validated_against_impl": validated,
                       "samples": samples, "exhaustive": exhaustive,
                       "explanation": "states = symbolic execution paths (each a path condition covering all inputs that follow it); transitions = solver-decided forks; every assertion below was decided by the solver (or constant-folded) on every path within the bounds.",
                       "bounds": {e["name"]: per[e["name"]].get("params", {}) for e in entries}, "bounds_text": spec.get("bounds", ""),
                       "assertions": assertions, "solver": {"queries": tot.get("queries", 0), "sat": tot.get("sat", 0), "unsat": tot.get("unsat", 0), "unknown": tot.get("unknown", 0), "time_s": round(tot.get("solver_time", 0), 2)},
                       "instructions": tot.get("steps", 0), "symbolic_branches": tot.get("sym_branches", 0), "enumerated_concretisations": tot.get("enum_forks", 0),
                       "functions_encoded": len(functions), "functions": [k for k, v in sorted(functions.items(), key=lambda x: -x[1]) if "Moment::" in k and not k.startswith("void std::") and len(k) < 400],
                       "entries": {n: {"paths": m.get("paths"), "wall_s": round(m.get("wall", 0), 2), "queries": m.get("queries"), "reached": m.get("reached")} for n, m in per.items()},
                       "incomplete": incomplete, "reach_missing": reach_missing, "witness_mismatches": len(mismatches), "unconfirmed_counterexamples": len(unconfirmed)},
          "wall_s": round(time.time() - t0, 2),
          "assumptions": spec.get("assumptions", []) + ["bitcode of /repo sources produced by clang 18 -O2 with libstdc++ 12 headers; stream formatting and binary-only parts of libstdc++ are replaced by /verif/engine/shim and rt.cpp", "memory allocation never fails; uninitialised memory reads as zero; execution is single-threaded", "symbolic floating-point inputs are exact dyadic values small enough for arithmetic on them to be exact; signed zero is not distinguished"],
          "violations": [{"entry": v["entry"], "msg": v["msg"], "path": v["path"]} for v in violations], "known_findings": known_lines}
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    for l in known_lines: print(l)
    q = ev["coverage"]
    print("%s %s: %d paths, %d queries (%.1fs solver), %d assertions, %d/%d witnesses validated, %.1fs (build %.1fs)" % (prop, tier, q["states"], q["solver"]["queries"], q["solver"]["time_s"], len(assertions), validated, validated + len(mismatches), ev["wall_s"], tbuild))
    for e in entries: print("   %-28s paths=%s wall=%.1f %s" % (e["name"], per[e["name"]].get("paths"), per[e["name"]].get("wall", 0), dict(sorted(per[e["name"]].get("enum_where", {}).items(), key=lambda x: -x[1])[:4]) if "-v" in sys.argv else ""))
    for k, v in incomplete.items(): print("INCOMPLETE", k, v)
    for r in reach_missing: print("NOT-REACHED", r)
    for u in unconfirmed: print("UNCONFIRMED", u["entry"], u["kind"], u["msg"], u["where"][:150], u["inputs"], "rc", u["replay_rc"])
    for u in mismatches: print("MISMATCH", json.dumps(u)[:1200])
    for v in violations:
        print("  violated: %s %s [%s] inputs=%s where=%s" % (v["entry"], v["msg"], v["kind"], v["inputs"], v.get("where", "")[:160]))
    if violations:
        print("VIOLATION property=%s replay=%s" % (prop, violations[0]["path"])); return 1
    if reach_missing or mismatches or unconfirmed: return 2
    return 0

if __name__ == "__main__": sys.exit(main())
