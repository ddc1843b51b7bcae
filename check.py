#!/usr/bin/env python3
"""check.py <property> : decide one property by symbolic execution of /repo's current source.

Exit 0: held on everything explored.  Exit 1: a counterexample found by the solver was reproduced
against the natively compiled code (VIOLATION line).  Nothing else."""
import sys, os, json, time, subprocess, shutil, tempfile, threading, fcntl, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
import specs
TIER = os.environ.get("VERIF_TIER", "quick"); SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CF = ["-O1", "-fno-inline", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-fno-pie", "-emit-llvm", "-c"]
SIMD = {"s": [], "avx2": ["-DHAVE_AVX2=1", "-mavx2"], "avx512": ["-DHAVE_AVX2=1", "-DHAVE_AVX512_F=1", "-mavx2", "-mavx512f", "-mavx512cd", "-mavx512vl", "-mavx512bw", "-mavx512dq"]}
INC = ["-I" + V + "/models", "-I" + V + "/harness", "-I" + REPO + "/src", "-I" + REPO + "/src/neogb", "-I" + REPO + "/src/msolve", "-I" + REPO + "/src/usolve", "-I" + REPO + "/src/fglm", "-I" + REPO + "/src/crt"]
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def engine():
    src = "".join(open(V + "/engine/" + f).read() for f in sorted(os.listdir(V + "/engine")) if f.endswith((".cpp", ".h", ".sh")))
    d = V + "/.build/" + hashlib.sha256(src.encode()).hexdigest()[:16]
    os.makedirs(V + "/.build", exist_ok=True)
    with open(V + "/.build/lock", "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(d + "/symx"):
            r = sh(["bash", V + "/engine/build.sh", d + ".tmp"])
            if r.returncode: print(r.stdout); raise SystemExit("engine build failed")
            shutil.rmtree(d, ignore_errors=True); os.rename(d + ".tmp", d)
    return d + "/symx"
class Ctx: pass
def extra(defs): return [REPO + "/src/" + d[1:] for d in defs if d[0] == "+"]  # further translation units
def build_bc(W, key):
    src, defs, simd = key; o = "%s/%s" % (W, hashlib.md5(repr(key).encode()).hexdigest()[:10])
    fl = [d for d in defs if d[0] != "+"]; parts = []
    for n, s in enumerate([V + "/harness/" + src] + extra(defs)):
        r = sh(["clang-18"] + CF + ["-include", V + "/models/gmp_shim.h"] + INC + SIMD[simd] + fl + [s, "-o", "%s.%d.bc" % (o, n)]); parts.append("%s.%d.bc" % (o, n))
        if r.returncode: return None, r.stdout[-1500:]
    r = sh(["llvm-link-18"] + parts + [W + "/models.bc", W + "/flint.bc", "-o", o + ".bc"])
    if r.returncode: return None, r.stdout[-1500:]
    return o + ".bc", ""
def build_native(W, key, libs, asan=True):
    src, defs, simd = key; o = "%s/%s.nat%d" % (W, hashlib.md5(repr(key).encode()).hexdigest()[:10], asan)
    if os.path.exists(o): return o, ""
    c = ["gcc", "-g", "-O1", "-w"] + (["-fsanitize=address"] if asan else []) + INC + SIMD[simd] + [d for d in defs if d[0] != "+"] + extra(defs) + ["-DHARNESS_ENTRY=harness", V + "/harness/" + src, V + "/models/native_rt.c", "-o", o + ".tmp"] + list(libs) + ["-lgmp", "-lm"]
    r = sh(c)
    if r.returncode: return None, r.stdout[-1500:]
    os.rename(o + ".tmp", o); return o, ""
def run_native(W, exe, params, values, tmo=60):
    t = tempfile.mkdtemp(dir=W); env = dict(os.environ, SYMX_VALUES=values, SYMX_PARAMS=" ".join("%s=%d" % kv for kv in sorted(params.items())), SYMX_TMP=t, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1", OMP_NUM_THREADS="1")
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=tmo, cwd=t, stdin=subprocess.DEVNULL)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    shutil.rmtree(t, ignore_errors=True)
    return rc, out[-6000:]
def bad_native(rc, out, job):
    """does this native run show the property broken?"""
    if rc == 99: return "assertion: " + (out.split("REPLAY-VIOLATION: ")[-1].split("\n")[0] if "REPLAY-VIOLATION" in out else "")
    if rc == 98 or "AddressSanitizer" in out: return "memory error: " + (out.split("ERROR: AddressSanitizer: ")[-1].split("\n")[0][:120])
    if isinstance(rc, int) and rc < 0: return "killed by signal %d" % -rc
    if rc == "timeout": return "does not terminate within the replay limit" if job.get("hang") else None
    if job.get("exitviol") and rc not in (0, 77) : return "program exited with code %s" % rc
    return None
def main():
    if sys.argv[1] == "--setup": print(engine()); return 0
    pid = sys.argv[1]; t0 = time.time(); spec = specs.PROPS[pid]; budget = 780 if TIER == "quick" else spec.get("thorough_budget", 3300)
    jobs = [j for j in spec["jobs"] if TIER == "thorough" or j.get("tier", "quick") == "quick"]
    only = os.environ.get("VERIF_JOB")
    if only: jobs = [j for j in jobs if only in j["name"]]
    symx = engine(); W = tempfile.mkdtemp(prefix="verif_%s_" % pid); known = [json.loads(l) for l in open(V + "/known-findings.jsonl") if l.strip()]
    known = [k for k in known if k["property"] == pid and k["status"] == "known"]
    res = []; viols = []; ncores = os.cpu_count() or 8
    try:
        r = sh(["clang-18"] + CF + ["-fno-builtin", "-I" + V + "/models", V + "/models/models.c", "-o", W + "/models.bc"])
        if r.returncode: print(r.stdout); raise SystemExit("models do not compile")
        r = sh(["clang-18"] + CF + ["-I" + V + "/models", V + "/models/flint.c", "-o", W + "/flint.bc"])
        if r.returncode: print(r.stdout); raise SystemExit("models do not compile")
        keys = []
        for j in jobs:
            k = (j["src"], tuple(j.get("defs", ())), j.get("simd", "avx512"))
            j["key"] = k
            if k not in keys: keys.append(k)
        with ThreadPoolExecutor(ncores) as ex: bcs = dict(zip(keys, ex.map(lambda k: build_bc(W, k), keys)))
        lock = threading.Lock(); njob = max(1, int(spec.get("workers", 4)))
        def run(j):
            bc, err = bcs[j["key"]]; R = {"job": j["name"], "params": j.get("params", {}), "variant": j["key"][2]}
            if bc is None: R["status"] = "harness does not compile against this tree"; R["detail"] = err; return R
            left = budget - (time.time() - t0)
            if left < 15: R["status"] = "not run (time)"; return R
            od = "%s/out_%s" % (W, j["name"]); os.makedirs(od)
            T = min(j.get("t", 60) * (1 if TIER == "quick" else 6), left - 10)
            c = [symx, bc, "-e", "harness", "-o", od, "-t", str(T), "-j", str(j.get("j", spec.get("j", 3))), "-q", str(j.get("q", 2)), "-Q", str(j.get("Q", 10)), "-maxviol", "3", "-w", "2"]
            if j.get("p"): c += ["-p", str(j["p"])]
            for f in j.get("inv", ()): c += ["-inv", f]
            for k, v in j.get("params", {}).items(): c += ["-P", "%s=%d" % (k, v)]
            if j.get("exitviol"): c.append("-exitviol")
            c += j.get("args", [])
            try: p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=T + 90); rc = p.returncode
            except subprocess.TimeoutExpired: R["status"] = "engine timeout"; return R
            try: R.update(json.load(open(od + "/result.json")))
            except Exception: R["status"] = "engine error"; R["detail"] = p.stdout[-500:]; return R
            R["status"] = {0: "decided", 1: "counterexample", 3: "partly decided"}.get(rc, "engine error")
            R["missing_cover"] = [c for c in j.get("cover", ["done"]) if c not in R.get("cover", {})]
            R["viol_files"] = sorted(od + "/" + f for f in os.listdir(od) if f.startswith("viol_") and f.endswith(".txt"))
            R["path_files"] = sorted(od + "/" + f for f in os.listdir(od) if f.startswith("path_") and f.endswith(".txt"))
            return R
        with ThreadPoolExecutor(njob) as ex: res = list(ex.map(run, jobs))
        # replay: counterexamples must reproduce natively; a few path witnesses validate the encoding
        tv = 0; samples = []; unconf = []
        need = {}
        for j, R in zip(jobs, res):
            if R.get("viol_files") or R.get("path_files"): need[(j["key"], tuple(j.get("libs", ())))] = 1
        with ThreadPoolExecutor(ncores) as ex: nat = dict(zip(need, ex.map(lambda k: build_native(W, k[0], k[1]), need)))
        def rep(jr):
            j, R = jr; out = []; exe, err = nat.get((j["key"], tuple(j.get("libs", ()))), (None, "not built"))
            for f in R.get("viol_files", []) + R.get("path_files", [])[:6]:
                msg = open(f).readline()[2:].strip() if "viol_" in f else ""
                if exe is None: out.append((f, msg, None, "native build failed: " + err)); continue
                rc, o = run_native(W, exe, j.get("params", {}), f); out.append((f, msg, bad_native(rc, o, j), "rc=%s %s" % (rc, o[-300:]), rc))
            return out
        with ThreadPoolExecutor(ncores) as ex: reps = list(ex.map(rep, zip(jobs, res)))
        for j, R, out in zip(jobs, res, reps):
            for o in out:
                f, msg, bad, detail = o[:4]
                if "path_" in f and bad is None:
                    if len(o) > 4 and (o[4] == 0 or (o[4] in (1, 77) )): tv += 1
                    if len(samples) < 6: samples.append({"job": j["name"], "witness": open(f).read()[:400], "native": "same verdict as the symbolic path"})
                if bad is not None: viols.append((j, R, f, msg or "witness of a symbolically verified path", bad))
                elif "viol_" in f: unconf.append({"job": j["name"], "message": msg, "detail": detail[-300:]})
        # known findings, violations
        newv = []; seen = set()
        for j, R, f, msg, bad in viols:
            k = next((k for k in known if k["job"] == j["name"] and (k["match"] in msg or k["match"] in bad)), None)
            if k: 
                if k["what"] not in seen: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"])); seen.add(k["what"])
            else: newv.append((j, R, f, msg, bad))
        rep_root = V + "/replays/" + pid; shutil.rmtree(rep_root, ignore_errors=True); lines = []
        for n, (j, R, f, msg, bad) in enumerate(newv[:8]):
            d = "%s/%s_%d" % (rep_root, j["name"], n); os.makedirs(d); shutil.copy(f, d + "/values.txt")
            cmd = ["gcc", "-g", "-O1", "-w", "-fsanitize=address"] + INC + SIMD[j["key"][2]] + [d for d in j["key"][1] if d[0] != "+"] + extra(j["key"][1]) + ["-DHARNESS_ENTRY=harness", V + "/harness/" + j["key"][0], V + "/models/native_rt.c", "-o", "$T/replay"] + list(j.get("libs", ())) + ["-lgmp", "-lm"]
            open(d + "/replay.sh", "w").write("#!/bin/bash\n# %s\n# %s\nT=$(mktemp -d); trap 'rm -r \"$T\"' EXIT\n%s || exit 2\ncd $T; SYMX_TRACE=1 SYMX_TMP=$T ASAN_OPTIONS=detect_leaks=0 SYMX_PARAMS='%s' SYMX_VALUES=%s/values.txt ./replay\n" % (msg, bad, " ".join(cmd), " ".join("%s=%d" % kv for kv in sorted(j.get("params", {}).items())), d))
            lines.append("VIOLATION property=%s replay=%s" % (pid, d)); print("  %s: %s [%s]" % (j["name"], msg, bad))
        tot = lambda k: sum(int(R.get(k, 0)) for R in res)
        funcs = sorted(set(sum((R.get("functions", []) for R in res), [])))
        ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking", "wall_s": round(time.time() - t0, 1), "violations": len(newv),
              "assumptions": spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS,
              "coverage": {"states": tot("paths"), "transitions": tot("branches"), "traces_validated_against_impl": tv, "samples": samples or [{"note": "no witness"}],
                "what": "states: complete symbolic paths; transitions: symbolic branch decisions; every path stands for all input values satisfying its condition",
                "bounds": spec.get("bounds", ""), "outside_bounds": spec.get("outside", ""),
                "assertions_checked": tot("asserts"), "assertions_closed_by_normal_form": tot("asserts_syntactic"), "smt_queries": tot("queries"), "smt_sat": tot("sat"), "smt_unsat": tot("unsat"), "smt_unknown": tot("unknown"),
                "smt_seconds": round(sum(R.get("solver_s", 0) for R in res), 2), "finite_field_decisions": tot("field_guess"), "finite_field_simplifications": tot("field_norm"), "open_branch_queries_explored_both_ways": tot("field_open"),
                "instructions_executed_symbolically": tot("steps"), "inconclusive_paths": tot("inconclusive"), "jobs_total": len(jobs), "jobs_decided": sum(R["status"] == "decided" for R in res),
                "counterexamples_not_reproduced": unconf, "functions_encoded": [f for f in funcs if not f.startswith(("r_", "ref_", "harness"))][:600],
                "jobs": [{k: R.get(k) for k in ("job", "params", "variant", "status", "detail", "paths", "asserts", "queries", "unsat", "solver_s", "wall_s", "inconclusive", "reasons", "cover", "missing_cover", "field_guess") if R.get(k) is not None} for R in res]}}
        os.makedirs(V + "/evidence", exist_ok=True); tmp = V + "/evidence/%s.json.tmp" % pid; json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, V + "/evidence/%s.json" % pid)
        print("%s: %d jobs (%d decided), %d paths, %d assertions, %d SMT queries (%.1fs), %d field decisions, %d inconclusive, %d traces replayed, %.0fs" % (pid, len(jobs), ev["coverage"]["jobs_decided"], tot("paths"), tot("asserts"), tot("queries"), ev["coverage"]["smt_seconds"], tot("field_guess"), tot("inconclusive"), tv, time.time() - t0))
        if os.environ.get("VERIF_V"):
            for R in res: print("   ", R["job"], R["status"], "paths", R.get("paths"), "inc", R.get("inconclusive"), "wall", R.get("wall_s"), R.get("reasons"), "MISSING" + str(R["missing_cover"]) if R.get("missing_cover") else "", R.get("detail", "")[:1500])
            for u in unconf: print("    UNCONFIRMED", u)
        for l in lines: print(l)
        return 1 if newv else 0
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(W, ignore_errors=True)
        else: print("kept", W)
if __name__ == "__main__": sys.exit(main())
