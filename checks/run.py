#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> [--tier quick|thorough] [--only NAME] [--keep]

 1. compiles the current sources of /repo and the property's harnesses to LLVM IR,
 2. executes every harness symbolically with build/vsx (z3 decides all obligations),
 3. replays sampled inputs in a natively compiled build of the same sources and compares the traces,
 4. replays every counterexample natively (ASan/UBSan or MSan); only reproduced ones are violations,
 5. writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed (no answer)."""
import sys, os, json, subprocess, tempfile, shutil, time, argparse, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
REPO = os.environ.get("VERIF_REPO", "/repo")
LL = "/usr/lib/llvm-18/bin"
import plan

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

class Die(Exception): pass
def die(msg): raise Die(msg)

INC = ["-I" + V + "/rt", "-I" + V + "/harness", "-I" + REPO + "/c/graphLib", "-I" + REPO + "/c", "-I" + REPO + "/c/planarityApp"]
IRF = ["-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-builtin", "-emit-llvm", "-c"]
PASSES = "function(mem2reg,sroa,early-cse,simplifycfg<no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0>,loop-simplify,lcssa)"

def lib_sources(app):
    s = sorted(glob.glob(REPO + "/c/graphLib/**/*.c", recursive=True))
    if app: s += sorted(glob.glob(REPO + "/c/planarityApp/*.c"))
    return s

class Build:
    def __init__(self, d):
        self.d = d; self.lock = threading.Lock(); self.lib = {}; self.nat = {}
    def _compile_all(self, pool_cmds):
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(lambda c: (c, sh(c)), pool_cmds):
                if r[1].returncode: die("cannot compile: " + " ".join(r[0]) + "\n" + r[1].stderr[-2000:])
    def libbc(self, app):
        with self.lock:
            if app in self.lib: return self.lib[app]
            o = self.d + "/bc%d" % app; os.makedirs(o); cmds = []; objs = []
            for s in lib_sources(app):
                t = o + "/" + os.path.relpath(s, REPO).replace("/", "_") + ".bc"; objs.append(t)
                cmds.append([LL + "/clang"] + IRF + INC + (["-Dmain=vs_app_main"] if "/planarityApp/" in s else []) + [s, "-o", t])
            t = o + "/env.bc"; objs.append(t); cmds.append([LL + "/clang"] + IRF + INC + [V + "/rt/vs_env.c", "-o", t])
            self._compile_all(cmds)
            out = o + "/all.bc"; r = sh([LL + "/llvm-link"] + objs + ["-o", out])
            if r.returncode: die("llvm-link: " + r.stderr[-2000:])
            self.lib[app] = out; return out
    def harness(self, job):
        key = hashlib.sha1(json.dumps([job["h"], job.get("defs", {}), job.get("app", 0)], sort_keys=True).encode()).hexdigest()[:12]
        out = self.d + "/h_" + key + ".bc"
        lib = self.libbc(job.get("app", 0))
        with self.lock:
            ev = self.nat.setdefault("hl" + key, threading.Lock())
        with ev:
            if os.path.exists(out): return out, key
            hb = self.d + "/h_" + key + ".h.bc"; lb = self.d + "/h_" + key + ".l.bc"
            for c in ([LL + "/clang"] + IRF + INC + defs(job) + [V + "/harness/" + job["h"], "-o", hb],
                      [LL + "/llvm-link", lib, hb, "-o", lb],
                      [LL + "/opt", "-passes=" + PASSES, lb, "-o", out]):
                r = sh(c)
                if r.returncode: die("cannot build harness: " + " ".join(c) + "\n" + r.stderr[-3000:])
            os.remove(lb)
        return out, key
    def native(self, job, key, san):
        """san: '' plain optimised build, 'asan', 'msan'"""
        cc, fl = {"": ("gcc", ["-O2", "-g", "-w"]), "asan": ("clang", ["-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]),
                  "msan": ("clang", ["-O0", "-g", "-w", "-fsanitize=memory", "-DVS_MSAN"])}[san]
        app = job.get("app", 0)
        with self.lock: lk = self.nat.setdefault("L" + san + str(app), threading.Lock())
        with lk:
            od = self.d + "/nat_%s%d" % (san, app); objs = []
            if not os.path.exists(od + "/done"):
                os.makedirs(od, exist_ok=True); cmds = []
                for s in lib_sources(app):
                    t = od + "/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
                    cmds.append([cc] + fl + INC + (["-Dmain=vs_app_main"] if "/planarityApp/" in s else []) + ["-c", s, "-o", t])
                cmds.append([cc] + fl + INC + ["-c", V + "/rt/vs_native.c", "-o", od + "/vs_native.o"])
                self._compile_all(cmds); open(od + "/done", "w").close()
            objs = sorted(glob.glob(od + "/*.o"))
        exe = self.d + "/n_" + san + key
        with self.lock: lk = self.nat.setdefault("E" + san + key, threading.Lock())
        with lk:
            if not os.path.exists(exe):
                r = sh([cc] + fl + INC + defs(job) + [V + "/harness/" + job["h"]] + objs + ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup,--wrap=fopen,--wrap=tmpfile,--wrap=fclose", "-lm", "-o", exe])
                if r.returncode: die("cannot link native harness: " + r.stderr[-3000:])
        return exe

def defs(job):
    return ["-D%s=%s" % (k, v) if v != "" else "-D" + k for k, v in sorted(job.get("defs", {}).items())]

def write_input(path, inp):
    with open(path, "w") as f:
        for n, v in inp: f.write("%s %d\n" % (n, v))

def run_native(exe, inp, scratch, timeout=20):
    os.makedirs(scratch, exist_ok=True); ip = scratch + "/input"; write_input(ip, inp); wd = scratch + "/wd"; os.makedirs(wd, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=66", UBSAN_OPTIONS="exitcode=66", MSAN_OPTIONS="exitcode=66")
    try:
        r = sh([exe, ip, wd], timeout=timeout, env=env, stdin=subprocess.DEVNULL)
        out = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        out = "", "TIMEOUT: did not terminate within %d s" % timeout, 124
    shutil.rmtree(scratch, ignore_errors=True)
    return out

def reproduce(B, job, key, v, base):
    """Replays a counterexample against the real code; returns a description or None."""
    if v.get("input") is None: return None
    sans = {"uninit": ["msan", "asan"], "memory": ["asan", "msan"]}.get(v["kind"], ["asan", ""])
    for san in sans:
        exe = B.native(job, key, san)
        so, se, rc = run_native(exe, v["input"], base + san)
        if rc == 77: continue
        if rc != 0:
            lines = [l for l in so.splitlines() if l.startswith("ASSERTION-FAILED")]
            lines += [l.strip() for l in se.splitlines() if "ERROR: " in l or "WARNING: MemorySanitizer" in l or "runtime error" in l or "TIMEOUT" in l]
            lines += ["    " + l.strip() for l in se.splitlines() if l.strip().startswith("#")][:6]
            return {"build": san or "plain", "exit": rc, "observed": lines[:9] or [("exit status %d" % rc)]}
    return None

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8"))); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if plan.PROPS.get(pid, {}).get("py"): os.execvp("python3-vt", ["python3-vt", V + "/checks/pyrun.py", pid, tier, str(seed)] + ([a.only] if a.only else []) + (["-v"] if a.v else []))
    vsx = V + "/build/vsx"
    r = sh(["bash", V + "/setup.sh"])
    if r.returncode: print("CHECK-ERROR: setup failed: " + r.stderr[-2000:]); sys.exit(2)
    jobs = plan.jobs(pid, tier, seed)
    if a.only: jobs = [j for j in jobs if a.only in j["name"]]
    if not jobs: print("CHECK-ERROR: no jobs for " + pid); sys.exit(2)
    d = tempfile.mkdtemp(prefix="vsx_%s_" % pid)
    rc = 2
    try:
        rc = work(pid, tier, seed, jobs, Build(d), d, vsx, a, t0)
    except Die as e:
        print("CHECK-ERROR: " + str(e)[:4000], flush=True)
    finally:
        if a.keep: print("kept " + d)
        else: shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)

def work(pid, tier, seed, jobs, B, d, vsx, a, t0):
    runs = []
    for f in glob.glob(V + "/evidence/replay/%s_*.json" % pid): os.remove(f)
    for j in jobs:
        k = j.get("cube", 0)
        for c in range(1 << k): runs.append((j, c, k))
    runs.sort(key=lambda r: -r[0].get("cost", 1))
    budget = (840 if tier == "quick" else 6 * 3600)
    stop = threading.Event(); results = {}; errors = []
    known = load_known(pid); reps = {}; lock = threading.Lock(); found = []   # found: time of the first violation the real code confirms
    def engine(cmd, limit):
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, text=True, errors="replace"); t = time.time()
        while True:
            try: so, se = p.communicate(timeout=2); return so, se, p.returncode
            except subprocess.TimeoutExpired:
                if time.time() - t > limit or (found and time.time() - found[0] > 60): p.kill(); so, se = p.communicate(); return "", "stopped: " + ("time limit" if not found else "a violation is already known"), -9
    def one(i):
        if stop.is_set(): return
        try: one_(i)
        except Die: stop.set(); raise
    def one_(i):
        j, c, k = runs[i]
        bc, key = B.harness(j)
        left = budget - (time.time() - t0)
        if found: return
        if left < 5: errors.append("%s: no time left" % j["name"]); return
        cmd = [vsx, bc, "--samples", str(j.get("samples", 4 if k == 0 else 1)), "--seed", str(seed * 1000 + c + 1), "--time", str(min(left, j.get("time", 600 if tier == "quick" else 5400))),
               "--loop-limit", str(j.get("loop", 3000)), "--z3ms", "600000", "--max-nodes", "150000000"] + (["--cube", str(c), str(k)] if k else []) + j.get("args", [])
        so, se, erc = engine(cmd, left + 10)
        line = so.strip().splitlines()[-1] if so.strip() else ""
        try: res = json.loads(line)
        except Exception:
            errors.append("%s cube %d: engine gave no result (exit %d) %s" % (j["name"], c, erc, se[-300:])); return
        if res.get("status") not in ("ok", "violation"):
            errors.append("%s cube %d: %s %s" % (j["name"], c, res.get("status"), res.get("error", "") + se[-300:])); return
        res["key"] = key; results[i] = res
        if a.v: print("%s %d/%d %s exec %.1f wall %.1f rss %d covers %s" % (j["name"], c, 1 << k, res["status"], res["exec_s"], res["wall"], res["rss_mb"], ",".join(x for x in res["covers"] if res["covers"][x]["reached"])), flush=True)
        for n, v in enumerate(res["violations"]):
            sig = (j["name"], v["kind"], v["msg"], v["loc"].split(" [")[0])
            with lock:
                if sig in reps: continue
                reps[sig] = None
            rep = reproduce(B, j, key, v, d + "/rep%d_%d" % (i, n))
            if rep is None: reps.pop(sig); continue
            reps[sig] = (rep, v)
            if not any(match(kf, j, v) for kf in known) and not found: found.append(time.time())
    with ThreadPoolExecutor(a.jobs) as ex: list(ex.map(one, range(len(runs))))
    # ---- violations
    viol_lines, known_hit, unrepro = [], {}, []
    seen = set()
    for i in sorted(results):
        j, c, k = runs[i]
        for v in results[i]["violations"]:
            sig = (j["name"], v["kind"], v["msg"], v["loc"].split(" [")[0])
            if sig in seen: continue
            seen.add(sig)
            hit = next((kf for kf in known if match(kf, j, v)), None)
            rep, v = reps.get(sig) or (None, v)
            if rep is None: unrepro.append("%s: %s (%s at %s) not reproduced by the real code: %s" % (j["name"], v["msg"], v["kind"], v["loc"], json.dumps(v.get("input")))); continue
            if hit: known_hit[hit["id"]] = hit; continue
            if len(viol_lines) < 12:
                os.makedirs(V + "/evidence/replay", exist_ok=True)
                path = "evidence/replay/%s_%d.json" % (pid, len(viol_lines))
                json.dump({"property": pid, "harness": j["h"], "defs": j.get("defs", {}), "app": j.get("app", 0), "violation": v, "observed_on_real_code": rep}, open(V + "/" + path, "w"), indent=1)
                viol_lines.append("VIOLATION property=%s replay=%s  # %s: %s; %s" % (pid, path, j["name"], v["msg"], rep["observed"][0]))
    for kf in known_hit.values(): print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]), flush=True)
    # ---- validation of the encoding: sampled inputs, engine trace against native trace
    validated = 0; mism = []; samples_ev = []
    todo = [(i, s) for i in sorted(results) for s in results[i].get("samples", [])]
    def val(t):
        n, (i, s) = t; j, c, k = runs[i]
        exe = B.native(j, results[i]["key"], "")
        so, se, rc = run_native(exe, s["input"], d + "/val%d" % n, timeout=60)
        got = [[l.split(" ")[1], int(l.split(" ")[2])] for l in so.splitlines() if l.startswith("TRACE ")]
        return (j, s, rc, got, so[-300:] + se[-300:])
    with ThreadPoolExecutor(a.jobs) as ex:
        for j, s, rc, got, txt in ex.map(val, enumerate(todo)):
            exp = [[t[0], wrap(t[1])] for t in s["trace"]]; got = [[t[0], wrap(t[1])] for t in got]
            if rc == 0 and got == exp: validated += 1
            else: mism.append("%s: input %s expected %s got %s (exit %d) %s" % (j["name"], json.dumps(s["input"])[:300], exp[:12], got[:12], rc, txt))
            if len(samples_ev) < 4: samples_ev.append({"job": j["name"], "input": [x for x in s["input"]][:40], "trace": got[:8]})
    # ---- vacuity
    for j in jobs:
        rs = [results[i] for i in results if runs[i][0] is j]
        if len(rs) < (1 << j.get("cube", 0)): continue
        for c in j.get("covers", []):
            if not any(r["covers"].get(c, {}).get("reached") for r in rs) and not viol_lines: errors.append("%s: case '%s' was never reached" % (j["name"], c))
        if not any(r["end_reachable"] for r in rs) and not viol_lines: errors.append("%s: no input reaches the end of the harness" % j["name"])
    R = list(results.values()); S = lambda f: sum(r[f] for r in R)
    fns = sorted({f for r in R for f in r["functions"]})
    repo_fns = [f for f in fns if not f.startswith("vsl_") and not f.startswith("vsv_")]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "violations": len(viol_lines), "wall_s": round(time.time() - t0, 2),
          "assumptions": plan.ASSUMPTIONS + plan.PROPS[pid].get("assumptions", []),
          "coverage": {"states": S("blocks") if R else 0, "transitions": S("insts") if R else 0, "traces_validated_against_impl": validated, "samples": samples_ev or [{"job": jobs[0]["name"]}],
                       "rule": "states: basic-block activations, transitions: IR instructions, each executed once for the whole set of inputs that reach it",
                       "obligations": S("obligations") if R else 0, "discharged": S("discharged") if R else 0, "folded_constant_assertions": S("folded") if R else 0, "memory_accesses_checked": S("memchecks") if R else 0,
                       "solver_queries": S("queries") if R else 0, "solver_s": round(S("solver_s"), 2) if R else 0, "symbolic_execution_s": round(S("exec_s"), 2) if R else 0,
                       "functions_encoded": repo_fns, "engine_runs": len(R), "symbolic_bits": {j["name"]: max([r["vars"] for i, r in results.items() if runs[i][0] is j] or [0]) for j in jobs},
                       "bounds": {j["name"]: {**j.get("defs", {}), "harness": j["h"], "loop_bound": j.get("loop", 3000), "cubes": 1 << j.get("cube", 0)} for j in jobs},
                       "covers_reached": sorted({j["name"] + ":" + c for i, r in results.items() for j in [runs[i][0]] for c in r["covers"] if r["covers"][c]["reached"]})[:200],
                       "counterexamples_not_reproduced": len(unrepro), "outside_bounds": plan.PROPS[pid].get("outside", ""), "exhaustive": False},
          }
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    for l in viol_lines: print(l, flush=True)
    if viol_lines: return 1
    for e in (errors + ["counterexample " + u for u in unrepro] + ["model/native mismatch " + m for m in mism])[:10]: print("CHECK-ERROR: " + e[:3000], flush=True)
    if errors or unrepro or mism: return 2
    print("OK property=%s tier=%s jobs=%d runs=%d obligations=%d solver_s=%.1f validated=%d wall=%.1f" % (pid, tier, len(jobs), len(R), ev["coverage"]["obligations"], ev["coverage"]["solver_s"], validated, time.time() - t0))
    return 0

def wrap(v): v &= (1 << 32) - 1; return v

def load_known(pid):
    p = V + "/known_findings.json"
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k["property"] == pid and k.get("status") == "known"]
def match(kf, j, v):
    return kf.get("job", "") in j["name"] and kf.get("msg", "") in v["msg"] and kf.get("loc", "") in v["loc"] and all(kf.get("input", {}).get(n, val) == val for n, val in (v.get("input") or []))

if __name__ == "__main__": main()
