#!/usr/bin/env python3
"""check.py PROPERTY  -- decides one property of /repo by symbolic execution of the real code.

Compiles the harness of the property together with the current /repo/include to LLVM bitcode, explores
every path of each entry symbolically (engine/symir), replays counterexamples and a sample of paths against
a native build of the same harness, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored; 1: violation (line VIOLATION ...); 2: no verdict.
"""
import json, os, re, subprocess, sys, time, hashlib, shutil, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYM_REPO", "/repo")
BUILD = os.environ.get("SYM_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa

NPROC = int(os.environ.get("SYM_JOBS", os.cpu_count() or 4))
CLANG = ["clang++", "-O2", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-gline-tables-only", "-emit-llvm", "-c",
         "-include", os.path.join(VERIF, "engine/shim/sym_pre.h"), "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_DONT_ALIGN", "-DEIGEN_NO_IO", "-DSYM_BITCODE", "-Wno-everything",
         "-isystem", os.path.join(VERIF, "engine/shim"), "-I", os.path.join(VERIF, "engine"), "-I", os.path.join(VERIF, "harness"),
         "-I", os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3"]
GXX = ["g++", "-O1", "-g1", "-w", "-rdynamic", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_DONT_ALIGN", "-I", os.path.join(VERIF, "engine"), "-I", os.path.join(VERIF, "harness"),
       "-I", os.path.join(REPO, "include"), "-isystem", "/usr/include/eigen3"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def compile_bc(src, out, std):
    r = sh(CLANG + [f"-std={std}", src, "-o", out + ".tmp.bc"])
    if r.returncode: return r.stdout
    r = sh(["llvm-link-18", out + ".tmp.bc", os.path.join(BUILD, "runtime.bc"), "-o", out])
    return r.stdout if r.returncode else None

def compile_native(src, out, std, asan=False):
    flags = ["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []
    r = sh(GXX + flags + [f"-std={std}", src, os.path.join(VERIF, "engine/symnative.cpp"), "-o", out, "-ldl"])
    return r.stdout if r.returncode else None

def write_witness(path, inputs):
    with open(path, "w") as f:
        for n, v in inputs: f.write(f"{n} {v}\n")

def run_native(exe, entry, wit, params, timeout=60, prefix=()):
    try:
        r = subprocess.run([*prefix, exe, entry, wit] + [str(p) for p in params], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env={**os.environ, "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"}, errors="replace", text=True)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = CHECKS[pid]
        self.dir = os.path.join(BUILD, "run", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.t0 = time.time()
        self.lines = []
        self.running, self.stopped = set(), False
        self.replays = {}

    def jobs(self):
        js = []
        for j in self.cfg["jobs"]:
            if self.tier == "quick" and j.get("tier") == "thorough": continue
            if self.tier == "thorough" and j.get("tier") == "quick": continue
            for p in j.get("params", [[]]):
                p = p if isinstance(p, (list, tuple)) else [p]
                js.append(dict(j, param=list(p)))
        return js

    def run_job(self, k, j):
        out = os.path.join(self.dir, f"job{k}.json")
        h = self.harnesses[j.get("harness", self.cfg.get("harness"))]
        limit = j.get("time", 400 if self.tier == "quick" else 3000)
        if self.tier == "quick": limit = max(5, min(limit, self.t0 + 640 - time.time()))  # the whole check answers within 900 s
        cmd = [os.path.join(BUILD, "symir"), h["bc"], "--entry", j["entry"], "--out", out, "--time", str(int(limit)), "--seed", str(self.seed),
               "--samples", str(j.get("samples", 4)), "--max-violations", "2"]
        if "steps" in j: cmd += ["--max-steps", str(j["steps"])]
        for p in j["param"]: cmd += ["--param", str(p)]
        if self.stopped: return None
        with open(out + ".err", "w") as ferr:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ferr)
            self.running.add(p)
            try:
                p.wait(timeout=limit + (120 if self.tier == 'quick' else 600))
                if self.stopped and p.returncode < 0: return None
                if os.path.exists(out):
                    res = json.load(open(out))
                else:
                    res = dict(fatal=f"engine exit {p.returncode}: {open(out + '.err').read()[-500:]}")
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                res = dict(fatal="engine timed out")
            finally:
                self.running.discard(p)
        res["job"] = dict(entry=j["entry"], params=j["param"])
        res["cfg"] = j
        return res

    def main(self):
        r = sh([os.path.join(VERIF, "engine/build.sh"), BUILD])
        if r.returncode: print(r.stdout); print("ERROR: cannot build the engine"); return 2
        jobs = self.jobs()
        hs = sorted({j.get("harness", self.cfg.get("harness")) for j in jobs})
        self.harnesses = {}
        optional = set(self.cfg.get("optional", []))
        with ThreadPoolExecutor(NPROC) as ex:
            futs = {}
            for h in hs:
                src = os.path.join(VERIF, "harness", h)
                base = os.path.join(self.dir, h.replace(".cpp", ""))
                std = "c++17"
                self.harnesses[h] = dict(bc=base + ".bc", native=base + ".native", src=src, std=std)
                futs[h] = (ex.submit(compile_bc, src, base + ".bc", std), ex.submit(compile_native, src, base + ".native", std))
            skipped = []
            for h, (a, b) in futs.items():
                for f in (a, b):
                    e = f.result()
                    if e is not None:
                        if h in optional:
                            skipped.append(h); break
                        print(e[-4000:]); print(f"ERROR: harness {h} does not compile against {REPO}"); return 2
            jobs = [j for j in jobs if j.get("harness", self.cfg.get("harness")) not in skipped]
            self.tcompile = time.time() - self.t0
            # long jobs first
            order = sorted(range(len(jobs)), key=lambda k: -jobs[k].get("weight", 1))
            results = [None] * len(jobs)
            fs = {ex.submit(self.run_job, k, jobs[k]): k for k in order}
            for f in as_completed(fs):
                if f.cancelled(): continue
                res = results[fs[f]] = f.result()
                if res is None or self.stopped: continue
                for v in res.get("violations", []):
                    # a counterexample that the native build confirms decides the check: stop the other jobs
                    if self.replay(res, v)[0] and not self.match_known(res, v):
                        self.stopped = True
                        for g in fs: g.cancel()
                        for p in list(self.running): p.kill()
                        break
        results = [r for r in results if r]
        return self.judge(results, skipped)

    def match_known(self, res, v):
        kf = os.path.join(VERIF, "known_findings.json")
        known = [k for k in json.load(open(kf)) if k.get("status") == "open" and k["property"] == self.pid] if os.path.exists(kf) else []
        return [k for k in known if re.search(k["label"], v["label"]) and k.get("entry", res["job"]["entry"]) == res["job"]["entry"]]

    def replay(self, res, v):
        """Replays a counterexample natively. Returns (reproduced, description, path of the replay file)."""
        if id(v) in self.replays: return self.replays[id(v)]
        n = len(self.replays)
        self.replays[id(v)] = r = self.replay_run(res, v, n)
        return r

    def replay_run(self, res, v, n):
        j = res["cfg"]; h = self.harnesses[j.get("harness", self.cfg.get("harness"))]
        wit = os.path.join(self.dir, f"violation{n}.witness")
        write_witness(wit, v["inputs"])
        exe = h["native"]
        if v["kind"] == "memory":
            exe = h["native"] + ".asan"
            if not os.path.exists(exe):
                e = compile_native(h["src"], exe, h["std"], asan=True)
                if e: return False, "ASan build failed", ""
        rc, out, err = run_native(exe, j["entry"], wit, j["param"], timeout=30 if v["kind"] == "hang" else 120)
        if v["kind"] == "memory" and rc == 0 and shutil.which("valgrind"): # accesses made inside libstdc++ are not seen by ASan
            exe = h["native"]
            rc, out, err = run_native(exe, j["entry"], wit, j["param"], timeout=120, prefix=("valgrind", "-q", "--error-exitcode=99"))
            exe = "valgrind " + exe
        last = out.strip().splitlines()[-1] if out.strip() else ""
        bad = rc == "timeout" or (isinstance(rc, int) and (rc == 10 or rc < 0 or (rc not in (0, 3, 11, 12))))
        desc = f"native rc={rc} {last}"
        if err: desc += " | " + err.strip().splitlines()[0][:200]
        if rc == 10 and v["kind"] == "check" and f"CHECK-FAILED {v['label']}" not in out: desc += " (different label)"
        rp = os.path.join(BUILD, "replay"); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{self.pid}-{n}.json")
        json.dump(dict(property=self.pid, harness=h["src"], entry=j["entry"], params=j["param"], kind=v["kind"], label=v["label"], where=v["where"],
                       inputs=v["inputs"], native=desc, reproduced=bad,
                       how=f"{exe} {j['entry']} {wit} {' '.join(map(str, j['param']))}"), open(path, "w"), indent=1)
        return bad, desc, path

    def judge(self, results, skipped):
        rc = 0
        knownhit = set()
        tot = dict(paths=0, instructions=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, fallbacks=0, solver_s=0.0, checks=0, checks_constant=0, checks_solver=0, sym_branches=0, infeasible=0)
        funcs, lines, labels, covers = {}, {}, {}, {}
        longest = 0
        incomplete = []  # jobs that did not cover their whole bound: the property held on what was explored, the evidence says so
        for r in results:
            if "fatal" in r:
                print(f"INCOMPLETE: {r['job']}: {r['fatal']}"); incomplete.append(dict(job=r["job"], reason=r["fatal"])); continue
            for k in tot: tot[k] += r.get(k, 0)
            longest = max(longest, r["longest_query_s"])
            for f, x in r["functions"].items(): funcs.setdefault(f, set()).update(x)
            for f, x in r["lines"].items(): lines.setdefault(f, set()).update(x)
            for l, c in r["labels"].items(): labels[l] = labels.get(l, 0) + c
            for l, c in r["covers"].items(): covers[l] = covers.get(l, 0) + c["count"]
            for what, c in r["inconclusive"].items():
                print(f"INCOMPLETE: {r['job']}: {what} (x{c})"); incomplete.append(dict(job=r["job"], reason=what))
            for l in r["cfg"].get("covers", []):
                if l not in r["covers"] and not r["violations"]:
                    print(f"VACUOUS: {r['job']}: never reached '{l}'"); rc = max(rc, 2)
            if r["paths"] == 0 and not r["violations"]:
                print(f"VACUOUS: {r['job']}: no path completed"); rc = max(rc, 2)
        if 2 * len({json.dumps(i["job"]) for i in incomplete}) > len(results):
            print("ERROR: most jobs are incomplete, no verdict"); rc = max(rc, 2)
        # violations
        confirmed = False
        for r in results:
            for v in r.get("violations", []):
                ok, desc, path = self.replay(r, v)
                m = self.match_known(r, v)
                print(f"counterexample: {v['kind']}: {v['label']} entry={r['job']['entry']} params={r['job']['params']} inputs={dict((a, b) for a, b in v['inputs'][:12])}")
                print(f"  at {v['where'][:400]}")
                print(f"  {desc}")
                if not ok:
                    print("ERROR: counterexample does not reproduce natively (encoding or stub mismatch)"); rc = max(rc, 2); continue
                if m:
                    knownhit.add(m[0]["what"]); continue
                if not confirmed: print(f"VIOLATION property={self.pid} replay={path}")
                confirmed = True
        for k in knownhit: print(f"KNOWN-FINDING: property={self.pid} {k}")
        # validation of sampled paths against the native build
        validated = 0; samples = []
        todo = []
        for k, r in enumerate(results):
            if "fatal" in r: continue
            for i, s in enumerate(r["samples"]): todo.append((k, i, r, s))
        if not confirmed:
            def val(t):
                k, i, r, s = t
                j = r["cfg"]; h = self.harnesses[j.get("harness", self.cfg.get("harness"))]
                wit = os.path.join(self.dir, f"s{k}_{i}.witness")
                write_witness(wit, s["inputs"])
                code, out, err = run_native(h["native"], j["entry"], wit, j["param"])
                obs = [l[4:] for l in out.splitlines() if l.startswith("OBS ")]
                return t, code == 0 and obs == s["observed"], f"rc={code} {out.strip().splitlines()[-1] if out.strip() else ''} {err[:200]} obs={obs[:8]} expected={s['observed'][:8]} inputs={s['inputs'][:10]}"
            with ThreadPoolExecutor(NPROC) as ex:
                for t, ok, d in ex.map(val, todo):
                    if ok:
                        validated += 1
                        if len(samples) < 5: samples.append(dict(entry=t[2]["job"]["entry"], params=t[2]["job"]["params"], inputs={a: b for a, b in t[3]["inputs"][:24]}, observed=t[3]["observed"][:16]))
                    else:
                        print(f"ERROR: native replay of a symbolic path disagrees: {t[2]['job']}: {d}"); rc = max(rc, 2)
        if confirmed: rc = 1
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", wall_s=round(time.time() - self.t0, 2), violations=1 if confirmed else 0,
                  assumptions=self.cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
                  coverage=dict(
                      states=tot["paths"], transitions=tot["instructions"], traces_validated_against_impl=validated,
                      samples=samples or [dict(note="no sample (violation found)")],
                      explanation="states = completed symbolic paths (each stands for all inputs following it); transitions = LLVM instructions of the real code executed symbolically; traces_validated = sampled paths whose model was replayed on the native build with equal observed values",
                      bounds=self.cfg.get("bounds", ""), jobs=len(results), jobs_detail=[dict(entry=r["job"]["entry"], params=r["job"]["params"], paths=r.get("paths", 0), queries=r.get("queries", 0), wall_s=r.get("wall_s", 0)) for r in results][:80],
                      queries_discharged=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], solver_s=round(tot["solver_s"], 2), longest_query_s=longest,
                      forks=tot["forks"], infeasible_paths=tot["infeasible"], assertions_evaluated=tot["checks"], assertions_constant=tot["checks_constant"], assertions_decided_by_solver=tot["checks_solver"],
                      assertion_labels=labels, reachability_witnesses=covers, skipped_optional_harnesses=skipped,
                      functions_encoded={f: sorted(x) for f, x in sorted(funcs.items())}, source_lines_encoded={f: len(x) for f, x in sorted(lines.items())},
                      incomplete=incomplete, exhaustive=(rc == 0 and not incomplete)))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        json.dump({f: sorted(x) for f, x in lines.items()}, open(os.path.join(self.dir, "lines.json"), "w"))
        print(f"{self.pid}: {len(results)} jobs, {tot['paths']} paths, {tot['instructions']} instructions, {tot['queries']} queries ({tot['solver_s']:.1f}s solver), {tot['checks']} assertions, {validated} traces validated, compile {self.tcompile:.1f}s, total {time.time() - self.t0:.1f}s, exit {rc}")
        return rc

COMMON_ASSUMPTIONS = [
    "clang 18 -O2 lowers the C++ source faithfully; the native replay uses g++ on the same source",
    "symir's LLVM IR semantics and the libstdc++ models in engine/runtime.cpp and engine/shim (red-black tree, hashing policy, string streams, exceptions) are correct; sampled paths are replayed natively on every run",
    "Z3 4.8.12 verdicts; satisfying models are re-evaluated before use",
    "memory allocation does not fail; poison/undef values are treated as zero"]

if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py PROPERTY; known:", " ".join(CHECKS)); sys.exit(2)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    c = Check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    rc = c.main()
    sys.stdout.flush()
    sys.exit(rc)
