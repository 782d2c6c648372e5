#!/usr/bin/env python3
"""Runs the solver-based check of one property.   check.py PROPERTY [--tier quick|thorough]
   check.py --replay FILE      re-runs a reported violation against the real code."""
import sys, os, json, time, tempfile, shutil, subprocess, re, random
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import native, spec
VSE = os.path.join(VERIF, "build", "vse")


def merge(parts):
    t = {"samples": [], "violations": [], "functions": set(), "incomplete": set(), "reached": {}, "check_msgs": {}}
    for p in parts:
        for k, v in p.items():
            if isinstance(v, (int, float)):
                t[k] = t.get(k, 0) + v
            elif k in ("functions", "incomplete"):
                t[k] |= set(v)
            elif k in ("reached", "check_msgs"):
                for a, b in v.items():
                    t[k][a] = t[k].get(a, 0) + b
            else:
                t[k] += v
    return t


class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.spec = spec.SPEC[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = tempfile.mkdtemp(prefix="ginv-%s-" % prop)
        self.tree = native.Tree(self.work)
        self.tot = {}
        self.violations, self.known, self.problems, self.partial = [], [], [], []
        self.samples, self.validated, self.functions, self.jobs = [], 0, set(), []
        self.kf = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and not line.startswith("#"):
                    e = json.loads(line)
                    if e.get("property") == prop and e.get("status") == "known":
                        self.kf.append(e)
        self.budget = 780.0

    def left(self):
        return self.budget - (time.time() - self.t0)

    def replay_file(self, n, body):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, n))
        json.dump(body, open(p, "w"), indent=1)
        return p

    def is_known(self, job, v):
        for e in self.kf:
            if e.get("entry") == job["e"] and re.search(e["msg"], v["msg"]) and re.search(e.get("where", ""), v.get("where", "")):
                return e
        return None

    # ---- C++ jobs -------------------------------------------------------
    def ir_job(self, job):
        tag = job["h"] + "_" + job["e"]
        defs = ["-DTIER=%d" % (1 if self.tier == "thorough" else 0)] + list(job.get("defs", []))
        x = self.tree.link(job["h"], defs, tag)
        out = os.path.join(self.work, tag + ".json")
        limit = min(job.get("time_thorough", 700) if self.tier == "thorough" else job.get("time", 420), max(20, self.left() - 40))
        env = dict(os.environ, TMPDIR=self.work)
        if job.get("logic"):
            env["VSE_LOGIC"] = job["logic"]
        cmd = [VSE, x, job["e"], "-o", out, "--time", "%d" % limit, "--jobs", str(os.cpu_count() or 4)] + job.get("opts", [])
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit + 120)
        if p.returncode or not os.path.exists(out):
            self.problems.append("%s: engine failed: %s" % (tag, p.stdout[-600:]))
            return
        r = merge(json.load(open(out)))
        for k, v in r.items():
            if isinstance(v, (int, float)):
                self.tot[k] = self.tot.get(k, 0) + v
        self.functions |= r["functions"]
        self.jobs.append({"entry": job["e"], "harness": job["h"] + ".cpp", "paths": r.get("paths", 0), "completed": r.get("completed", 0), "instructions": r.get("instrs", 0),
                          "queries": r.get("queries", 0), "query_cache_hits": r.get("cache_hits", 0), "solver_s": round(r.get("solver_s", 0), 2),
                          "checks": r.get("checks", 0), "checks_closed_by_term_simplification": r.get("checks_syntactic", 0), "checks_closed_by_solver": r.get("checks_by_solver", 0),
                          "bounds": job.get("bounds", ""), "check_messages": r["check_msgs"], "reached": r["reached"], "incomplete": sorted(r["incomplete"]), "dropped_states": r.get("dropped", 0)})
        # vacuity
        if not r["violations"]:
            for m in job.get("reach", []):
                if m not in r["reached"]:
                    self.problems.append("%s: witness '%s' never reached" % (tag, m))
        if r["incomplete"] or r.get("dropped"):
            self.partial.append("%s: %s (%d states dropped)" % (tag, "; ".join(sorted(r["incomplete"]))[:400], r.get("dropped", 0)))
        self.judge(job, tag, defs, r)
        self.validate(job, tag, defs, r)

    def judge(self, job, tag, defs, r):
        seen = set()
        for v in sorted(r["violations"], key=lambda v: (v["kind"], v["msg"], len(v["input"]))):
            key = (v["kind"], v["msg"])
            if v["kind"] == "engine":
                self.partial.append("%s: engine limit: %s" % (tag, v["msg"]))
                continue
            if key in seen:
                continue
            k = self.is_known(job, v)
            path = os.path.join(self.work, tag + ".in")
            native.write_assignment(path, v["input"])
            verdict = None
            for cfg in job.get("configs", ["release", "asan", "asan-nopool"]):
                try:
                    exe = self.tree.native(cfg, job["h"], job["e"], defs)
                except native.BuildError as e:
                    self.problems.append("%s: replay build %s failed: %s" % (tag, cfg, str(e)[-300:]))
                    continue
                vd, det = native.run_replay(exe, path, 60 if v["kind"] == "nontermination" else 30)
                if vd in ("check", "crash", "leak", "hang"):
                    verdict = (cfg, vd, det)
                    break
            if verdict is None:
                self.unconfirmed.append("%s: %s: %s at %s input %s" % (tag, v["kind"], v["msg"], v["where"][:300], v["input"][:30]))
                continue
            seen.add(key)
            body = {"property": self.prop, "harness": job["h"], "entry": job["e"], "defs": defs, "config": verdict[0], "kind": v["kind"], "message": v["msg"],
                    "observed": verdict[1] + ": " + verdict[2], "where": v["where"], "input": v["input"]}
            if k:
                self.known.append((k, body))
            else:
                self.violations.append(body)

    def validate(self, job, tag, defs, r):
        """Replay solver models of completed paths on the real build: the encoding and the code must agree."""
        if not r["samples"] or self.left() < 60 or job.get("novalidate"):
            return
        rnd = random.Random(self.seed)
        s = rnd.sample(r["samples"], min(len(r["samples"]), 24))
        try:
            exe = self.tree.native("release", job["h"], job["e"], defs)
        except native.BuildError as e:
            self.problems.append("%s: validation build failed: %s" % (tag, str(e)[-300:]))
            return
        for n, inp in enumerate(s):
            path = os.path.join(self.work, tag + ".s%d" % n)
            native.write_assignment(path, inp)
            vd, det = native.run_replay(exe, path, 30)
            if vd == "ok":
                self.validated += 1
                if n < 2:
                    self.samples.append({"entry": job["e"], "input": dict(inp[:40]), "native": "completed, all assertions held"})
            elif vd in ("check", "crash", "leak"):
                body = {"property": self.prop, "harness": job["h"], "entry": job["e"], "defs": defs, "config": "release", "kind": "validation",
                        "message": det, "observed": vd + ": " + det, "where": "", "input": inp}
                k = self.is_known(job, {"msg": det, "where": ""})
                if k:
                    self.known.append((k, body))
                elif not self.violations:
                    self.violations.append(body)
            else:
                self.partial.append("%s: validation replay: %s %s" % (tag, vd, det))

    # ---- Python jobs ----------------------------------------------------
    def py_job(self, job):
        limit = min(job.get("time_thorough", 700) if self.tier == "thorough" else job.get("time", 420), max(20, self.left() - 40))
        out = os.path.join(self.work, job["e"] + ".json")
        env = dict(os.environ, GINV_REPO=native.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        p = subprocess.run(["/opt/veriftools/pyvenv/bin/python", os.path.join(VERIF, "checks", "pysym.py"), job["h"], job["e"], "--tier", self.tier, "--time", "%d" % limit, "-o", out],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=limit + 150, cwd=self.work)
        if p.returncode or not os.path.exists(out):
            self.problems.append("%s: engine failed: %s" % (job["e"], p.stdout[-1500:]))
            return
        r = merge(json.load(open(out)))
        for k, v in r.items():
            if isinstance(v, (int, float)):
                self.tot[k] = self.tot.get(k, 0) + v
        self.functions |= r["functions"]
        self.jobs.append({"entry": job["e"], "harness": job["h"] + ".py", "paths": r.get("paths", 0), "completed": r.get("completed", 0),
                          "queries": r.get("queries", 0), "solver_s": round(r.get("solver_s", 0), 2), "checks": r.get("checks", 0), "checks_closed_by_solver": r.get("checks_by_solver", 0),
                          "bounds": job.get("bounds", ""), "check_messages": r["check_msgs"], "reached": r["reached"], "incomplete": sorted(r["incomplete"]), "dropped_states": r.get("dropped", 0)})
        if not r["violations"]:
            for m in job.get("reach", []):
                if m not in r["reached"]:
                    self.problems.append("%s: witness '%s' never reached" % (job["e"], m))
        if r["incomplete"] or r.get("dropped"):
            self.partial.append("%s: %s (%d states dropped)" % (job["e"], "; ".join(sorted(r["incomplete"]))[:400], r.get("dropped", 0)))
        self.validated += r.get("validated", 0)
        for s in r["samples"][:2]:
            self.samples.append({"entry": job["e"], "input": dict(s[:40]), "native": "completed, all assertions held"})
        seen = set()
        for v in sorted(r["violations"], key=lambda v: (v["kind"], v["msg"], len(v["input"]))):
            key = (v["kind"], v["msg"])
            if key in seen:
                continue
            if not v.get("confirmed"):
                self.unconfirmed.append("%s: %s at %s input %s: %s" % (job["e"], v["msg"], v.get("where", "")[:300], v["input"][:30], v.get("observed", "")))
                continue
            seen.add(key)
            body = {"property": self.prop, "harness": job["h"], "entry": job["e"], "python": True, "kind": v["kind"], "message": v["msg"],
                    "observed": v.get("observed", ""), "where": v.get("where", ""), "input": v["input"]}
            k = self.is_known(job, v)
            if k:
                self.known.append((k, body))
            else:
                self.violations.append(body)

    def go(self):
        self.unconfirmed = []
        try:
            if not os.path.exists(VSE):
                subprocess.run(["make", "-C", os.path.join(VERIF, "engine"), os.path.join(VERIF, "build", "vse")], stdout=subprocess.DEVNULL, check=True)
            jobs = self.spec["jobs"]
            if self.tier == "thorough":
                jobs = jobs + self.spec.get("thorough_jobs", [])
            self.budget = 840.0 if self.tier == "thorough" else 780.0
            for n, job in enumerate(jobs):
                if self.left() < 45:
                    self.partial.append("%s not run: time budget" % job["e"])
                    continue
                try:
                    (self.py_job if job.get("py") else self.ir_job)(job)
                except native.BuildError as e:
                    self.problems.append("build: " + str(e)[-1500:])
                except subprocess.TimeoutExpired:
                    self.problems.append("%s: engine did not stop in time" % job["e"])
                if self.violations:
                    break
        finally:
            self.cleanup()
        return self.report()

    def cleanup(self):
        if os.environ.get("GINV_KEEP"):
            print("kept", self.work)
            return
        shutil.rmtree(self.work, ignore_errors=True)

    def report(self):
        wall = time.time() - self.t0
        own = sorted(f for f in self.functions if "GInv::" in f or self.spec.get("python"))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "wall_s": round(wall, 1), "violations": len(self.violations),
              "assumptions": self.spec.get("assumptions", []) + spec.COMMON,
              "coverage": {"states": int(self.tot.get("paths", 0)), "transitions": int(self.tot.get("instrs", 0)) or int(self.tot.get("forks", 0)), "traces_validated_against_impl": self.validated,
                           "samples": self.samples[:12], "exhaustive": not self.partial and not self.problems and not self.violations,
                           "rule": "states = symbolic paths, each covering every input satisfying its path condition; transitions = IR instructions (Python: branch decisions) executed symbolically; traces = solver models of completed paths replayed on the natively built code",
                           "queries": int(self.tot.get("queries", 0)), "solver_s": round(self.tot.get("solver_s", 0), 2), "solver_unknown": int(self.tot.get("unknown", 0)),
                           "assertions_evaluated": int(self.tot.get("checks", 0)), "functions_encoded": len(own), "functions": own[:400],
                           "jobs": self.jobs, "partial": self.partial, "known_findings": [k["id"] for k, _ in self.known]}}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1, ensure_ascii=False)
        done = set()
        for k, b in self.known:
            if k["id"] not in done:
                done.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for n, b in enumerate(self.violations):
            p = self.replay_file(n, b)
            print("  %s: %s [%s] at %s" % (b["entry"], b["message"], b["observed"], b["where"][:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        for p in self.partial:
            print("PARTIAL %s: %s" % (self.prop, p))
        for p in self.unconfirmed:
            print("UNCONFIRMED %s: %s" % (self.prop, p))
        for p in self.problems:
            print("PROBLEM %s: %s" % (self.prop, p))
        st = self.tot
        print("%s %s: %d paths, %d queries, %.1f s solver, %d assertions, %d traces replayed natively, %.1f s" % (self.prop, self.tier, st.get("paths", 0), st.get("queries", 0), st.get("solver_s", 0), st.get("checks", 0), self.validated, wall))
        if self.violations:
            return 1
        if self.problems or self.unconfirmed:
            return 2
        return 0


def replay(path):
    b = json.load(open(path))
    print("%s: %s in %s" % (b["property"], b["message"], b["entry"]))
    if b.get("python"):
        return subprocess.run(["/opt/veriftools/pyvenv/bin/python", os.path.join(VERIF, "checks", "pysym.py"), b["harness"], b["entry"], "--replay", path],
                              env=dict(os.environ, GINV_REPO=native.REPO, PYTHONDONTWRITEBYTECODE="1")).returncode
    w = tempfile.mkdtemp(prefix="ginv-replay-")
    try:
        exe = native.Tree(w).native(b["config"], b["harness"], b["entry"], b["defs"])
        native.write_assignment(os.path.join(w, "in"), b["input"])
        vd, det = native.run_replay(exe, os.path.join(w, "in"), 60)
        print(vd, det)
        return 0 if vd == "ok" else 1
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    sys.exit(Run(a[0], "thorough" if tier == "thorough" else "quick").go())
