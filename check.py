#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current code.

    check.py PROPERTY [quick|thorough]

Compiles the library and the property's harnesses to LLVM bitcode, runs the
symbolic executor (engine/) on every job listed for the property in jobs.py,
replays each counterexample and a sample of the explored paths against a
native build with AddressSanitizer and UndefinedBehaviorSanitizer, and writes
evidence/PROPERTY.json.

Exit code 0: the property held on everything explored. 1: it is broken, with
a line "VIOLATION property=ID replay=PATH". 2: the check could not be made.
Whatever could not be decided (a job over its limits, a counterexample that
the native build does not confirm) is printed and listed in the evidence as
outside what was explored.
"""
import concurrent.futures as cf
import fcntl
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("YS_REPO", "/repo")
NPROC = int(os.environ.get("YS_JOBS", "0")) or os.cpu_count() or 4
sys.path.insert(0, HERE)
import jobs as jobdefs  # noqa: E402

IR_FLAGS = ["-std=c++20", "-O1", "-g0", "-w", "-Xclang", "-disable-llvm-passes",
            "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-DYS_SYMBOLIC"]
NATIVE_FLAGS = ["-std=c++20", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS",
                "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
PLAIN_FLAGS = ["-std=c++20", "-O0", "-g", "-w"]


class CheckError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise CheckError("%s failed:\n%s" % (" ".join(cmd[:3]) + " ... " + cmd[-1],
                                             p.stdout.decode(errors="replace")[-3000:]))
    return p.stdout


def build_engine():
    out = os.path.join(HERE, "_build")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe = os.path.join(out, "ysym")
        srcs = glob.glob(os.path.join(HERE, "engine", "*"))
        if not os.path.exists(exe) or os.path.getmtime(exe) < max(map(os.path.getmtime, srcs)):
            run(["bash", os.path.join(HERE, "engine", "build.sh"), out])
    return exe


class Build:
    """Compiles the library and harnesses into a scratch directory."""

    def __init__(self, work, pool):
        self.work, self.pool = work, pool
        self.inc = os.path.join(work, "inc")
        os.makedirs(self.inc)
        with open(os.path.join(self.inc, "YstringVersion.hpp"), "w") as f:
            f.write("#pragma once\n")
        self.srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
        if not self.srcs:
            raise CheckError("no sources in " + REPO)
        self.includes = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src", "Ystring"),
                         "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "harness"), "-I" + self.inc]
        self.libs = {}
        self.lock = threading.Lock()

    def compile(self, src, out, flags, extra=()):
        run(["clang++"] + flags + self.includes + list(extra) + ["-c", src, "-o", out])
        return out

    @staticmethod
    def source(h):
        """The source file of a harness; those for big texts are compiled with a larger bound."""
        return os.path.join(HERE, "harness", h.split(".")[0] + ".cpp"), ["-DYS_BIG"] if h.endswith(".big") else []

    def harness(self, h, out, flags):
        src, extra = self.source(h)
        return self.compile(src, out, flags, extra)

    def lib(self, kind, flags, ext):
        """Futures for the library's objects."""
        d = os.path.join(self.work, kind)
        os.makedirs(d, exist_ok=True)
        return [self.pool.submit(self.compile, s, os.path.join(d, "%d_%s.%s" % (i, os.path.basename(s), ext)), flags)
                for i, s in enumerate(self.srcs)]

    def start(self, harnesses):
        self.ir = self.lib("ir", IR_FLAGS + ["-emit-llvm"], "bc")
        self.h_ir = {h: self.pool.submit(self.harness, h,
                                         os.path.join(self.work, "ir", "h_" + h + ".bc"),
                                         IR_FLAGS + ["-emit-llvm"]) for h in harnesses}
        self.rt_ir = self.pool.submit(self.compile, os.path.join(HERE, "harness", "rt.cpp"),
                                      os.path.join(self.work, "ir", "rt.bc"), IR_FLAGS + ["-fno-builtin", "-emit-llvm"])
        self.nat = self.lib("nat", NATIVE_FLAGS, "o")
        self.rt = self.pool.submit(self.compile, os.path.join(HERE, "harness", "ys_native.cpp"),
                                   os.path.join(self.work, "nat", "rt.o"), NATIVE_FLAGS)
        self.h_nat = {h: self.pool.submit(self.harness, h,
                                          os.path.join(self.work, "nat", "h_" + h + ".o"), NATIVE_FLAGS)
                      for h in harnesses}

    def module(self, h):
        out = os.path.join(self.work, h + ".bc")
        run(["llvm-link", self.h_ir[h].result()] + [f.result() for f in self.ir] + ["-o", out + ".lib"])
        run(["llvm-link", "--only-needed", out + ".lib", self.rt_ir.result(), "-o", out])
        return out

    def native(self, h):
        with self.lock:
            out = os.path.join(self.work, h + ".nat")
            if not os.path.exists(out):
                run(["clang++"] + NATIVE_FLAGS + [self.h_nat[h].result(), self.rt.result()]
                    + [f.result() for f in self.nat] + ["-o", out + ".tmp"])
                os.rename(out + ".tmp", out)
            return out

    def plain(self, h):
        """Without sanitizers, for valgrind."""
        with self.lock:
            out = os.path.join(self.work, h + ".plain")
            if not os.path.exists(out):
                d = os.path.join(self.work, "plain")
                os.makedirs(d, exist_ok=True)
                objs = []
                src, extra = self.source(h)
                for s in self.srcs + [os.path.join(HERE, "harness", "ys_native.cpp"), src]:
                    o = os.path.join(d, "%d.o" % len(objs))
                    self.compile(s, o, PLAIN_FLAGS, extra if s == src else ())
                    objs.append(o)
                run(["clang++"] + objs + ["-o", out])
            return out


def case_text(params, inputs, obs=None):
    r = ["case"]
    for k, v in sorted(params.items()):
        r.append("param %s %d" % (k, v))
    for name, vals in inputs:
        r.append("in %s %d %s" % (name, len(vals), " ".join(map(str, vals))))
    if obs is not None:
        r.append("obs %d %s" % (len(obs), " ".join("-" if o is None else str(o) for o in obs)))
    r.append("end")
    return "\n".join(r) + "\n"


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C")


def run_native(exe, case_file, timeout, prefix=()):
    try:
        p = subprocess.run(list(prefix) + [exe, case_file], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=ENV)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace")


def confirm(build, job, v, path):
    """Replays a counterexample. Returns a description if it is confirmed."""
    with open(path, "w") as f:
        f.write("# harness %s\n# %s: %s\n# in %s\n" % (job["harness"], v["kind"], v["msg"], v["where"]))
        f.write(case_text(job["params"], v["inputs"]))
    rc, out = run_native(build.native(job["harness"]), path, 20)
    if rc == "timeout":
        return "does not end"
    m = re.search(r"CHECK FAILED.*|SUMMARY: .*|.*runtime error.*|.*Assertion.*", out)
    if rc == 1 or "Sanitizer" in out or "runtime error" in out or (rc not in (0, 3, 4)):
        return m.group(0)[:300] if m else "exit code %s: %s" % (rc, out[-200:])
    if v["kind"] == "uninitialised":
        rc, out = run_native(build.plain(job["harness"]), path, 60, ["valgrind", "-q", "--error-exitcode=99"])
        if rc == 99:
            return "valgrind: " + out.strip().split("\n")[0][:200]
    return None


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    if hard == resource.RLIM_INFINITY or hard > 1 << 30:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, hard))


class Runner:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.procs, self.lock, self.stop = set(), threading.Lock(), False

    def job(self, exe, module, job, deadline, n):
        left = deadline - time.time()
        if self.stop or left < 1:
            return {"status": "not started"}
        out = os.path.join(self.work, "job%d.json" % n)
        t = min(left, job["time"])
        cmd = [exe, module, "--out", out, "--time", "%.1f" % t, "--seed", str(self.seed),
               "--samples", str(job["samples"]), "--max-steps", str(job["steps"]),
               "--parts", str(job["parts"]), "--part", str(job["part"]),
               "--apps", str(job["apps"]), "--merge", str(job["merge"]), "--solver-ms", str(job["solver_ms"])]
        for k, v in job["params"].items():
            cmd += ["--param", "%s=%d" % (k, v)]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limit_memory)
        with self.lock:
            self.procs.add(p)
        try:
            _, err = p.communicate(timeout=t + 40)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return {"status": "killed after its time limit"}
        finally:
            with self.lock:
                self.procs.discard(p)
        if p.returncode != 0 or not os.path.exists(out):
            if self.stop:
                return {"status": "stopped"}
            return {"status": "engine error %s: %s" % (p.returncode, err.decode(errors="replace")[-400:])}
        with open(out) as f:
            return json.load(f)

    def kill_all(self):
        self.stop = True
        with self.lock:
            for p in self.procs:
                p.kill()


def known_findings(prop):
    """Regular expressions for the recorded, unrepaired findings."""
    r = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", line)
            if m and m.group(1) == prop:
                r.append((re.compile(m.group(2)), m.group(3).strip()))
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = jobdefs.CHECKS[prop]
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replays = os.path.join(evdir, "replay")
    os.makedirs(replays, exist_ok=True)
    for f in glob.glob(os.path.join(replays, prop + "-*")):
        os.remove(f)
    known = known_findings(prop)
    jobs = jobdefs.expand(spec, tier)
    only = os.environ.get("YS_ONLY")
    if only:
        jobs = [j for j in jobs if j["harness"] == only]
    budget = jobdefs.BUDGET[tier]
    exe = build_engine()
    work = tempfile.mkdtemp(prefix="ystring-%s-" % prop)
    violations, knowns, unconfirmed, results = [], [], [], []
    runner = Runner(prop, tier, seed, work)
    try:
        deadline = t0 + budget
        harnesses = sorted({j["harness"] for j in jobs})
        with cf.ThreadPoolExecutor(NPROC) as cpool, cf.ThreadPoolExecutor(NPROC) as pool:
            build = Build(work, cpool)
            if spec.get("generate"):
                spec["generate"](build.inc, REPO)
            build.start(harnesses)
            modules = {h: build.module(h) for h in harnesses}
            t_built = time.time()
            futs = {pool.submit(runner.job, exe, modules[j["harness"]], j, deadline, n): j
                    for n, j in enumerate(jobs)}
            for f in cf.as_completed(futs):
                j, r = futs[f], f.result()
                results.append((j, r))
                for v in r.get("violations", []):
                    if violations or len(unconfirmed) >= 5:
                        break
                    path = os.path.join(replays, "%s-%d.case" % (prop, len(violations) + len(unconfirmed) + len(knowns)))
                    desc = confirm(build, j, v, path)
                    text = "%s: %s [%s] %s" % (v["kind"], v["msg"], j["name"], v["where"][:160])
                    hit = next((k for k in known if k[0].search(text)), None)
                    if desc is None and v["kind"] == "hang":
                        r["status"] = "step limit reached"
                    elif desc is None:
                        unconfirmed.append((text, path))
                    elif hit:
                        knowns.append((hit[1], path))
                    else:
                        violations.append((text + " -- natively: " + desc, path))
                if violations and not runner.stop:
                    runner.kill_all()
            # The encoding is validated against the real code on sampled paths.
            validated, mism = 0, []
            if not violations:
                def validate(h):
                    js = [(j, r) for j, r in results if j["harness"] == h and r.get("samples")]
                    path = os.path.join(work, h + ".samples")
                    cases = []
                    for j, r in js:
                        for s in r["samples"]:
                            cases.append((j["params"], s["inputs"], s["obs"]))
                    with open(path, "w") as f:
                        for c in cases:
                            f.write(case_text(*c))
                    if not cases:
                        return h, 0, 0, "", cases
                    rc, out = run_native(build.native(h), path, 240)
                    return h, len(cases), rc, out, cases
                for h, n, rc, out, cases in pool.map(validate, harnesses):
                    validated += n
                    if rc == 0:
                        continue
                    m = re.search(r"(CHECK FAILED|OBSERVATION|ASSUMPTION FAILED).*", out)
                    m = m.group(0) if m else out[-600:]
                    mism.append("%s: exit %s: %s" % (h, rc, m))
                    if rc not in (3, 4, "timeout"):
                        # The real code fails on a concrete input.
                        k = re.search(r"CHECK FAILED case=(\d+)", out)
                        path = os.path.join(replays, "%s-native.case" % prop)
                        with open(path, "w") as f:
                            f.write("# harness %s\n" % h)
                            if k:
                                f.write(case_text(*cases[int(k.group(1)) - 1][:2]))
                            else:
                                for c in cases:
                                    f.write(case_text(*c[:2]))
                        violations.append(("native run of a sampled path: " + m, path))
    finally:
        runner.kill_all()
        if os.environ.get("YS_TIMES"):
            for j, r in sorted(results, key=lambda x: -x[1].get("seconds", 0))[:int(os.environ["YS_TIMES"])]:
                print("time: %.1f s %s %s" % (r.get("seconds", 0), j["name"], r.get("status")))
        if not os.environ.get("YS_KEEP"):
            shutil.rmtree(work, ignore_errors=True)

    # Accounting
    tot = lambda k: sum(r.get(k, 0) for _, r in results)
    complete = [j["name"] for j, r in results
                if r["status"] == "complete" and not r["checks_unknown"] and not r["unknown_branches"]]
    incomplete = ["undecided: " + t for t, _ in unconfirmed] + ["undecided: " + m for m in mism] + sorted(j["name"] + ": " + r["status"]
                        + (" (solver gave up on %d queries)" % (r["checks_unknown"] + r["unknown_branches"])
                           if r["status"] == "complete" else "")
                        + (" %s" % r["unsupported_messages"][:2] if r.get("unsupported_messages") else "")
                        for j, r in results if j["name"] not in complete)
    reach = {}
    for _, r in results:
        for k, n in r.get("reach", {}).items():
            reach[k] = reach.get(k, 0) + n
    funcs = sorted({f for _, r in results for f in r.get("functions", [])})
    apps = {}
    for _, r in results:
        for f, n in r.get("applications", []):
            apps[f] = max(apps.get(f, 0), n)
    missing = [] if violations or only else [l for l in spec.get("reach", []) if l not in reach]
    samples = []
    for j, r in results:
        for s in r.get("samples", [])[:1]:
            if len(samples) < 12:
                samples.append({"job": j["name"], "inputs": s["inputs"], "observed": s["obs"][:40]})
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("steps"),
            "traces_validated_against_impl": validated if not violations else 0,
            "samples": samples,
            "paths_completed": tot("completed"), "paths_outside_assumptions": tot("assumed_away"),
            "property_checks": tot("checks"), "property_checks_decided_by_solver": tot("checks_solver"),
            "property_checks_constant_on_their_path": tot("checks_trivial"),
            "implicit_checks": tot("implicit_checks"),
            "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"),
            "solver_unknown": tot("unknown"), "answered_from_unsat_cores": tot("core_hits"),
            "answered_by_known_models": tot("model_reuse") + tot("model_hits"),
            "solver_seconds": round(tot("solver_seconds"), 2),
            "summary_lemmas": tot("lemmas"),
            "functions_encoded": funcs,
            "functions_summarised_on_demand": sorted("%s (%d regions)" % kv for kv in apps.items()),
            "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
            "jobs_complete": sorted(complete), "jobs_incomplete": incomplete,
            "exhaustive_within_bounds": not incomplete and not violations,
            "slowest_jobs": {j["name"]: r["seconds"] for j, r in
                             sorted(((j, r) for j, r in results if "seconds" in r), key=lambda x: -x[1]["seconds"])[:6]},
            "reached": reach, "build_seconds": round(t_built - t0, 2),
        },
        "assumptions": jobdefs.ASSUMPTIONS + spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d jobs, %d complete, %d paths, %d checks, %d queries (%.1f s), %d paths replayed, %.1f s"
          % (prop, tier, len(results), len(complete), tot("completed"), tot("checks"), tot("queries"),
             tot("solver_seconds"), validated if not violations else 0, wall))
    for i in incomplete[:20]:
        print("bound not reached: " + i[:300])
    if len(incomplete) > 20:
        print("bound not reached: %d more, listed in the evidence" % (len(incomplete) - 20))
    for k, _ in knowns:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if violations:
        for text, path in violations:
            print(text)
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][1]))
        return 1
    # What could not be decided is no violation; it is said here and in the evidence.
    for text, path in unconfirmed:
        print("undecided: counterexample that does not reproduce natively: %s (%s)" % (text, path))
    for m in mism:
        print("undecided: the encoding disagrees with the native code: " + m[:700])
    if missing:
        print("never reached: " + ", ".join(missing))
    if not complete and not tot("completed"):
        print("nothing was explored")
        return 2
    if missing and not incomplete and not unconfirmed and not mism:
        return 2
    return 0


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR: %s" % e)
        sys.exit(2)
