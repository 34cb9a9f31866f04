#!/usr/bin/env python3
"""Decides one property by running its workloads under their monitors.

  check.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)
  check.py --replay FILE       runs the failing case of a violation again

Exit status: 0 held, 1 violated (VIOLATION line), 2 no answer.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import specs  # noqa: E402

CORES = os.cpu_count() or 8


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def compile_cmd(b, out):
    cxx = b.get("cxx", "clang++")
    cmd = [cxx, "-std=" + b.get("std", "c++17"), "-w", "-ftemplate-depth=2048"]
    cmd += b["flags"]
    cmd += ["-I", REPO, "-I", os.path.join(VERIF, "harness")]
    cmd += ["-D%s=%s" % kv for kv in sorted(b.get("defs", {}).items())]
    cmd += [os.path.join(VERIF, "harness", b["src"]), "-o", out]
    cmd += b.get("libs", [])
    return cmd


SAN_ENV = {
    "ASAN_OPTIONS": "detect_stack_use_after_return=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:malloc_context_size=6:quarantine_size_mb=64:hard_rss_limit_mb=7000:detect_leaks=%d",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4:report_thread_leaks=0",
    "MSAN_OPTIONS": "halt_on_error=1:exitcode=98",
    "LSAN_OPTIONS": "exitcode=98",
}


def run_job(bin_, b, job, scratch, tag, only=None):
    env = dict(os.environ)
    for k, v in SAN_ENV.items():
        env[k] = v % (1 if b.get("leaks", True) else 0) if "%d" in v else v
    env.update(b.get("env", {}))
    st = os.path.join(scratch, tag + ".status")
    di = os.path.join(scratch, tag + ".distinct")
    env["VT_STATUS"] = st
    env["VT_DISTINCT"] = di
    tr = os.path.join(scratch, tag + ".trace")
    env["VT_TRACE"] = tr
    args = ["%s=%s" % kv for kv in job["args"].items()]
    if only is not None:
        args = [a for a in args if not a.startswith(("from=", "iters="))] + ["only=%d" % only]
    cmd = b.get("wrap", []) + [bin_] + args
    t0 = time.time()
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         cwd=scratch, start_new_session=True)
    timed_out = False
    try:
        out, _ = p.communicate(timeout=job.get("timeout", 300))
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
    out = out.decode("utf-8", "replace")
    status = {}
    try:
        raw = open(st, "rb").read()
        it, op = struct.unpack("QQ", raw[:16])
        status = {"iter": it, "op": op, "text": raw[16:].split(b"\0")[0].decode("utf-8", "replace")}
    except (OSError, struct.error):
        pass
    return {"rc": p.returncode, "out": out, "timed_out": timed_out, "wall": time.time() - t0,
            "status": status, "distinct": di, "trace": tr, "cmd": cmd}


def classify(res):
    """(kind, message) of a failed run, or None."""
    out = res["out"]
    if res["timed_out"]:
        return "hang", "no result in time; " + json.dumps(res["status"])
    if res["rc"] == 0 and "\n@DONE" in "\n" + out:
        return None
    m = re.search(r"^@FAIL (\S+) (.*)$", out, re.M)
    if m:
        return m.group(1), m.group(2)
    m = re.search(r"ERROR: AddressSanitizer: (\S+)(.*)", out)
    if m:
        return "asan-" + m.group(1), m.group(0)
    m = re.search(r"ERROR: LeakSanitizer: (.*)", out)
    if m:
        return "lsan-leak", m.group(0)
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", out)
    if m:
        return "tsan-" + m.group(1).strip().replace(" ", "-"), m.group(0)
    m = re.search(r"WARNING: MemorySanitizer: (.*)", out)
    if m:
        return "msan-" + m.group(1).strip(), m.group(0)
    m = re.search(r"^==\d+== ((Conditional jump|Use of uninit|Invalid (read|write)|Syscall param|Source and dest|Mismatched free|Invalid free).*)", out, re.M)
    if m:
        return "memcheck", m.group(1)
    m = re.search(r"runtime error: (.*)", out)
    if m:
        return "ubsan", m.group(0)
    m = re.search(r"Assertion [`'].*", out)
    if m:
        return "assertion", m.group(0)
    m = re.search(r"terminate called.*(\n.*what.*)?", out)
    if m:
        return "terminate", m.group(0).replace("\n", " ")
    return "exit-%s" % res["rc"], out.strip()[-300:]


def read_trace(path):
    """{iteration: (digest, digest of orders, rest)} as written by config.cpp"""
    try:
        raw = open(path, "rb").read()
    except OSError:
        return {}
    return {r[0]: r[1:] for r in struct.iter_unpack("QQQQ", raw[: len(raw) // 32 * 32])}


def divergence(traces):
    """First iteration where builds disagree: (iteration, odd build, reference build, what).

    traces: [(build, {iteration: (digest, orders, rest)})]; orders are
    compared within builds of the same order_group only."""
    for field, what in ((0, "results"), (1, "iteration orders")):
        groups = {}
        for b, t in traces:
            groups.setdefault(b.get("order_group") if field else 0, []).append((b, t))
        for g in groups.values():
            for it in sorted(set().union(*[t.keys() for _, t in g])):
                seen = {}
                for b, t in g:
                    if it in t:
                        seen.setdefault(t[it][field], []).append(b)
                if len(seen) > 1:
                    by = sorted(seen.values(), key=len)
                    return it, by[0][0], by[-1][0], what
    return None


def load_known():
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"finding: property=(\S+) build=(\S+) kind=(\S+) match=/(.*)/ (.*)$", line)
            if m:
                known.append(dict(zip(("property", "build", "kind", "match", "what"), m.groups())))
    return known


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = specs.SPECS[prop]
        self.lock = threading.Lock()
        self.failures = []
        self.counters, self.maxima, self.samples = {}, {}, []
        self.distinct = set()
        self.overflow = 0
        self.per_build = {}
        self.known = [k for k in load_known() if k["property"] == prop]
        self.known_hit = {}
        self.errors = []
        self.stop = False
        self.traces = []

    def absorb(self, name, res):
        with self.lock:
            pb = self.per_build.setdefault(name, {"runs": 0, "wall_s": 0.0})
            pb["runs"] += 1
            pb["wall_s"] = round(pb["wall_s"] + res["wall"], 2)
            for line in res["out"].splitlines():
                p = line.split(" ", 2)
                if p[0] == "@STAT":
                    self.counters[p[1]] = self.counters.get(p[1], 0) + int(p[2])
                    if p[1] in ("operations", "evaluations"):
                        pb[p[1]] = pb.get(p[1], 0) + int(p[2])
                elif p[0] == "@MAX":
                    self.maxima[p[1]] = max(self.maxima.get(p[1], 0), int(p[2]))
                elif p[0] == "@SAMPLE" and len(self.samples) < 12:
                    self.samples.append("%s: %s" % (name, line[8:]))
            try:
                raw = open(res["distinct"], "rb").read()
                salt = zlib_salt(name)
                for (h,) in struct.iter_unpack("Q", raw[: len(raw) // 8 * 8]):
                    self.distinct.add(h ^ salt)
                os.unlink(res["distinct"])
            except OSError:
                pass

    def handle(self, name, b, job, bin_, scratch, tag):
        if self.stop:
            return
        res = run_job(bin_, b, job, scratch, tag)
        bad = classify(res)
        if bad and (bad[0] == "hang" or res["rc"] == -9):
            # a hang counts only when it happens twice, and so does being
            # ended for what all jobs together used of the memory
            res = run_job(bin_, b, job, scratch, tag)
            bad = classify(res)
        self.absorb(name, res)
        if b.get("compare"):
            with self.lock:
                self.traces.append((b, job, read_trace(res["trace"])))
        if bad:
            kind, msg = bad
            for k in self.known:
                if k["build"] in (name, "*") and k["kind"] == kind and re.search(k["match"], msg + "\n" + res["out"]):
                    with self.lock:
                        self.known_hit[k["what"]] = True
                    return
            with self.lock:
                self.failures.append({"build": name, "job": job, "kind": kind, "msg": msg, "res": res})
                self.stop = True

    def run(self):
        t0 = time.time()
        builds = [b for b in self.spec["builds"](self.tier)]
        scratch = tempfile.mkdtemp(prefix="vt-%s-" % self.prop.lower())
        try:
            self._run(builds, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        wall = time.time() - t0
        return self.finish(builds, wall)

    def _run(self, builds, scratch):
        cpool = cf.ThreadPoolExecutor(max_workers=CORES)
        futs = []

        def build_and_run(i, b):
            out = os.path.join(scratch, "b%d" % i)
            t = time.time()
            cmd = compile_cmd(b, out)
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                with self.lock:
                    if b.get("must_compile"):
                        m = re.search(r"error: (.*)", r.stdout)
                        self.failures.append({"build": b["name"], "job": b["jobs"][0], "kind": "does-not-compile",
                                              "msg": m.group(1) if m else "the compiler failed",
                                              "res": {"out": r.stdout[:12000], "status": {}}})
                    else:
                        self.errors.append("build %s: %s\n%s" % (b["name"], " ".join(cmd), r.stdout[:3000]))
                return
            with self.lock:
                self.per_build.setdefault(b["name"], {"runs": 0, "wall_s": 0.0})["build_s"] = round(time.time() - t, 1)
            for j, job in enumerate(b["jobs"]):
                job = dict(job)
                args = dict(job.get("args", {}))
                args.setdefault("seed", self.seed * 100000 + zlib_salt(b["name"]) % 1000 * 100 + j)
                if args["seed"] == "%(seed)d":
                    args["seed"] = self.seed
                job["args"] = args
                if self.tier == "quick" and "max_s" in args:
                    job["timeout"] = min(job.get("timeout", 300), float(args["max_s"]) + 150)
                futs.append(cpool.submit(self.handle, b["name"], b, job, out, scratch, "b%dj%d" % (i, j)))

        cfs = [cpool.submit(build_and_run, i, b) for i, b in enumerate(builds)]
        for f in cfs:
            f.result()
        for f in list(futs):
            f.result()
        cpool.shutdown(wait=True)
        for f in futs:
            f.result()
        if self.traces and not self.failures:
            self.compare()

    def compare(self):
        """The same jobs must have observed the same in all builds."""
        by_seed = {}
        for b, job, t in self.traces:
            by_seed.setdefault(json.dumps([job["args"].get("seed"), job["args"].get("mode")]), []).append((b, job, t))
        for runs in by_seed.values():
            common = [it for it in set().union(*[t.keys() for _, _, t in runs]) if sum(it in t for _, _, t in runs) > 1]
            self.counters["histories_compared_between_builds"] = self.counters.get("histories_compared_between_builds", 0) + len(common)
            self.counters["builds_compared"] = max(self.counters.get("builds_compared", 0), len(runs))
            d = divergence([(b, t) for b, _, t in runs])
            if d:
                it, odd, ref, what = d
                msg = "history %d: %s differ between the builds %s and %s" % (it, what, odd["name"], ref["name"])
                job = [j for b, j, _ in runs if b is odd][0]
                self.failures.append({"build": odd["name"], "job": job, "kind": "divergence", "msg": msg, "other": ref,
                                      "res": {"out": msg, "status": {"iter": it}}})

    def finish(self, builds, wall):
        viol = 0
        for f in self.failures[:3]:
            viol += 1
            self.report(f, builds)
        cov = {
            "evaluations": max(self.counters.get("evaluations", 0), self.counters.get("operations", 0)),
            "distinct_nontrivial": len(self.distinct),
            "rule": self.spec["rule"],
            "samples": self.samples or ["(none)"],
            "observed": {k: v for k, v in sorted(self.counters.items())},
            "maxima": self.maxima,
            "builds": self.per_build,
        }
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": self.spec.get("level", "exploration"),
            "coverage": cov,
            "assumptions": self.spec.get("assumptions", specs.ASSUMPTIONS),
            "wall_s": round(wall, 2),
            "violations": viol,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
            fp.write("\n")
        for what in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if viol:
            return 1
        if self.errors:
            for e in self.errors:
                log("ERROR", e)
            return 2
        if cov["evaluations"] == 0:
            log("ERROR nothing was evaluated")
            return 2
        print("%s held: %d evaluations, %d distinct non-trivial, %.1f s (%s)" % (
            self.prop, cov["evaluations"], cov["distinct_nontrivial"], wall, self.tier))
        return 0

    def report(self, f, builds):
        b = [x for x in builds if x["name"] == f["build"]][0]
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        it = f["res"]["status"].get("iter")
        key = hashlib.sha1(json.dumps([f["build"], f["kind"], f["msg"][:200]]).encode()).hexdigest()[:10]
        path = os.path.join(rd, "%s-%s.json" % (self.prop, key))
        with open(path, "w") as fp:
            json.dump({"property": self.prop, "build": {k: v for k, v in b.items() if k != "jobs"},
                       "job": f["job"], "iteration": it, "status": f["res"]["status"],
                       "kind": f["kind"], "message": f["msg"], "other": f.get("other"),
                       "output": f["res"]["out"][-12000:]}, fp, indent=1)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  build %s, %s: %s" % (f["build"], f["kind"], f["msg"][:400]))
        sys.stdout.flush()
        log(f["res"]["out"][-3000:])


def zlib_salt(name):
    return int.from_bytes(hashlib.sha1(name.encode()).digest()[:8], "little")


def replay(path):
    d = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="vt-replay-")
    try:
        if d.get("other"):
            traces = []
            for i, b in enumerate((d["build"], d["other"])):
                out = os.path.join(scratch, "b%d" % i)
                if subprocess.run(compile_cmd(b, out)).returncode:
                    return 2
                res = run_job(out, b, d["job"], scratch, "r%d" % i, d["iteration"])
                traces.append((b, read_trace(res["trace"])))
            bad = divergence(traces)
            if bad:
                print("%s of history %d differ" % (bad[3], bad[0]))
                print("VIOLATION property=%s replay=%s" % (d["property"], path))
                return 1
            print("not reproduced")
            return 0
        out = os.path.join(scratch, "b")
        cmd = compile_cmd(d["build"], out)
        log(" ".join(cmd))
        if subprocess.run(cmd).returncode:
            if d["kind"] == "does-not-compile":
                print("VIOLATION property=%s replay=%s" % (d["property"], path))
                return 1
            return 2
        only = d.get("iteration")
        res = run_job(out, d["build"], d["job"], scratch, "r", only)
        bad = classify(res)
        if not bad:
            # state carried over from earlier cases: run the whole job
            res = run_job(out, d["build"], d["job"], scratch, "r")
            bad = classify(res)
        print(res["out"])
        if bad:
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return Check(sys.argv[1], tier, seed).run()


if __name__ == "__main__":
    sys.exit(main())
