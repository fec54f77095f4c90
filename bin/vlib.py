"""Machinery shared by the checks: building the harness, running TLC, running the
drivers, validating what they recorded, and writing evidence."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "1.76.0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(V, "target")
    e["RUSTFLAGS"] = "--cfg bonsai_verif"
    return e


def build(which):
    """Builds a harness crate from /repo's working tree; ends the check when it does not build."""
    os.makedirs(os.path.join(V, "run"), exist_ok=True)
    with open(os.path.join(V, "run", "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = time.time()
        p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(V, "harness", which), env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-6000:])
            print("the harness %s does not build" % which)
            sys.exit(2)
        print("built %s in %.1f s" % (which, time.time() - t), flush=True)


class Failure(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.thorough = tier == "thorough"
        self.dir = os.path.join(V, "run", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.scratch = os.path.join("/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp",
                                    "bv-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.scratch, exist_ok=True)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.lines = 0
        self.models, self.samples, self.assumptions, self.violations = [], [], [], []
        self.extra = {}
        self.lock = threading.Lock()
        self.replays = os.path.join(V, "run", "replay")
        os.makedirs(self.replays, exist_ok=True)

    # ------------------------------------------------------------------ TLC
    def _tlc(self, spec, cfg, envx, workers, extra, timeout, mem="3g"):
        meta = os.path.join(self.scratch, "tlc-%s-%d" % (spec, threading.get_ident() + time.monotonic_ns()))
        os.makedirs(meta)
        e = dict(os.environ)
        e.update(envx)
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", TLA, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + extra + [spec + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), 124
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    @staticmethod
    def _counts(out):
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if not m:
            m = re.findall(r"The number of states generated: (\d[\d,]*)()", out)
            return (int(m[-1][0].replace(",", "")), 0) if m else (0, 0)
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

    def model(self, spec, cfg, workers=4, timeout=600, extra=(), envx=None, expect=None):
        """Checks the properties on the specification itself.  `expect` names the invariant a
        deliberately broken variant of the model must violate (a check of the model's power)."""
        if expect is not None:
            workers = 1     # which invariant is reported first must not depend on a race
        rc, out = self._tlc(spec, cfg, envx or {}, workers, list(extra), timeout, mem="6g")
        tr, st = self._counts(out)
        with self.lock:
            self.states += st
            self.transitions += tr
            self.models.append({"spec": spec, "config": cfg, "states": st, "transitions": tr,
                                **({"broken_variant_caught_by": expect} if expect else {})})
        if expect is None:
            if rc != 0:
                print(out[-4000:])
                print("the specification %s/%s fails its own properties" % (spec, cfg))
                sys.exit(2)
        elif expect not in out or rc == 0:
            print(out[-4000:])
            print("the broken variant %s/%s is not caught" % (spec, cfg))
            sys.exit(2)
        print("model %s %s: %d states, %d transitions" % (spec, cfg, st, tr), flush=True)

    def validate(self, spec, trace, label, args=None, timeout=600, envx=None, cfg=None):
        """Is the recorded trace one the specification allows?"""
        e = {"TRACE": trace}
        e.update(envx or {})
        rc, out = self._tlc(spec, cfg or spec + ".cfg", e, 1, [], timeout)
        tr, st = self._counts(out)
        with open(trace) as f:
            lines = f.readlines()
        n = sum(1 for x in lines if '"e":"reset"' in x)
        with self.lock:
            self.states += st
            self.transitions += tr
            self.lines += len(lines)
            if rc == 0:
                self.traces += max(n, 1)
                if len(self.samples) < 3 and len(lines) > 1:
                    import random
                    k = random.Random(self.seed + len(self.samples)).randrange(len(lines))
                    self.samples.append({"trace": label, "line": k + 1, "event": lines[k].strip()[:700]})
        if rc == 0:
            return True
        m = re.search(r'REJECTED", (\d+)', out)
        inv = re.search(r"Invariant (\w+) is violated", out)
        if m is None and inv is None:
            # TLC could not evaluate: a result of a shape the specification does not know
            m2 = re.search(r"The number of states generated: (\d+)|(\d+) states generated", out)
            tail = out[-3000:]
            depth = re.findall(r"^State (\d+):", out, re.M)
            line = int(depth[-1]) if depth else None
            why = "the specification cannot interpret the observed result"
            if rc == 124:
                print(tail)
                print("validation of %s did not finish" % label)
                sys.exit(2)
            if line is None:
                print(tail)
        else:
            line = int(m.group(1)) if m else None
            why = "not a behaviour of the specification" if m else "invariant %s violated" % inv.group(1)
            if m is None:
                depth = re.findall(r"^State (\d+):", out, re.M)
                line = int(depth[-1]) - 1 if depth else None
        ev = lines[line - 1].strip()[:1500] if line and line <= len(lines) else ""
        self.violation(label, why + (" (line %s)" % line), trace=trace, line=line, spec=spec, args=args, event=ev)
        return False

    def violation(self, label, why, trace=None, line=None, spec=None, args=None, event=""):
        with self.lock:
            n = len(self.violations)
            path = os.path.join(self.replays, "%s-%d.json" % (self.pid, n))
            kept = None
            if trace and os.path.exists(trace):
                kept = os.path.join(self.replays, "%s-%d.ndjson" % (self.pid, n))
                shutil.copy(trace, kept)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "what": why, "label": label, "driver": args, "spec": spec,
                           "trace": kept, "line": line, "event": event}, f, indent=1)
            self.violations.append({"label": label, "why": why, "replay": path, "event": event[:400]})
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("  %s: %s\n  %s" % (label, why, event[:900]), flush=True)

    # -------------------------------------------------------------- drivers
    def driver(self, args, out, label, bin="bvl", timeout=300, envx=None):
        """Runs a driver that records a trace; a driver that dies is a violation."""
        e = dict(os.environ)
        e["BV_SCRATCH"] = self.scratch
        e.update(envx or {})
        cmd = [os.path.join(V, "target", "debug", bin)] + [str(a) for a in args] + ["--out", out]
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
            rc, txt = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, txt = 124, "the driver did not finish in %d s" % timeout
        if rc != 0:
            self.violation(label, "the driver ended with %s: %s" % (rc, txt[-1500:]), trace=out, args=cmd, event=txt[-800:])
            return False
        return True

    def record(self, spec, jobs, bin="bvl", timeout=300, par=None, envx=None):
        """jobs: (label, driver args).  Runs the drivers and validates their traces, in parallel."""
        def one(job):
            if len(self.violations) >= 3:
                return
            label, args = job[0], job[1]
            ex = dict(envx or {})
            if len(job) > 2:
                ex.update(job[2])
            out = os.path.join(self.dir, re.sub(r"\W+", "-", label) + ".ndjson")
            if self.driver(args, out, label, bin=bin, timeout=timeout, envx=ex):
                self.validate(spec, out, label, args=[bin] + [str(a) for a in args])
            if os.path.exists(out):
                os.remove(out)
        with cf.ThreadPoolExecutor(par or NPROC) as ex:
            for f in [ex.submit(one, j) for j in jobs]:
                f.result()

    def parallel(self, *fs):
        with cf.ThreadPoolExecutor(len(fs)) as ex:
            for f in [ex.submit(f) for f in fs]:
                f.result()

    # ------------------------------------------------------------- the end
    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        for line in known_findings(self.pid):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, line))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "trace_events": self.lines, "models": self.models, "samples": self.samples or [{"none": True}]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d violations, %d traces (%d events), %d states, %.1f s" % (
            self.pid, self.tier, len(self.violations), self.traces, self.lines, self.states, time.time() - self.t0))
        sys.exit(1 if self.violations else 0)


def known_findings(pid):
    r = []
    try:
        with open(os.path.join(V, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\w+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    r.append(m.group(2))
    except FileNotFoundError:
        pass
    return r
