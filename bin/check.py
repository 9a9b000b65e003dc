#!/usr/bin/env python3
"""check.py PROPERTY [--setup]: builds the monitors against /repo's working tree, runs them, judges, writes evidence.

Exit 0: held on everything observed.  Exit 1: VIOLATION line(s).  Exit 2: no verdict (build failure, harness
error, nothing observed).
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shlex
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.realpath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import dictionary  # noqa: E402
from props import PROPS  # noqa: E402

REPO = "/repo"
VH = os.path.join(ROOT, "harness/vh")
TARGET = os.path.join(ROOT, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
NIGHTLY = "nightly"

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()


def log(*a):
    print(*a, flush=True)


class NoVerdict(Exception):
    """The check cannot tell; never reported as a violation or as success."""


# ------------------------------------------------------------------------------------------------ builds

def env_for(extra=None):
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "MIRIFLAGS",
              "CARGO_TARGET_DIR", "CARGO_BUILD_RUSTFLAGS", "RUSTC"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    if extra:
        e.update(extra)
    return e


STABLE = {"RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu"}
# interpreted machines: the host's, one with 32-bit pointers, a big-endian one
MIRI = {"miri": TRIPLE, "miri32": "i686-unknown-linux-gnu", "miribe": "s390x-unknown-linux-gnu"}
PROFILES = ("mon", "release", "flat")
SAN = {"asan": "address", "msan": "memory", "tsan": "thread"}


def build_spec(kind):
    """(command, environment, binary)"""
    if kind in PROFILES:
        d = TARGET
        cmd = ["cargo", "build", "--offline", "--profile", kind]
        return cmd, env_for({**STABLE, "CARGO_TARGET_DIR": d}), f"{d}/{kind}/vh"
    if kind in SAN:
        d = f"{TARGET}/{kind}"
        flags = f"-Zsanitizer={SAN[kind]}"
        cmd = ["cargo", f"+{NIGHTLY}", "build", "--offline", "--release", "--target", TRIPLE]
        if kind != "asan":
            cmd.append("-Zbuild-std")
        if kind == "msan":
            flags += " -Zsanitizer-memory-track-origins"
        return cmd, env_for({"RUSTFLAGS": flags, "CARGO_TARGET_DIR": d}), f"{d}/{TRIPLE}/release/vh"
    if kind in MIRI:
        cmd = ["cargo", f"+{NIGHTLY}", "miri", "run", "--offline", "--target", MIRI[kind], "--", "--worker", "families"]
        return cmd, env_for({"CARGO_TARGET_DIR": f"{TARGET}/{kind}", "MIRI_SYSROOT": f"{TARGET}/{kind}-sysroot",
                             "MIRIFLAGS": "-Zmiri-disable-isolation"}), None
    raise ValueError(kind)


def tree_hash():
    """Contents of everything a build reads from /repo and from the harness."""
    h = hashlib.sha256()
    files = []
    for base, skip in ((REPO, {"target", ".git"}), (os.path.join(ROOT, "harness"), {"target"})):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in skip)
            for f in sorted(fs):
                files.append(os.path.join(d, f))
    for f in files:
        if not f.endswith((".rs", ".toml", ".lock")):
            continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as x:
            h.update(x.read())
        h.update(b"\0")
    return h.hexdigest()


def build(kind):
    """Builds one kind of binary from the current trees (judged by content, not by time)."""
    cmd, env, binary = build_spec(kind)
    d = env["CARGO_TARGET_DIR"]
    os.makedirs(d, exist_ok=True)
    with open(f"{d}/lock-{kind}", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = f"{d}/stamp-{kind}"
        want = tree_hash() + " " + hashlib.sha256(repr((cmd, env.get("RUSTFLAGS"))).encode()).hexdigest()
        try:
            have = open(stamp).read()
        except OSError:
            have = ""
        if have == want and (binary is None or os.path.exists(binary)):
            return binary
        if os.path.exists(stamp):
            os.remove(stamp)
        for pat in ("*/.fingerprint", "*/*/.fingerprint"):
            for fp in glob.glob(f"{d}/{pat}"):
                sub = os.path.relpath(fp, d).split(os.sep)
                if kind in PROFILES and sub[0] != kind:
                    continue
                for name in os.listdir(fp):
                    if re.match(r"(subtile|vh|vhcore)-[0-9a-f]+$", name):
                        shutil.rmtree(os.path.join(fp, name), ignore_errors=True)
        r = subprocess.run(cmd, cwd=VH, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=840)
        if r.returncode != 0:
            raise NoVerdict(f"build {kind} failed:\n" + r.stdout.decode(errors="replace")[-4000:])
        if tree_hash() + want[64:] == want:
            with open(stamp, "w") as f:
                f.write(want)
    return binary


def setup():
    t = time.time()
    os.makedirs(TARGET, exist_ok=True)
    for kind in (*PROFILES, "asan", "tsan", "msan"):
        build(kind)
        log(f"built {kind} after {time.time() - t:.0f} s")

    def one(kind):
        e = build_spec(kind)[1]
        subprocess.run(["cargo", f"+{NIGHTLY}", "miri", "setup", "--target", MIRI[kind]], cwd=VH, env=e, check=True)
        build(kind)
        log(f"built {kind} after {time.time() - t:.0f} s")
    with ThreadPoolExecutor(len(MIRI)) as ex:
        list(ex.map(one, MIRI))


# ------------------------------------------------------------------------------------------------ running

class Run:
    """One finished run of the monitored workload."""

    def __init__(self, stage, rc, out, err, result, hang, progress):
        self.stage, self.rc, self.out, self.err, self.result = stage, rc, out, err, result
        self.hang, self.progress = hang, progress


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.scale, self.level, self.technique, self.rule = PROPS[prop]
        self.violations = []     # dicts
        self.notes = []
        self.stages = []
        self.results = []
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.scratch = tempfile.mkdtemp(prefix=f"vh-{prop}-", dir=base)
        self.lock = threading.Lock()
        cn, fn, cw, fw = dictionary.split(os.path.join(REPO, "src"))
        self.dict = ["--dict", ",".join(map(str, cn)) + ";" + ",".join(map(str, fn)),
                     "--words", "\x1f".join(cw) + "\x1e" + "\x1f".join(fw)]

    def vh(self, stage, cmd, *, prop=None, streams=None, scale=None, threads=None, deadline=60, hang=20, only=None,
           shard=None, digest=False, env=None, mem=None, limit=None):
        """Runs the workload binary once and returns what happened."""
        with self.lock:
            d = tempfile.mkdtemp(prefix="run-", dir=self.scratch)
        out, prog = os.path.join(d, "out.json"), os.path.join(d, "progress")
        a = list(cmd) + ["--prop", prop or self.prop, "--seed", str(SEED), "--tier", TIER, "--out", out, "--scratch", d,
                         "--deadline", str(deadline), "--hang", str(hang), "--progress", prog]
        a += self.dict
        if streams:
            a += ["--streams", ",".join(streams)]
        if scale is not None:
            a += ["--scale", str(scale)]
        if threads:
            a += ["--threads", str(threads)]
        if only:
            a += ["--only", f"{only[0]}:{only[1]}"]
        if shard:
            a += ["--shard", f"{shard[0]}/{shard[1]}"]
        if digest:
            a += ["--digest"]

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))

        fo, fe = open(os.path.join(d, "stdout"), "wb+"), open(os.path.join(d, "stderr"), "wb+")
        p = subprocess.Popen(a, cwd=d, env=env or env_for(), stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, preexec_fn=pre)
        try:
            rc = p.wait(timeout=limit or (deadline + 60 + 2 * hang))
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()

        def tail(f):
            f.flush()
            n = f.seek(0, 2)
            f.seek(max(0, n - 200_000))
            return f.read().decode(errors="replace")

        so, se = tail(fo), tail(fe)
        fo.close()
        fe.close()
        res, hung = None, None
        try:
            res = json.load(open(out))
            hung = res.get("hang")
            if hung:
                res = None
        except (OSError, ValueError):
            pass
        cand = []
        try:
            b = open(prog, "rb").read()
            for i in range(0, len(b) - 15, 16):
                s, n = struct.unpack_from("<QQ", b, i)
                if s:
                    cand.append((s - 1, n))
        except OSError:
            pass
        shutil.rmtree(d, ignore_errors=True)
        return Run(stage, rc, so, se, res, hung, cand)

    # -------------------------------------------------------------------------------------------- judging

    def violation(self, stage, msg, *, stream="", stream_no=None, idx=None, detail="", cmd=None):
        self.violations.append({"property": self.prop, "stage": stage, "seed": SEED, "tier": TIER, "stream": stream,
                                "stream_no": stream_no, "idx": idx, "message": msg, "detail": detail,
                                "replay": cmd})

    def replay_cmd(self, kind, s, i):
        b = build_spec(kind)[2] if kind not in MIRI else f"cargo +nightly miri run --target {MIRI[kind]} --"
        return (f"mkdir -p /dev/shm/r && cd /dev/shm/r && {b} --prop {self.prop} --seed {SEED} --tier {TIER} "
                f"--only {s}:{i} --out /dev/shm/r/out.json --scratch /dev/shm/r {shlex.join(self.dict)} && cat /dev/shm/r/out.json")

    def take(self, kind, run):
        """Records a run that ended by itself (0 or 1) with a result."""
        r = run.result
        self.results.append((kind, r))
        self.stages.append({"build": kind, "stage": run.stage, "evaluations": r["evals"],
                            "distinct_nontrivial": r["distinct"], "cases_per_stream": r["streams"],
                            "wall_s": r["wall_s"], "cut_short": r["cut_short"]})
        for v in r["violations"]:
            self.violation(run.stage, v["msg"], stream=v["stream"], stream_no=v["stream_no"], idx=v["idx"],
                           detail=v["detail"], cmd=self.replay_cmd(kind, v["stream_no"], v["idx"]))

    REPORT = re.compile(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|WARNING: MemorySanitizer|"
                        r"ERROR: LeakSanitizer|AddressSanitizer:DEADLYSIGNAL|error: Undefined Behavior|"
                        r"runtime error: )")

    def settle(self, kind, run, again, allow_report=True):
        """Turns the end of a run into a verdict, confirming crashes and hangs by running the case again."""
        if run.result is not None and run.rc in (0, 1):
            if run.rc == 1 or not run.result["harness_errors"]:
                self.take(kind, run)
                return
        m = self.REPORT.search(run.err)
        if allow_report and m:
            i = m.start()
            self.violation(run.stage, f"{kind}: " + run.err[i:i + 300].replace("\n", " "), detail=run.err[i:i + 6000],
                           cmd=f"cases in progress (stream number, case): {run.progress}")
            return
        if run.result is not None and run.rc == 3:
            if run.result["violations"]:
                self.take(kind, run)
                return
            raise NoVerdict(f"{run.stage}: harness error: {run.result['harness_errors'][:3]}")
        if run.rc == 4 and run.hang:
            h = run.hang
            r2 = again(only=(h["stream_no"], h["idx"]), hang=90, deadline=200)
            if r2.rc == 4 and r2.hang and not r2.hang["in_sut"]:
                raise NoVerdict(f"{run.stage}: the harness hangs: {r2.hang}")
            if r2.rc == 4 and r2.hang:
                self.violation(run.stage, f"does not finish: still running after {r2.hang['cpu_s']} s of processor time",
                               stream=h["stream"], stream_no=h["stream_no"], idx=h["idx"],
                               cmd=self.replay_cmd(kind, h["stream_no"], h["idx"]))
                return
            if r2.result is not None and r2.result["violations"]:
                self.take(kind, r2)
                return
            r3 = again(hang=200, deadline=240)
            if r3.result is not None and r3.rc in (0, 1):
                self.notes.append(f"{run.stage}: a first run was slow ({h})")
                self.take(kind, r3)
                return
            raise NoVerdict(f"{run.stage}: case {h} is slow but does finish")
        crashed = run.rc is not None and run.rc < 0 and -run.rc in (
            signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS)
        if crashed:
            name = signal.Signals(-run.rc).name
            for s, i in run.progress:
                r2 = again(only=(s, i))
                if r2.rc is not None and r2.rc < 0:
                    self.violation(run.stage, f"the process dies with {signal.Signals(-r2.rc).name}: "
                                   + r2.err[-400:].replace("\n", " "), stream_no=s, idx=i, detail=r2.err[-4000:],
                                   cmd=self.replay_cmd(kind, s, i))
                    return
                if r2.result is not None and r2.result["violations"]:
                    self.take(kind, r2)
                    return
            r2 = again()
            if r2.rc is not None and r2.rc < 0 and r2.rc == run.rc:
                self.violation(run.stage, f"the process dies with {name} (twice): " + run.err[-400:].replace("\n", " "),
                               detail=run.err[-4000:] + f"\ncases in progress: {run.progress}")
                return
            if r2.result is not None and r2.rc == 1:
                self.take(kind, r2)
                return
            raise NoVerdict(f"{run.stage}: died with {name} once, not reproduced: {run.err[-800:]}")
        # codes that the workload binary never ends with, or an end before its time
        ended = run.rc is not None and run.rc >= 0 and run.rc not in (2, 3, 4, 101) and run.result is None
        if ended:
            for s, i in run.progress:
                r2 = again(only=(s, i))
                if r2.rc == run.rc and r2.result is None:
                    self.violation(run.stage, f"ends the process with exit code {r2.rc}", stream_no=s, idx=i,
                                   detail=r2.err[-4000:], cmd=self.replay_cmd(kind, s, i))
                    return
        raise NoVerdict(f"{run.stage}: ended with {run.rc}: {run.err[-1500:]}")

    # -------------------------------------------------------------------------------------------- stages

    def main_stage(self, digest=False, processes=1, kind="mon"):
        b = build(kind)
        quick = TIER == "quick"

        def go(only=None, hang=20, deadline=60 if quick else (540 if kind == "mon" else 240), shard=None):
            return self.vh("checked build" if kind == "mon" else f"{kind} build", [b], scale=self.scale if quick else None, only=only, hang=hang, shard=shard,
                           threads=1 if processes > 1 else None, deadline=deadline, mem=8 << 30, digest=digest)
        if processes == 1:
            self.settle(kind, go(), go)
            return
        with ThreadPoolExecutor(processes) as ex:
            runs = list(ex.map(lambda k: go(shard=(k, processes)), range(processes)))
        for r in runs:
            self.settle("mon", r, go)
        if len(self.results) == processes:
            # (the cases of the processes are different ones)
            all_ = [r for _, r in self.results]
            one = dict(all_[0])
            for k in ("evals", "distinct"):
                one[k] = sum(r[k] for r in all_)
            for k, f in (("streams", lambda a, b: a + b), ("counters", lambda a, b: a + b), ("maxima", max)):
                one[k] = {}
                for r in all_:
                    for n, v in r[k].items():
                        one[k][n] = f(one[k][n], v) if n in one[k] else v
            one["samples"] = [x for r in all_ for x in r["samples"]]
            one["cut_short"] = any(r["cut_short"] for r in all_)
            self.results = [("mon", one)]

    def sanitizer_stage(self, kind, streams=None, scale=None, digest=False, threads=None, deadline=None):
        b = build(kind)
        quick = TIER == "quick"
        opts = {"asan": "halt_on_error=1:exitcode=99:detect_leaks=0:allocator_may_return_null=1",
                "msan": "halt_on_error=1:exitcode=99:allocator_may_return_null=1",
                "tsan": "halt_on_error=1:exitcode=99:allocator_may_return_null=1"}
        e = env_for({f"{kind.upper()}_OPTIONS": opts.get(kind, "")})

        def go(only=None, hang=60, deadline=deadline or (60 if quick else 300)):
            return self.vh(f"{kind} build", [b], streams=streams, scale=scale, only=only, hang=hang, deadline=deadline,
                           digest=digest, threads=threads, env=e)
        self.settle(kind, go(), go)

    def miri_stage(self, groups, scale, deadline, digest=True, flags="", kind="miri"):
        """groups: (workloads, processes) pairs"""
        build(kind)
        cmd, env, _ = build_spec(kind)
        cmd = cmd[:cmd.index("--worker")]
        # cargo needs the manifest, the workload its own directory
        cmd[cmd.index("--offline"):cmd.index("--offline") + 1] = ["--offline", "--manifest-path", f"{VH}/Cargo.toml"]
        env = dict(env)
        env["MIRIFLAGS"] += " " + flags
        jobs = [(streams, (k, n)) for streams, n in groups for k in range(n)]

        def one(job):
            return self.vh(f"Miri on {MIRI[kind]}" + (f" {flags}" if flags else ""), cmd, streams=job[0], scale=scale, shard=job[1], threads=1,
                           deadline=deadline, digest=digest, env=env, limit=deadline + 120)
        with ThreadPoolExecutor(len(jobs)) as ex:
            runs = list(ex.map(one, jobs))
        for r in runs:
            if r.result is not None and r.rc in (0, 1) and (r.rc == 1 or not r.result["harness_errors"]):
                self.take(kind, r)
                continue
            m = self.REPORT.search(r.err)
            if m:
                self.settle(kind, r, None)
            else:
                # interpreter limits are not verdicts
                self.notes.append(f"one Miri shard gave no result ({r.rc}): {r.err[-600:]}")

    def compare_digests(self):
        """The same case must look the same in every build."""
        seen = {}
        n = 0
        for kind, r in self.results:
            for s, i, h in r.get("digests", []):
                k = (s, i)
                if k not in seen:
                    seen[k] = (h, kind)
                    continue
                n += 1
                if seen[k][0] != h and len(self.violations) < 8:
                    self.violation("comparison of builds", f"case {k} gives other results in the {kind} build than in the "
                                   f"{seen[k][1]} build", stream_no=s, idx=i, cmd=self.replay_cmd("mon" if kind in MIRI else kind, s, i))
        return n

    def callgrind_stage(self):
        """Instructions executed by decoding, for streams of each family and of eight times the length."""
        b = build("mon")
        d = tempfile.mkdtemp(prefix="cg-", dir=self.scratch)
        e = env_for()
        target = 120e6 if TIER == "quick" else 1500e6

        def sh(a, t):
            return subprocess.run(a, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t)

        fams = sh([b, "--worker", "families"], 60).stdout.decode().splitlines()
        if len(fams) < 10:
            raise NoVerdict("no families")

        def measure(f, n, times):
            p = os.path.join(d, f"{f.replace(' ', '_')}-{n}-{times}")
            r = sh([b, "--seed", str(SEED), "--worker", f"gen:{f}:{n}:{p}"], 120)
            if r.returncode != 0:
                raise NoVerdict(f"family {f} cannot be generated: {r.stderr[-300:]}")
            r = sh(["valgrind", "--tool=callgrind", "--toggle-collect=vh_decode_work", "--callgrind-out-file=/dev/null", b,
                    "--worker", f"work:{f}:{times}:{p}"], 500)
            os.remove(p)
            m = re.search(rb"Collected : (\d+)", r.stderr)
            k = re.search(rb"items (\d+) errors (\d+) bytes (\d+)", r.stdout)
            if r.returncode != 0 or not m or not k or int(m[1]) == 0:
                raise NoVerdict(f"callgrind of {f} x {n}: {r.returncode}: {r.stderr[-500:]}")
            return int(m[1]), int(k[1]) + int(k[2]), int(k[3])

        def one(job):
            f, times = job
            c, _, _ = measure(f, 96, times)
            n = int(max(200, min(target * 96 / c, 60_000 if TIER == "quick" else 500_000)))
            try:
                a = measure(f, n // 8, times)
                z = measure(f, n // 8 * 8, times)
            except subprocess.TimeoutExpired:
                return f, times, n, None, None
            return f, times, n, a, z

        jobs = [(f, 0) for f in fams] + [(f, 1) for f in fams if f.startswith("pgs")]
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, jobs))
        worst = 0.0
        table = []
        for f, times, n, a, z in rs:
            if a is None:
                self.notes.append(f"callgrind of {f} took too long for a count")
                continue
            k = max(z[2] / a[2], z[1] / a[1] if a[1] else 0)
            x = z[0] / (a[0] * k)
            worst = max(worst, x)
            table.append({"family": f, "times_only": bool(times), "instructions": [a[0], z[0]], "bytes": [a[2], z[2]],
                          "items": [a[1], z[1]], "relative_work_per_unit": round(x, 4)})
            if x > 1.3 and z[0] - a[0] * k > 200_000:
                self.violation("instruction counts", f"{f}{', times only' if times else ''}: {a[2]} bytes ({a[1]} items) take {a[0]} "
                               f"instructions, {z[2]} bytes ({z[1]} items) take {z[0]}: {x:.2f} times the linear amount",
                               stream=f, idx=n, detail=f"family {f}, n = {n // 8} and {n // 8 * 8}",
                               cmd=f"{b} --seed {SEED} --worker 'gen:{f}:{n}:/dev/shm/x' ; valgrind --tool=callgrind "
                                   f"--toggle-collect=vh_decode_work {b} --worker 'work:{f}:{times}:/dev/shm/x'")
        if not table:
            raise NoVerdict("no instruction counts")
        self.stages.append({"build": "mon", "stage": "valgrind instruction counts", "streams_measured": len(table) * 2,
                            "largest_relative_work": round(worst, 4), "measurements": table})
        return len(table) * 2

    # -------------------------------------------------------------------------------------------- end

    def known(self):
        """Listed findings: property and signature of the failing case."""
        out = []
        try:
            for line in open(os.path.join(ROOT, "known_findings.txt")):
                m = re.match(r"finding: property=(\S+) signature=([0-9a-f]{16}) (.*)", line.strip())
                if m and m[1] == self.prop:
                    out.append((m[2], m[3]))
        except OSError:
            pass
        return out

    def finish(self, extra=0):
        main = self.results[0][1] if self.results else None
        evals = sum(r["evals"] for _, r in self.results) + extra
        distinct = main["distinct"] if main else 0
        if not self.violations:
            if main is None or evals == 0:
                raise NoVerdict("nothing was observed")
            if distinct < 20:
                raise NoVerdict(f"only {distinct} distinct cases were observed")
            if not main["cut_short"] and any(n == 0 for n in main["streams"].values()):
                raise NoVerdict("a workload did not run")
        samples = []
        if main:
            per = {}
            for s in main["samples"]:
                if per.setdefault(s["stream"], 0) < 2 and len(samples) < 16:
                    per[s["stream"]] += 1
                    samples.append({"workload": s["stream"], "case": s["case"][:500]})
        known = dict(self.known())
        new, old = [], []
        for v in self.violations:
            sig = hashlib.sha256((v["stream"] + "\0" + re.sub(r"\d+(\.\d+)? s\b", "", v["message"])).encode()).hexdigest()[:16]
            v["signature"] = sig
            (old if sig in known else new).append(v)
        cov = {"evaluations": evals, "distinct_nontrivial": distinct, "rule": self.rule, "samples": samples or [self.rule],
               "stages": self.stages, "notes": self.notes}
        if main:
            cov["observed"] = main["counters"]
            cov["maxima"] = main["maxima"]
            cov["cases_per_workload"] = main["streams"]
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": ["the oracles in harness/ state the property correctly",
                              "only the executions counted here were observed"],
              "wall_s": round(time.time() - T0, 2), "violations": len(new)}
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f".{self.prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, f"{self.prop}.json"))
        for v in {v["signature"]: v for v in old}.values():
            log(f"KNOWN-FINDING: property={self.prop} {known[v['signature']]}")
        if not new:
            log(f"{self.prop}: held on {evals} evaluations ({distinct} distinct) in {time.time() - T0:.1f} s")
            return 0
        rd = os.path.join(d, "replays")
        os.makedirs(rd, exist_ok=True)
        for f in glob.glob(os.path.join(rd, f"{self.prop}-*.json")):
            os.remove(f)
        for k, v in enumerate(new[:8]):
            p = os.path.join(rd, f"{self.prop}-{k}.json")
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            log(f"{self.prop}: {v['stage']}: {v['stream']} {v['idx']}: {v['message'][:700]}")
            log(f"VIOLATION property={self.prop} replay={p}")
        return 1

    def run(self):
        quick = TIER == "quick"
        extra = 0
        if self.prop == "X04":
            kinds = ["mon", "release", "asan", "msan", "miri"]
            with ThreadPoolExecutor(len(kinds)) as ex:
                list(ex.map(build, kinds))
            self.main_stage(digest=True)
            for kind in ("release", "asan", "msan"):
                if self.violations:
                    break
                self.sanitizer_stage(kind, scale=self.scale if quick else (None if kind == "release" else 0.5), digest=True)
            # (building the patterns of the .idx reader takes the interpreter long: one process)
            small = [(["small-vob", "small-pgs"], 7), (["small-rest"], 1)]
            if not self.violations:
                self.miri_stage(small, 0.5 if quick else None, 60 if quick else 240)
                if not quick:
                    self.miri_stage(small, 0.5, 150, flags="-Zmiri-tree-borrows")
            n = self.compare_digests()
            self.stages.append({"stage": "comparison of builds", "case_results_compared": n})
            if n < 100 and not self.violations:
                raise NoVerdict("too few results compared between builds")
        elif self.prop == "X02":
            with ThreadPoolExecutor(2) as ex:
                list(ex.map(build, ["mon", "tsan"]))
            self.main_stage()
            if not self.violations:
                self.sanitizer_stage("tsan", streams=["threads", "shared", "mixed"], scale=0.5 if quick else None)
        elif self.prop == "X11":
            with ThreadPoolExecutor(3) as ex:
                list(ex.map(build, ["mon", "miri32", "miribe"]))
            self.main_stage(digest=True)
            if not self.violations:
                groups = [(["vob", "pgs", "text", "geometry", "readers", "images"], 3), (["idx"], 1)]
                # (aliasing and validity are the business of X04)
                fast = "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
                with ThreadPoolExecutor(2) as ex:
                    list(ex.map(lambda k: self.miri_stage(groups, 2 if quick else None, 80 if quick else 380, flags=fast, kind=k),
                                ["miri32", "miribe"]))
            n = self.compare_digests()
            self.stages.append({"stage": "comparison of machines", "case_results_compared": n})
            if n < 60 and not self.violations:
                raise NoVerdict("too few results compared between machines")
        elif self.prop == "X16":
            with ThreadPoolExecutor(2) as ex:
                list(ex.map(build, ["mon", "flat"]))
            self.main_stage()
            # (nothing inlined, nothing turned into a loop)
            if not self.violations:
                self.main_stage(kind="flat")
        elif self.prop in ("X09", "X15"):
            # the level of logging, the descriptors and the settings belong to a process
            self.main_stage(processes=os.cpu_count() or 4)
        elif self.prop == "X07":
            build("mon")
            self.main_stage()
            if not self.violations:
                extra = self.callgrind_stage()
        else:
            self.main_stage()
        return self.finish(extra)


def main():
    if sys.argv[1:] == ["--setup"]:
        setup()
        return 0
    prop = sys.argv[1]
    c = Check(prop)
    try:
        return c.run()
    except NoVerdict as e:
        if c.violations:
            return c.finish()
        log(f"{prop}: no verdict: {e}")
        return 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
