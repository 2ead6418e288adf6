#!/usr/bin/env python3
"""Decides one property of norm by observing executions of the code in /repo.

    check.py ID [--tier quick|thorough]      exit 0: held, 1: violated, 2: no answer
    check.py --replay FILE                   re-observes a recorded violation
    check.py --setup                         prepares the toolchains
"""
import argparse
import glob
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
EVIDENCE = os.path.join(VERIF, "evidence")
HARNESS = os.path.join(VERIF, "harness")
PROBES = os.path.join(VERIF, "probes")
TARGET = "x86_64-unknown-linux-gnu"
GIB = 1 << 30


class NoAnswer(Exception):
    pass


class Violation(Exception):
    def __init__(self, message, replay=None):
        super().__init__(message)
        self.message = message
        self.replay = replay or {}


# ------------------------------------------------------------------ building

def cargo_env(target_dir, rustflags=""):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET",
              "MIRIFLAGS", "RUSTUP_TOOLCHAIN", "RUST_BACKTRACE"):
        env.pop(k, None)
    env["HOME"] = env.get("HOME") or "/root"
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["CARGO_TARGET_DIR"] = target_dir
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_INCREMENTAL"] = "0"
    if rustflags:
        env["RUSTFLAGS"] = rustflags
    return env


def forget(target_dir):
    """cargo goes by mtimes; make it look at the library's sources again."""
    for pat in ("*/.fingerprint/norm-*", "*/*/.fingerprint/norm-*"):
        for d in glob.glob(os.path.join(target_dir, pat)):
            shutil.rmtree(d, ignore_errors=True)


def cargo(crate, name, args, rustflags="", toolchain="stable", want_failure=False,
          wrapper=None):
    tdir = os.path.join(BUILD, name)
    os.makedirs(tdir, exist_ok=True)
    forget(tdir)
    cmd = ["cargo", "+" + toolchain] + args + ["--offline"]
    env = cargo_env(tdir, rustflags)
    if wrapper:
        env["RUSTC_WRAPPER"] = wrapper
    r = subprocess.run(cmd, cwd=crate, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if want_failure:
        return r
    if r.returncode != 0:
        raise NoAnswer(f"{' '.join(cmd)} failed in {crate}:\n{r.stdout[-6000:]}")
    return tdir


def build_rel():
    t = cargo(HARNESS, "rel", ["build", "--release"])
    return os.path.join(t, "release", "normmon")


def build_guided(asan=False):
    """The library instrumented for coverage and comparisons, the rest not."""
    wrapper = os.path.join(VERIF, "bin", "covrustc")
    args, flags = ["build", "--release", "--features", "guided"], "-Cforce-frame-pointers=yes"
    if asan:
        t = cargo(HARNESS, "guided-asan", args + ["--target", TARGET],
                  rustflags=flags + " -Zsanitizer=address", toolchain="nightly", wrapper=wrapper)
        return os.path.join(t, TARGET, "release", "normmon")
    t = cargo(HARNESS, "guided", args, rustflags=flags, wrapper=wrapper)
    return os.path.join(t, "release", "normmon")


def build_sanitized(kind):
    std = ["-Zbuild-std"] if kind in ("thread", "memory") else []
    flags = f"-Zsanitizer={kind}"
    if kind == "memory":
        flags += " -Zsanitizer-memory-track-origins"
    t = cargo(HARNESS, kind + "-san", ["build", "--release", "--target", TARGET] + std,
              rustflags=flags, toolchain="nightly")
    return os.path.join(t, TARGET, "release", "normmon")


def dictionary():
    """An automatic fuzzing dictionary: literals the library's code mentions.

    It only biases the choice of sizes and characters."""
    ints, chars = set(), set()
    for path in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True)):
        if os.path.basename(path) == "normalize.rs":
            continue
        try:
            text = open(path, encoding="utf-8").read()
        except OSError:
            continue
        text = text.split("#[cfg(test)]")[0]
        text = re.sub(r"//[^\n]*", "", text)
        for m in re.finditer(r"(?<![\w.'])(\d[\d_]*|0x[0-9a-fA-F_]+)(?:[ui](?:8|16|32|64|size))?\b", text):
            s = m.group(1).replace("_", "")
            v = int(s, 0) if s.startswith("0x") else int(s)
            if v >= 2:
                ints.add(v)
        for m in re.finditer(r"\b(\d[\d_]*)\s*\*\s*(\d[\d_]*)\b", text):
            ints.add(int(m.group(1).replace("_", "")) * int(m.group(2).replace("_", "")))
        for m in re.finditer(r"<<\s*(\d+)", text):
            if int(m.group(1)) <= 20:
                ints.add(1 << int(m.group(1)))
        for m in re.finditer(r"\b([ui])(8|16)::MAX\b", text):
            ints.add((1 << (int(m.group(2)) - (m.group(1) == "i"))) - 1)
        for m in re.finditer(r"'(\\u\{([0-9a-fA-F]+)\}|\\x([0-9a-fA-F]{2})|\\(.)|([^'\\\n]))'", text):
            if m.group(2) or m.group(3):
                chars.add(int(m.group(2) or m.group(3), 16))
            elif m.group(4):
                chars.add(ord({"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(4), m.group(4))))
            else:
                chars.add(ord(m.group(5)))
        # Characters of string literals, if they're not plain ASCII.
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', text):
            chars.update(ord(c) for c in m.group(1) if ord(c) > 0x7f)
    # Those up to 5000 are sizes to try often, larger ones are for huge inputs.
    return [f"i {v}" for v in sorted(ints) if 2 <= v <= 150_000] + [f"c {v:x}" for v in sorted(chars)]


# ------------------------------------------------------------------- running

def run(cmd, timeout, env=None, mem=None, cwd=None):
    """Returns (returncode or None on timeout, stdout, stderr)."""
    def limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", env=env, cwd=cwd, preexec_fn=limits,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err


def tail(s, n=3000):
    return s if len(s) <= n else s[:n // 2] + "\n[...]\n" + s[-n // 2:]


UNSUPPORTED = re.compile(r"^error: (unsupported operation|resource exhaustion|post-monomorphization error)", re.M)


class Run:
    """State of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violated = False
        self.thorough = tier == "thorough"
        self.work = os.path.join(BUILD, "work", f"{pid}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.dict_lines = dictionary()
        self.dict_path = os.path.join(self.work, "dict")
        with open(self.dict_path, "w") as f:
            f.write("\n".join(self.dict_lines) + "\n")
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.counters = {}
        self.lock = threading.Lock()

    def add(self, res, prefix="", distinct=True):
        with self.lock:
            self.evaluations += res.get("evaluations", 0)
            # Altered replays of different processes may be the same case.
            self.distinct += res.get("distinct", 0) if distinct else 0
            self.samples += res.get("samples", [])
            for k, v in res.get("counters", {}).items():
                k = prefix + k
                if k.split(".")[-1].startswith("max_"):
                    self.counters[k] = max(self.counters.get(k, 0), v)
                else:
                    self.counters[k] = self.counters.get(k, 0) + v

    def count(self, k, n=1):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + n

    # -- the in-process monitors

    def monitor(self, exe, variant, cases=None, threads=8, seconds=None, env=None, mem=16 * GIB,
                prefix="", sanitizer=False, check=None, seed=None):
        check = check or self.pid
        seed = self.seed if seed is None else seed
        out = os.path.join(self.work, f"{variant}-{seed}.json")
        cmd = [exe, "check", "--id", check, "--tier", self.tier, "--seed", str(seed),
               "--threads", str(threads), "--out", out, "--dict", self.dict_path]
        if cases:
            cmd += ["--cases", str(cases)]
        if seconds:
            cmd += ["--max-seconds", str(seconds)]
        rc, so, se = run(cmd, timeout=(seconds or 600) + 220, env=env, mem=mem)
        replay = {"kind": "monitor", "variant": variant, "check": check, "tier": self.tier,
                  "seed": seed, "dict": self.dict_lines, "sanitizer_env": env_of(env)}
        res = {}
        if rc in (0, 10, 11):
            try:
                res = json.load(open(out))
            except (OSError, ValueError) as e:
                raise NoAnswer(f"unreadable result of {cmd}: {e}\n{tail(se)}")
        if rc == 0:
            self.add(res, prefix)
            return res
        if rc in (10, 11):
            replay["case"] = res.get("case")
            self.add(res, prefix)
            raise Violation(res["message"], replay)
        if rc is None:
            raise NoAnswer(f"{cmd} didn't finish in time")
        if rc == 101 or (rc > 0 and not sanitizer):
            raise NoAnswer(f"the harness failed (exit {rc}): {' '.join(cmd)}\n{tail(se)}")
        if rc == -signal.SIGKILL:
            raise NoAnswer(f"{cmd} was killed\n{tail(se)}")
        # The process died: which case did it?
        what = f"the process died ({'signal ' + str(-rc) if rc < 0 else 'exit ' + str(rc)})"
        replay["died"] = True
        cands = []
        try:
            raw = open(out + ".cur", "rb").read()
            cands = [c for (c,) in struct.iter_unpack("<Q", raw[:len(raw) // 8 * 8])
                     if c != 2 ** 64 - 1]
        except OSError:
            pass
        replay["candidate_cases"] = cands
        with ThreadPoolExecutor(4) as ex:
            again = list(ex.map(lambda c: run(cmd + ["--only", str(c)], timeout=100, env=env, mem=mem),
                                cands))
        for c, (rc2, so2, se2) in zip(cands, again):
            if rc2 not in (0, None):
                replay["case"] = c
                raise Violation(f"{what} in case {c}:\n{tail(so2 + se2)}", replay)
        raise Violation(f"{what} in one of the cases {cands}:\n{tail(se)}", replay)

    def guided(self, cases, seconds, procs=8, mem=8 * GIB, asan=False):
        """The same monitors, on cases bred for making the library do new things."""
        exe = build_guided(asan)
        env = san_env("address") if asan else None
        mem = None if asan else mem
        stop = threading.Event()

        def one(k):
            if stop.is_set():
                return None
            seed = self.seed * 1000 + k
            out = os.path.join(self.work, f"guided-{seed}.json")
            cmd = [exe, "guided", "--id", self.pid, "--tier", self.tier, "--seed", str(seed),
                   "--cases", str(cases), "--max-seconds", str(seconds), "--out", out,
                   "--dict", self.dict_path]
            rc, so, se = run(cmd, timeout=seconds + 200, mem=mem, env=env)
            replay = {"kind": "guided", "check": self.pid, "tier": self.tier, "seed": seed,
                      "dict": self.dict_lines, "asan": asan}
            if rc in (0, 10, 11):
                res = json.load(open(out))
                self.add(res, "guided.", distinct=False)
                if rc == 0:
                    return None
                stop.set()
                replay["case"] = res.get("case")
                replay["draws"] = last_draws(out + ".cur") if rc == 11 else open(out + ".draws").read()
                raise Violation(res["message"], replay)
            if rc is None or rc == 101 or (rc > 0 and not (asan and rc == 77)) or rc == -signal.SIGKILL:
                raise NoAnswer(f"guided run failed (exit {rc}): {' '.join(cmd)}\n{tail(se)}")
            stop.set()
            replay["draws"] = last_draws(out + ".cur")
            rc2, so2, se2 = self.redo(exe, replay)
            raise Violation(f"the process died (exit {rc}) in a guided case, again: {rc2}\n"
                            f"{tail(se)}\n{tail(so2 + se2)}", replay)

        parallel(*[lambda k=k: one(k) for k in range(procs)])

    @staticmethod
    def redo(exe, d):
        """Runs one guided case again."""
        dp = os.path.join(BUILD, f"replay-{os.getpid()}-{threading.get_ident()}")
        with open(dp + ".dict", "w") as f:
            f.write("\n".join(d["dict"]) + "\n")
        with open(dp + ".draws", "w") as f:
            f.write(d["draws"])
        try:
            return run([exe, "guided", "--id", d["check"], "--tier", d["tier"], "--seed",
                        str(d["seed"]), "--dict", dp + ".dict", "--draws", dp + ".draws"], timeout=200,
                       env=san_env("address") if d.get("asan") else None)
        finally:
            os.remove(dp + ".dict")
            os.remove(dp + ".draws")

    # -- the interpreter

    def miri(self, spans, flags, label, timeout, target=None, crate=HARNESS, argv=None):
        """Interprets several case ranges at once; UB is a violation."""
        tdir = os.path.join(BUILD, "miri")
        env = cargo_env(tdir)
        env["MIRIFLAGS"] = flags
        base = ["cargo", "+nightly", "miri", "run", "--offline", "-q"]
        if target:
            base += ["--target", target]
        argv = argv or (lambda a, b: ["serial", "--id", self.pid, "--seed", str(self.seed),
                                      "--from", str(a), "--to", str(b)])

        def one(span):
            cmd = base + ["--"] + argv(*span)
            rc, so, se = run(cmd, timeout=timeout, env=env, cwd=crate)
            return span, cmd, rc, so, se

        with ThreadPoolExecutor(8) as ex:
            for span, cmd, rc, so, se in ex.map(one, spans):
                seen = re.findall(r"^case (\d+)$", se, re.M)
                if rc is None:
                    # Out of time: what it got through counts.
                    self.count(f"{label}.cases", max(0, len(seen) - 1))
                    self.count(f"{label}.stopped_early")
                    continue
                if rc != 0 and UNSUPPORTED.search(se) and "VIOLATED" not in so:
                    # Something that Miri can't interpret, not something wrong.
                    self.count(f"{label}.cases", max(0, len(seen) - 1))
                    self.count(f"{label}.not_supported_by_miri")
                    continue
                replay = {"kind": "miri", "flags": flags, "cmd": cmd, "case": seen[-1:] or None}
                if rc == 0 and "RESULT " in so:
                    res = json.loads(so[so.index("RESULT ") + 7:].splitlines()[0])
                    self.count(f"{label}.cases", res["cases"])
                    self.add(res, label + ".")
                    continue
                if "VIOLATED" in so:
                    raise Violation(tail(so), replay)
                if re.search(r"error: Undefined Behavior|Data race|unsafe precondition|"
                             r"error: abnormal termination|deadlock|memory leaked", se):
                    i = se.find("error:")
                    raise Violation(f"Miri ({flags or 'default'}), case {seen[-1:]}:\n{tail(se[max(i, 0):], 6000)}", replay)
                raise NoAnswer(f"miri failed (exit {rc}): {' '.join(cmd)}\n{tail(se)}")

    def miri_build(self, target=None):
        """Builds (but doesn't interpret anything worth mentioning)."""
        tdir = os.path.join(BUILD, "miri")
        os.makedirs(tdir, exist_ok=True)
        forget(tdir)
        env = cargo_env(tdir)
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q"]
        if target:
            cmd += ["--target", target]
        cmd += ["--", "work", "--w", "x"]
        rc, so, se = run(cmd, timeout=600, env=env, cwd=HARNESS)
        if rc != 0:
            raise NoAnswer(f"building for miri failed (exit {rc}):\n{tail(se)}")


def last_draws(path):
    """What the case that was running was made from."""
    try:
        raw = open(path, "rb").read()
        case, idx, n = struct.unpack_from("<3Q", raw)
        ds = [struct.unpack_from("<2I", raw, 24 + 8 * i) for i in range(n)]
    except (OSError, struct.error):
        return ""
    return f"{case}\n{idx}\n" + " ".join(f"{a}:{b}" for a, b in ds) + "\n"


def env_of(env):
    return {k: v for k, v in (env or {}).items() if k.endswith("SAN_OPTIONS")}


def san_env(kind, exe_dir=None):
    env = cargo_env(os.path.join(BUILD, "none"))
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=12000:allocator_may_return_null=0:detect_stack_use_after_return=1"
    env["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=1:history_size=4:second_deadlock_stack=1"
    env["MSAN_OPTIONS"] = "exitcode=77:halt_on_error=1"
    return env


# -------------------------------------------------------------------- checks

def parallel(*fs):
    """Runs the functions at once; the first violation wins, then failures."""
    errs = []
    with ThreadPoolExecutor(len(fs)) as ex:
        futs = [ex.submit(f) for f in fs]
        vals = []
        for f in futs:
            try:
                vals.append(f.result())
            except (Violation, NoAnswer) as e:
                errs.append(e)
                vals.append(None)
    for e in errs:
        if isinstance(e, Violation):
            raise e
    for e in errs:
        raise e
    return vals


# How many cases each of the processes runs at the quick tier.
GUIDED_CASES = 15_000
# These watch the allocator's calls.
UNGUIDED = {"C23"}


def check_generic(r):
    exe = build_rel()
    r.monitor(exe, "rel", seconds=400 if r.thorough else 100)
    if r.pid not in UNGUIDED:
        r.guided(*((10 ** 9, 240) if r.thorough else (GUIDED_CASES, 60)))


LIFETIME_PROBES = [f"{a}_{b}" for a in ("reparse", "dropped", "moved", "static")
                   for b in ("parse", "parse_not_extended")]


def check_c02(r):
    def asan():
        exe = build_sanitized("address")
        r.monitor(exe, "address-san", env=san_env("address"), mem=None, threads=4 if not r.thorough else 6,
                  seconds=300 if r.thorough else 60, prefix="asan.", sanitizer=True)

    def msan():
        exe = build_sanitized("memory")
        r.monitor(exe, "memory-san", env=san_env("memory"), mem=None, threads=2,
                  cases=400_000 if r.thorough else 10_000, seconds=200 if r.thorough else 40,
                  prefix="msan.", sanitizer=True)

    def miri():
        r.miri_build()
        k, n = (40, 24) if r.thorough else (5, 24)
        base = 10_000_000
        spans = [(base + i * n, base + (i + 1) * n) for i in range(k)]
        parallel(
            lambda: r.miri(spans, "-Zmiri-ignore-leaks", "miri_stacked_borrows", 120),
            lambda: r.miri([(a + 5_000_000, a + 5_000_000 + n // 2) for a, _ in spans[:max(2, k // 2)]],
                           "-Zmiri-ignore-leaks -Zmiri-tree-borrows", "miri_tree_borrows", 120),
        )

    def lifetimes():
        crate = os.path.join(PROBES, "lifetimes")
        res = cargo(crate, "probes", ["build", "--bin", "control"], want_failure=True)
        if res.returncode != 0:
            raise NoAnswer(f"the control program doesn't compile:\n{tail(res.stdout)}")
        for name in LIFETIME_PROBES:
            res = cargo(crate, "probes", ["build", "--bin", name], want_failure=True)
            codes = re.findall(r"^error\[(E\d+)\]", res.stdout, re.M)
            if res.returncode != 0:
                if not codes or any(c not in ("E0499", "E0505", "E0506", "E0515", "E0597", "E0716", "E0502", "E0503")
                                    for c in codes):
                    raise NoAnswer(f"{name} fails to compile for another reason:\n{tail(res.stdout)}")
                r.count("misuses_rejected_by_the_compiler")
                continue
            # It compiles: then it has to be harmless.
            env = cargo_env(os.path.join(BUILD, "miri-probes"))
            env["MIRIFLAGS"] = "-Zmiri-ignore-leaks"
            cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", name]
            rc, so, se = run(cmd, timeout=300, env=env, cwd=crate)
            if rc != 0 and "Undefined Behavior" in se:
                i = se.find("error:")
                raise Violation(f"a safe program has undefined behavior ({name}):\n"
                                f"{open(os.path.join(crate, 'src/bin', name + '.rs')).read()}\n"
                                f"{tail(se[i:], 5000)}",
                                {"kind": "miri-probe", "cmd": cmd, "cwd": crate})
            r.count("misuses_that_compile_and_are_harmless")

    def guided():
        r.guided(*((10 ** 9, 240) if r.thorough else (6000, 40)), procs=4, asan=True)

    parallel(asan, msan, miri, lifetimes, guided)


def check_c03(r):
    def sendable():
        crate = os.path.join(PROBES, "send")
        res = cargo(crate, "probes", ["build"], want_failure=True)
        if res.returncode != 0:
            codes = re.findall(r"^error\[(E\d+)\]", res.stdout, re.M)
            if codes and all(c in ("E0277", "E0521", "E0373", "E0597") for c in codes):
                raise Violation("a program that uses the public types from several threads doesn't compile:\n"
                                + tail(res.stdout, 5000), {"kind": "build", "cwd": crate})
            raise NoAnswer(f"the probe fails to compile for another reason:\n{tail(res.stdout)}")
        r.count("send_sync_probe_compiled")

    def stress():
        exe = build_rel()
        r.monitor(exe, "rel", seconds=200 if r.thorough else 60, threads=4, prefix="stress.")
        fresh(exe, "rel", 1000 if r.thorough else 100, None, "stress.")

    def fresh(exe, variant, n, env, prefix):
        """Processes whose very first use of the library is a concurrent one."""
        def one(i):
            if r.violated:
                return
            try:
                r.monitor(exe, variant, env=env, mem=None, threads=1 + i % 2, cases=16, seconds=30,
                          prefix=prefix, sanitizer=bool(env), seed=1_000_000 + r.seed * 10_000 + i)
            except Violation:
                r.violated = True
                raise
            r.count(prefix + "fresh_processes")
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(one, range(n)))

    def tsan():
        exe = build_sanitized("thread")
        r.monitor(exe, "thread-san", env=san_env("thread"), mem=None, threads=4,
                  cases=300_000 if r.thorough else 8_000, seconds=250 if r.thorough else 60,
                  prefix="tsan.", sanitizer=True)
        fresh(exe, "thread-san", 400 if r.thorough else 40, san_env("thread"), "tsan.")

    def miri():
        r.miri_build()
        k, n = (32, 12) if r.thorough else (6, 6)
        base = 20_000_000
        for i in range(1 if not r.thorough else 2):
            r.miri([(base + j * n, base + (j + 1) * n) for j in range(k)],
                   f"-Zmiri-ignore-leaks -Zmiri-seed={r.seed + i} -Zmiri-preemption-rate=0.05",
                   "miri_threads", 100)
            base += 1_000_000

    parallel(sendable, stress, tsan, miri)


WORKLOADS = ("run sparse comb long longcomb miss misslong missfirst exact exactend prefix suffix "
             "equal spaces terms square manyand manyor manynot places notexact one ones onemiss words "
             "afterbig manyanch crowd manydist alphabet").split()
PARSER_WORKLOADS = ("parse parseraw parseword parseshort parseor parsepipes parseblank parseesc "
                    "parseslash parsebang parsequote parseops parsedist parsechars").split()


WINDOWS = "x86_64-pc-windows-gnu"


def check_c21(r):
    def windows():
        """The path scheme has another delimiter there."""
        try:
            r.miri_build(WINDOWS)
        except NoAnswer:
            r.count("miri_windows.not_available")
            return
        # Rows of the sweep of all pairs of ASCII chars, then random cases.
        rows = [128 + ord(c) for c in ("\\/a.|:; ,_" if r.thorough else "\\/a")] + [ord("\\"), 256 + ord("\\")]
        spans = [(c, c + 1) for c in rows]
        k = 60 if r.thorough else 6
        spans += [(1000 + 4 * i, 1004 + 4 * i) for i in range(k)]
        r.miri(spans, "-Zmiri-ignore-leaks", "miri_windows", 200, target=WINDOWS)

    parallel(lambda: check_generic(r), windows)


def check_c24(r):
    exe = build_rel()

    def refs(name, n):
        cmd = ["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null",
               exe, "work", "--w", name, "--n", str(n)]
        rc, so, se = run(cmd, timeout=500)
        m = re.search(r"I\s+refs:\s+([\d,]+)", se)
        if rc is None:
            return None, cmd
        if rc != 0 or not m:
            if rc is not None and rc < 0 or "panicked" in se:
                return -1, cmd
            raise NoAnswer(f"{' '.join(cmd)} failed:\n{tail(se)}")
        return int(m.group(1).replace(",", "")), cmd

    names = [f"{a}-{b}-{c}{d}" for a in ("v1", "v2") for b in ("ascii", "wide") for c in WORKLOADS
             for d in ("", "-sens", "-norm") if not d or c in ("run", "sparse", "comb", "miss", "exact", "misslong", "long")]
    names += [f"v1-{b}-{c}" for b in ("ascii", "wide") for c in PARSER_WORKLOADS]
    if not r.thorough:
        small, factor = 1000, 16
    else:
        small, factor = 2000, 32
    limit = 2.5 * factor
    rows = []

    def one(name):
        kind = name.split("-")[2]
        v2 = name.startswith("v2")
        lo, f, lim = small, factor, limit
        if v2 and kind in ("long", "longcomb"):
            # The query grows too: the documented bound is the product.
            lo, f = 250, 8
            lim = 2.5 * 64
        base, _ = refs(name, 0)
        a, cmd = refs(name, lo)
        b, cmd = refs(name, lo * f)
        if base == -1 or a == -1 or b == -1:
            # A panic: not this property's business.
            return name, None, None, None
        if b is None or a is None:
            raise Violation(f"{name}: size {lo * f} didn't finish in 500 s", {"kind": "work", "cmd": cmd})
        x, y = max(a - base, 20_000), b - base
        rows.append((name, lo, x, lo * f, y))
        if y > lim * x:
            raise Violation(
                f"{name}: {x} instructions at size {lo}, {y} at size {lo * f}: {y / x:.1f} times as many, "
                f"for inputs {f} times as long (allowed: {lim:.0f})", {"kind": "work", "cmd": cmd})
        return name, x, y, y / x

    viol = None
    with ThreadPoolExecutor(8) as ex:
        for fut in [ex.submit(one, n) for n in names]:
            try:
                name, x, y, q = fut.result()
                if x is None:
                    r.count("panics_ignored")
                    continue
                r.evaluations += 2
                r.distinct += 1
                r.count("instructions_counted", x + y)
            except Violation as v:
                viol = viol or v
    # V2 tells that a candidate doesn't match without filling its matrix: the
    # cost may not depend on the query's length.
    rows.sort()
    r.samples = [f"{n}: {x} instructions at size {a}, {y} at size {b} (x{y / x:.1f})" for n, a, x, b, y in rows[::9]]
    if viol:
        raise viol


BARE = "bare_32_bit"

CONFIGS = [
    # name, profile arguments, subdirectory, features, toolchain, rustflags
    ("release_both", ["--release"], "release", "v1,v2", "stable", ""),
    ("debug_both", [], "debug", "v1,v2", "stable", ""),
    ("release_v1_only", ["--release"], "release", "v1", "stable", ""),
    ("release_v2_only", ["--release"], "release", "v2", "stable", ""),
    ("release_every_feature", ["--release"], "release", "all", "stable", ""),
    ("release_with_assertions", ["--profile", "checked"], "checked", "v1,v2", "stable", ""),
    ("size_lto", ["--profile", "size"], "size", "v1,v2", "stable", ""),
    ("release_native_cpu", ["--release"], "release", "v1,v2", "stable", "-Ctarget-cpu=native"),
    ("release_nightly", ["--release"], "release", "v1,v2", "nightly", ""),
    # Linked without a libc, as there's none for 32 bits here.
    (BARE, ["--profile", "checked", "-Zjson-target-spec", "--target", "bare32.json",
            "-Zbuild-std=std,panic_abort", "-Zbuild-std-features=compiler-builtins-mem"],
     "bare32/checked", "v1,v2", "nightly", ""),
]


def check_c25(r):
    crate = os.path.join(PROBES, "config")
    cases, chunk = (400_000, 2_000) if r.thorough else (40_000, 500)

    def parse_out(so):
        d = {}
        for l in so.splitlines():
            p = l.split(" ")
            if p[0] in ("v1", "v2"):
                d[(p[0], int(p[1]))] = p[2]
        return d

    exes = {}

    def observe(cfg):
        name, prof, sub, feats, tc, flags = cfg
        res = cargo(crate, "cfg-" + name, ["build", "--features", feats] + prof, rustflags=flags,
                    toolchain=tc, want_failure=True)
        if res.returncode != 0:
            return name, "unbuilt", res.stdout, ""
        exe = os.path.join(BUILD, "cfg-" + name, sub, "normconfig")
        exes[name] = [exe]
        try:
            rc, so, se = run([exe, str(r.seed), "0", str(cases), str(chunk), "0"], timeout=500, mem=8 * GIB)
        except (OSError, subprocess.SubprocessError) as e:
            return name, "unbuilt", f"can't be run: {e}", ""
        return name, rc, so, se

    with ThreadPoolExecutor(5) as ex:
        results = list(ex.map(observe, CONFIGS))
    unbuilt = [x for x in results if x[1] == "unbuilt"]
    results = [x for x in results if x[1] != "unbuilt"]
    for name, _, so, _ in unbuilt:
        if name == BARE and "could not compile `norm`" not in so:
            # The toolchain's business, or the machine's.
            r.count(f"{name}.not_available")
        elif "could not compile `norm`" in so and len(unbuilt) < len(CONFIGS):
            raise Violation(f"the library compiles in other configurations, but not in {name}:\n{tail(so, 6000)}",
                            {"kind": "config", "configs": [name], "seed": r.seed})
        else:
            raise NoAnswer(f"the build {name} failed:\n{tail(so, 6000)}")

    def detail(exe, a, b, tiny, env=None, cwd=None):
        rc, so, se = run(exe + [str(r.seed), str(a), str(b), "1", tiny], timeout=500, env=env, cwd=cwd)
        return rc, {tuple(l.split(" ")[1:3]): l for l in so.splitlines() if l.startswith("detail ")}, so, se

    def compare(ref, other, a, b, tiny, env=None, cwd=None):
        _, x, _, _ = detail(exes[ref], a, b, tiny)
        rc, y, so, se = detail(exes[other], a, b, tiny, env, cwd)
        for k in sorted(x, key=lambda k: int(k[1])):
            if k in y and x[k] != y[k]:
                return f"{ref}: {x[k]}\n{other}: {y[k]}"
            if k not in y and any(z[0] == k[0] for z in y):
                return f"{ref}: {x[k]}\n{other}: (died here, {rc})\n{tail(se)}"
        if rc != 0:
            return f"{other} died with {rc}: {tail(se)}"
        return None

    # The toolchains' Unicode tables may differ, so each is compared with itself.
    first, nightly = results[0], "release_nightly"
    for name, rc, so, se in results:
        ref = first if name != BARE else [x for x in results if x[0] == nightly][0]
        want = parse_out(ref[2])
        if rc is None:
            raise NoAnswer(f"{name} didn't finish")
        got = parse_out(so)
        m = re.search(r"^calls (\d+) (\d+)$", so, re.M)
        if m:
            r.evaluations += int(m.group(1))
            r.count(f"{name}.calls", int(m.group(1)))
            r.count(f"{name}.matches", int(m.group(2)))
        else:
            # It died, as the others may do too: a difference only if not all do.
            r.count(f"{name}.died")
        if name in (first[0], nightly):
            continue
        keys = [k for k in sorted(got, key=lambda k: k[1]) if k in want]
        r.count("chunks_compared", len(keys))
        for k in keys:
            if got[k] != want[k]:
                a = k[1] * chunk
                d = compare(ref[0], name, a, min(a + chunk, cases), "0") or "(only with the calls before it)"
                raise Violation(f"{name} and {ref[0]} differ in cases {a}..{a + chunk}:\n{tail(d, 6000)}",
                                {"kind": "config", "configs": [ref[0], name], "from": a, "to": a + chunk, "seed": r.seed})
        if (rc == 0) != (ref[1] == 0):
            bad = name if rc != 0 else ref[0]
            a = chunk * max([k[1] + 1 for k in (got if rc != 0 else want)], default=0)
            other = [x for x in results if x[0] == bad][0]
            raise Violation(f"{bad} dies in cases {a}..{a + chunk}, {name if bad == ref[0] else ref[0]} doesn't:\n{tail(other[3])}",
                            {"kind": "config", "configs": [ref[0], name], "from": a, "to": a + chunk, "seed": r.seed})
    r.distinct = cases
    # Other word sizes, byte orders, architectures and systems, interpreted.
    targets = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu", "aarch64-apple-darwin", WINDOWS]
    n = 120 if r.thorough else 20
    procs = 4

    def foreign(target):
        tdir = os.path.join(BUILD, "miri-cfg")
        env = cargo_env(tdir)
        env["MIRIFLAGS"] = "-Zmiri-ignore-leaks"
        base = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--features", "v1,v2", "--target", target, "--"]
        rc, so, se = run(base + [str(r.seed), "0", "0", "1", "1"], timeout=400, env=env, cwd=crate)
        if rc != 0:
            r.count(f"{target}.not_available")
            return
        exes[target] = base

        def span(i):
            a, b = i * n, (i + 1) * n
            want = detail(exes[nightly], a, b, "1")
            rc, got, so, se = detail(base, a, b, "1", env, crate)
            common = [k for k in want[1] if k in got]
            for k in common:
                if want[1][k] != got[k]:
                    raise Violation(f"{target} and {nightly} differ:\n{nightly}: {tail(want[1][k])}\n{target}: {tail(got[k])}",
                                    {"kind": "config", "configs": [nightly, target], "from": a, "to": b, "seed": r.seed})
            if rc not in (0, None) and UNSUPPORTED.search(se):
                r.count(f"{target}.not_supported_by_miri")
            elif rc not in (0, None) and want[0] == 0:
                raise Violation(f"{target} dies in cases {a}..{b}, {nightly} doesn't:\n{tail(se)}",
                                {"kind": "config", "configs": [nightly, target], "from": a, "to": b, "seed": r.seed})
            r.count(f"{target}.cases_compared", len(common))
            with r.lock:
                r.evaluations += len(common)
            if i == 0 and common:
                r.samples.append(f"{target} = {nightly}: {tail(want[1][common[0]], 500)}")

        with ThreadPoolExecutor(procs) as ex:
            for f in [ex.submit(span, i) for i in range(procs)]:
                f.result()

    parallel(*[lambda t=t: foreign(t) for t in targets])
    rc, d, so, se = detail(exes[first[0]], 0, 6, "1")
    r.samples += [tail(l, 500) for l in list(d.values())[:4]]


SPECIAL = {"C21": check_c21, "C02": check_c02, "C03": check_c03, "C24": check_c24, "C25": check_c25}


# ------------------------------------------------------------------ reporting

def known_findings(pid):
    """Open findings: lines `finding: property=<id> match=<regex> what=<text>`."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(\S+) what=(.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def write_evidence(r, info, violations):
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        "property": r.pid,
        "tier": r.tier,
        "seed": r.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": r.evaluations,
            "distinct_nontrivial": r.distinct,
            "rule": info["rule"],
            "samples": (r.samples or ["(the run ended before a sample was taken)"])[:12],
            "observed": dict(sorted(r.counters.items())),
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(time.time() - r.t0, 3),
        "violations": violations,
    }
    tmp = os.path.join(EVIDENCE, f".{r.pid}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, f"{r.pid}.json"))


def load_info():
    return json.load(open(os.path.join(VERIF, "bin", "checks.json")))


def main_check(pid, tier, seed):
    info = load_info()
    if pid not in info:
        print(f"unknown property {pid}", file=sys.stderr)
        return 2
    r = Run(pid, tier, seed)
    try:
        SPECIAL.get(pid, check_generic)(r)
    except Violation as v:
        os.makedirs(os.path.join(EVIDENCE, "replays"), exist_ok=True)
        path = os.path.join(EVIDENCE, "replays", f"{pid}-{tier}-{seed}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "message": v.message, **v.replay}, f, indent=1)
        write_evidence(r, info[pid], 1)
        print(f"{pid}: {info[pid]['title']}\n{v.message}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    except NoAnswer as e:
        print(f"{pid}: no answer: {e}", file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(r.work, ignore_errors=True)
    write_evidence(r, info[pid], 0)
    for _, what in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {what}")
    print(f"{pid}: held on {r.evaluations} executions ({r.distinct} distinct and non-trivial) "
          f"in {time.time() - r.t0:.1f} s")
    return 0


def main_replay(path):
    d = json.load(open(path))
    print(f"recorded: {d['property']}\n{d['message']}\n")
    kind = d.get("kind")
    if kind == "monitor" and d.get("case") is not None:
        variant = d["variant"]
        exe = build_rel() if variant == "rel" else build_sanitized(variant.split("-")[0])
        env = dict(os.environ, **d.get("sanitizer_env", {}))
        dp = os.path.join(BUILD, f"replay-dict-{os.getpid()}")
        with open(dp, "w") as f:
            f.write("\n".join(d["dict"]) + "\n")
        rc, so, se = run([exe, "check", "--id", d["check"], "--tier", d["tier"], "--seed", str(d["seed"]),
                          "--dict", dp, "--only", str(d["case"])], timeout=300, env=env)
        os.remove(dp)
        print(so + tail(se))
        return 0 if rc == 0 else 1
    if kind == "guided" and d.get("draws"):
        rc, so, se = Run.redo(build_guided(d.get("asan", False)), d)
        print(so + tail(se))
        return 0 if rc == 0 else 1
    if "cmd" in d:
        env = cargo_env(os.path.join(BUILD, "miri"))
        env["MIRIFLAGS"] = d.get("flags", "")
        if kind == "work":
            build_rel()
        rc, so, se = run(d["cmd"], timeout=600, env=env, cwd=d.get("cwd", HARNESS))
        print(so + tail(se))
        return 0 if rc == 0 else 1
    print("re-run the check to observe this one again: bin/check.py", d["property"])
    return 2


def main_setup():
    """Nothing has to survive: this shows that the machinery builds."""
    for exe in ("cargo", "valgrind"):
        if not shutil.which(exe, path="/root/.cargo/bin:" + os.environ["PATH"]):
            print(f"{exe} is missing", file=sys.stderr)
            return 1
    try:
        build_rel()
        res = cargo(HARNESS, "rel", ["test", "--release"], want_failure=True)
        if res.returncode != 0:
            raise NoAnswer("the oracles don't agree with each other:\n" + tail(res.stdout))
    except NoAnswer as e:
        print(e, file=sys.stderr)
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return main_setup()
    if a.replay:
        try:
            return main_replay(a.replay)
        except NoAnswer as e:
            print(e, file=sys.stderr)
            return 2
    if not a.id:
        ap.error("which property?")
    return main_check(a.id, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
