#!/usr/bin/env python3
"""Entry point of every check.

  run.py <property> quick|thorough     run one check
  run.py replay <file>                 re-execute the case recorded in a replay file
  run.py setup                         build everything the checks need

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: inconclusive.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
SCRATCH = os.path.join(TARGET, "scratch")
KNOWN = os.path.join(VERIF, "known_findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
FATAL = {4: "SIGILL", 5: "SIGTRAP", 6: "SIGABRT", 7: "SIGBUS", 8: "SIGFPE", 11: "SIGSEGV"}

RULES = {
    "C01": "random programs over the whole public API (every operation, every object state, arbitrary arguments); distinct = distinct (operation, outcome) sequences",
    "C02": "operations on uninitialised operands, all 65536 sizes, lifecycle histories; distinct = distinct operations, sizes and histories",
    "C03": "histories of structural operations with full read-back; distinct = distinct object contents",
    "C04": "programs with extreme operands, every reachable object scanned after each call; distinct = distinct world states",
    "C05": "rejected calls inside histories, snapshots compared; distinct = distinct (operation, snapshot) pairs",
    "C25": "random complex operands incl. zero, tiny, large; distinct = distinct operand bit patterns",
    "C26": "all pairs/triples of special floats, all bytes, random bit patterns; distinct = distinct operand bit patterns",
    "C27": "random API programs run repeatedly, interleaved, in threads and in four builds; distinct = distinct final state digests",
    "C28": "every possible count 0..255; distinct = distinct counts",
}
DEFAULT_RULE = "generated inputs/histories in named strata (see counters); distinct = distinct operand or result bit patterns of cases that reached a comparison with the reference"
# multiples of the case counts written in the harness, chosen so that a check takes seconds (quick)
# or minutes (thorough) on 8 cores
SCALE = {"quick": {"": 100, "C01": 1, "C04": 50, "C05": 25, "C20": 20, "C22": 25, "C27": 1, "C28": 1, "C33": 10, "C34": 20},
         "thorough": {"": 40, "C01": 1, "C04": 20, "C05": 10, "C20": 5, "C22": 10, "C27": 1, "C28": 1, "C33": 10, "C34": 5}}
ASSUME = [
    "f64 reference arithmetic of the harness is correct",
    "rustc/libm of the sandbox; IEEE-754 single precision",
    "a case budget is explored, not the whole input space",
]


def log(msg):
    print(msg, file=sys.stderr, flush=True)


def env_for(toolchain, rustflags=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            e.pop(k)
    e.pop("RUSTFLAGS", None)
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = TARGET
    if rustflags:
        e["RUSTFLAGS"] = rustflags
    return e


class Inconclusive(Exception):
    pass


def refresh():
    """Cargo decides by time stamps; make sure a change of contents is never missed."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk("/repo"):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h = h.hexdigest()
    os.makedirs(TARGET, exist_ok=True)
    stamp = os.path.join(TARGET, "sources.sha256")
    try:
        with open(stamp) as f:
            old = f.read()
    except OSError:
        old = ""
    if old != h:
        for root, dirs, _ in os.walk(TARGET):
            if os.path.basename(root) == ".fingerprint":
                for d in dirs:
                    if d.rsplit("-", 1)[0] in ("utils", "linalg", "quaternion", "open_ahrs", "dsp", "pid", "vmon"):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs[:] = []
        with open(stamp, "w") as f:
            f.write(h)


def build(profile="dev", std=True, toolchain="stable", rustflags=None, target=None, subdir=None):
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--profile", profile]
    if not std:
        cmd += ["--no-default-features"]
    if target:
        cmd += ["--target", target]
    e = env_for(toolchain, rustflags)
    e["CARGO_TARGET_DIR"] = tdir = os.path.join(TARGET, subdir) if subdir else TARGET
    p = subprocess.run(cmd, cwd=HARNESS, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=800)
    if p.returncode != 0:
        raise Inconclusive("build failed:\n" + p.stderr[-3000:])
    out = {"dev": "debug"}.get(profile, profile)
    parts = [tdir] + ([target] if target else []) + [out, "vmon"]
    return os.path.join(*parts)


BUILDS = {
    "std-checked": dict(),
    "no_std-checked": dict(std=False, subdir="nostd"),
    "release": dict(profile="release"),
    "unoptimised": dict(profile="plain"),
}


def scratch(name):
    os.makedirs(SCRATCH, exist_ok=True)
    return os.path.join(SCRATCH, f"{name}.{os.getpid()}")


def drop(path):
    try:
        os.unlink(path)
    except OSError:
        pass


def run_child(cmd, out, timeout, env=None, cwd=None):
    """Returns (kind, code, stderr): kind is 'exit', 'signal' or 'timeout'."""
    drop(out)
    errp = out + ".err"
    with open(errp, "wb") as ef:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=cwd, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            drop(errp)
            return "timeout", 0, ""
    with open(errp, "rb") as ef:
        err = ef.read()[-200000:].decode("utf-8", "replace")
    drop(errp)
    if rc < 0:
        return "signal", -rc, err
    return "exit", rc, err


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def seed_value():
    s = os.environ.get("VERIF_SEED", "1")
    try:
        return int(s) & 0x7FFFFFFFFFFFFFFF
    except ValueError:
        h = 1469598103934665603
        for c in s.encode():
            h = ((h ^ c) * 1099511628211) & 0x7FFFFFFFFFFFFFFF
        return h


class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = seed_value()
        self.t0 = time.time()
        self.violations = []  # (message, replay dict)
        self.known = []
        self.coverage = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULES.get(prop, DEFAULT_RULE), "samples": []}
        self.notes = []
        self.limit = 700 if tier == "quick" else 5400

    # ------------------------------------------------------------ main monitor run

    def monitor(self, binary, label, extra=(), env=None, timeout=None, prefix=()):
        out = scratch(f"{self.prop}-{label}")
        cmd = list(prefix) + ([binary] if binary else []) + ["run", self.prop, "--tier", self.tier, "--seed", str(self.seed), "--out", out] + list(extra)
        kind, code, err = run_child(cmd, out, timeout or self.limit, env=env, cwd=HARNESS)
        d = load(out)
        drop(out)
        return kind, code, err, d

    def take(self, d, label, extra=()):
        for v in d.get("violations", [])[:8]:
            self.violations.append(
                (v["msg"], {"kind": "case", "property": self.prop, "seed": self.seed, "tier": self.tier, "stratum": v["stratum"], "index": v["idx"], "build": label, "message": v["msg"]})
            )

    def main_run(self):
        binary = build()
        scale = SCALE[self.tier].get(self.prop, SCALE[self.tier][""])
        kind, code, err, d = self.monitor(binary, "main", extra=["--scale", str(scale)])
        if kind == "timeout":
            raise Inconclusive("monitor run exceeded the wall-clock limit")
        if kind == "signal":
            if code in FATAL:
                self.violations.append((f"the process died from {FATAL[code]}", {"kind": "run", "property": self.prop, "seed": self.seed, "tier": self.tier, "message": f"process died from {FATAL[code]}", "stderr": err[-2000:]}))
                return
            raise Inconclusive(f"monitor process was killed by signal {code}")
        if d is None:
            if "overflowed its stack" in err:
                self.violations.append(("stack overflow", {"kind": "run", "property": self.prop, "seed": self.seed, "tier": self.tier, "message": "stack overflow"}))
                return
            raise Inconclusive(f"monitor wrote no result (exit {code}): {err[-1500:]}")
        c = self.coverage
        c["evaluations"] += d["evaluations"]
        c["distinct_nontrivial"] += d["distinct"]
        c["samples"] += d["samples"][:8]
        c["cases"] = d["cases"]
        c["strata"] = d["strata"]
        c["events_observed"] = d["counters"]
        c["worst_error_to_bound"] = d["worst"]
        self.take(d, "std-checked")
        if code == 1 and not d["violations"]:
            raise Inconclusive("monitor reported a violation without a record")
        if not self.violations:
            if d["internal"]:
                raise Inconclusive("harness error: " + "; ".join(d["internal"][:3]))
            if d["missing"]:
                raise Inconclusive("coverage floor not met: " + ", ".join(d["missing"][:10]))
            if code != 0:
                raise Inconclusive(f"monitor exit code {code}: {err[-1500:]}")

    # ------------------------------------------------------------ sanitizers (C01)

    def miri(self):
        n = 10 if self.tier == "quick" else 150
        e = env_for("nightly")
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri")
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-deterministic-floats"
        info = {}
        self.coverage["miri"] = info
        t = time.time()
        try:
            kind, code, err, d = self.monitor(
                None, "miri", extra=["--threads", "1", "--max-cases", str(n), "--no-floors"], env=e, timeout=400 if self.tier == "quick" else 3000,
                prefix=["cargo", "miri", "run", "--offline", "--locked", "--quiet", "--"],
            )
        except OSError as x:
            info["status"] = f"not run: {x}"
            return
        info["wall_s"] = round(time.time() - t, 1)
        if "error: Undefined Behavior" in err:
            m = err[err.index("error: Undefined Behavior"):][:1500]
            self.violations.append((m.splitlines()[0], {"kind": "miri", "property": self.prop, "seed": self.seed, "tier": self.tier, "message": m}))
            info["status"] = "undefined behaviour"
        elif kind == "exit" and d is not None:
            info["status"] = "run"
            info["calls_interpreted"] = d["evaluations"]
            self.take(d, "miri")
        else:
            info["status"] = f"not run ({kind} {code}): {err[-300:]}"

    def asan(self):
        info = {}
        self.coverage["address_sanitizer"] = info
        t = time.time()
        try:
            binary = build(toolchain="nightly", rustflags="-Zsanitizer=address", target=TRIPLE, subdir="asan")
        except Inconclusive as x:
            info["status"] = f"not run: {str(x)[-300:]}"
            return
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77"
        kind, code, err, d = self.monitor(binary, "asan", extra=["--scale", "0.25", "--no-floors"], env=e)
        info["wall_s"] = round(time.time() - t, 1)
        if "ERROR: AddressSanitizer" in err:
            m = err[err.index("ERROR: AddressSanitizer"):][:1500]
            self.violations.append((m.splitlines()[0], {"kind": "asan", "property": self.prop, "seed": self.seed, "tier": self.tier, "message": m}))
            info["status"] = "report"
        elif kind == "exit" and d is not None:
            info["status"] = "run"
            info["calls_observed"] = d["evaluations"]
            self.take(d, "asan")
        else:
            info["status"] = f"not run ({kind} {code}): {err[-300:]}"

    # ------------------------------------------------------------ builds (C27)

    def builds(self):
        n = 8000 if self.tier == "quick" else 300000
        digests = {}
        for label, kw in BUILDS.items():
            binary = build(**kw)
            out = scratch(f"digest-{label}")
            kind, code, err = run_child([binary, "digest", str(n), "--seed", str(self.seed), "--out", out], out, self.limit)
            if kind == "signal" and code in FATAL:
                self.violations.append((f"the {label} build died from {FATAL[code]}", {"kind": "run", "property": self.prop, "seed": self.seed, "tier": self.tier, "message": f"{label}: {FATAL[code]}"}))
                return
            if kind != "exit" or code != 0:
                raise Inconclusive(f"{label} build: {kind} {code} {err[-500:]}")
            with open(out) as f:
                digests[label] = f.read().split("\n")
            drop(out)
        base = digests["std-checked"]
        if len(base) < n or len(set(base)) < n // 2:
            raise Inconclusive("too few distinct digests")
        for label, got in digests.items():
            bad = [i for i in range(n) if i >= len(got) or got[i] != base[i]]
            if bad:
                i = bad[0]
                m = f"program {i} ends differently in the {label} build than in the std-checked build ({len(bad)} of {n} programs differ)"
                self.violations.append((m, {"kind": "builds", "property": self.prop, "seed": self.seed, "tier": self.tier, "index": i, "builds": ["std-checked", label], "message": m}))
        self.coverage["builds_compared"] = list(digests)
        self.coverage["programs_compared_per_build"] = n
        self.coverage["evaluations"] += n * (len(digests) - 1)

    # ------------------------------------------------------------ known findings

    def findings(self):
        if not os.path.exists(KNOWN):
            return
        binary = None
        with open(KNOWN) as f:
            lines = f.read().splitlines()
        listed = {}
        for ln in lines:
            m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", ln)
            if m:
                listed[(m.group(1), m.group(2))] = m.group(3)
        for prop, probe in PROBES:
            if prop != self.prop:
                continue
            binary = binary or build()
            out = scratch("probe")
            kind, code, err = run_child([binary, "probe", probe, "--out", out], out, 120)
            drop(out)
            if kind != "exit" or code not in (0, 1):
                raise Inconclusive(f"probe {probe}: {kind} {code}")
            if code == 1:
                if (prop, probe) in listed:
                    self.known.append(listed[(prop, probe)])
                else:
                    self.violations.append((f"probe {probe} fails", {"kind": "probe", "property": prop, "probe": probe, "message": f"probe {probe} fails"}))
            self.coverage.setdefault("probes", {})[probe] = "present" if code == 1 else "absent"

    # ------------------------------------------------------------ report

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": self.coverage,
            "assumptions": ASSUME,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(self.violations),
        }
        if self.known:
            ev["known_findings"] = self.known
        if self.notes:
            ev["notes"] = self.notes
        tmp = os.path.join(EVIDENCE, f".{self.prop}.{os.getpid()}")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(EVIDENCE, f"{self.prop}.json"))
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        for i, (msg, rep) in enumerate(self.violations[:4]):
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f"{self.prop}-{self.tier}-{self.seed}-{i}.json")
            rep["command"] = f"python3 /verif/run.py replay {path}"
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
                f.write("\n")
            print(f"  {msg[:600]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        if self.violations:
            return 1
        c = self.coverage
        print(f"{self.prop} held: {c['evaluations']} evaluations, {c['distinct_nontrivial']} distinct, {ev['wall_s']} s")
        return 0


PROBES = [("C24", "davenport-update"), ("C32", "dlyap-null")]


def check(prop, tier):
    ck = Check(prop, tier)
    refresh()
    try:
        ck.main_run()
        if prop == "C27" and not ck.violations:
            ck.builds()
        if prop == "C01" and not ck.violations:
            ck.asan()
            ck.miri()
        ck.findings()
    except Inconclusive as x:
        ck.notes.append("inconclusive: " + str(x)[:2000])
        if not ck.violations:
            code = ck.finish()
            print(f"INCONCLUSIVE property={prop}: {x}")
            return 2 if code == 0 else code
    except subprocess.TimeoutExpired as x:
        print(f"INCONCLUSIVE property={prop}: {x}")
        return 2
    return ck.finish()


def replay(path):
    with open(path) as f:
        r = json.load(f)
    refresh()
    seed, tier = str(r.get("seed", 1)), r.get("tier", "quick")
    if r["kind"] == "case":
        kw = {}
        if r.get("build") == "asan":
            kw = dict(toolchain="nightly", rustflags="-Zsanitizer=address", target=TRIPLE, subdir="asan")
        b = build(**kw)
        return subprocess.run([b, "replay", r["property"], r["stratum"], str(r["index"]), "--seed", seed, "--tier", tier], cwd=HARNESS, stdout=subprocess.DEVNULL).returncode
    if r["kind"] == "builds":
        texts = []
        for label in r["builds"]:
            b = build(**BUILDS[label])
            out = scratch("trace")
            subprocess.run([b, "digest-trace", str(r["index"]), "--seed", seed, "--out", out], stdout=subprocess.DEVNULL, cwd=HARNESS)
            with open(out) as f:
                texts.append(f.read().split("\n"))
            drop(out)
        for a, b in zip(*texts):
            if a != b:
                print(f"{r['builds'][0]}: {a}\n{r['builds'][1]}: {b}")
                return 1
        print("no difference")
        return 0
    if r["kind"] == "probe":
        b = build()
        return subprocess.run([b, "probe", r["probe"]], cwd=HARNESS).returncode
    os.environ["VERIF_SEED"] = seed
    return check(r["property"], tier)


def setup():
    refresh()
    for label, kw in BUILDS.items():
        build(**kw)
    # optional parts: their absence is reported by the check that uses them
    try:
        build(toolchain="nightly", rustflags="-Zsanitizer=address", target=TRIPLE, subdir="asan")
    except Inconclusive as x:
        log(f"address sanitizer build unavailable: {str(x)[-500:]}")
    print("setup done")
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        try:
            return setup()
        except Inconclusive as x:
            print(x)
            return 2
    if a[:1] == ["replay"] and len(a) == 2:
        try:
            return replay(a[1])
        except Inconclusive as x:
            print(x)
            return 2
    if len(a) >= 1 and re.fullmatch(r"[A-Z][0-9]{2,3}", a[0]):
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier in ("quick", "thorough"):
            return check(a[0], tier)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
