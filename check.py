#!/usr/bin/env python3
"""Decides a property of msk/rescan by running it under its monitor.

    check.py ID              builds from /repo, runs, writes evidence/ID.json
    check.py --replay FILE   runs a recorded violation again
    check.py --setup         builds all monitors once

The environment has VERIF_SEED, and VERIF_TIER (quick or thorough).

Exit status: 0 the property held on everything explored, 1 it was violated (a
line VIOLATION says where), 2 there is no answer (the build failed, a workload
ran out of time, the harness itself failed).
"""

import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
GIB = 1 << 30

sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402


class NoAnswer(Exception):
    pass


def env(groups, flags=()):
    """The environment of a build with the given groups of hooks."""
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["PATH"] = e.get("PATH", "/usr/bin:/bin") + ":/root/.cargo/bin"
    rf = ["--cap-lints", "allow"]
    if groups:
        rf += ["--cfg", "rescan_verif"]
    for g in groups:
        rf += ["--cfg", f'rescan_verif="{g}"']
    rf += flags
    e["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join(rf)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, timeout, **kw):
    """Runs a command in a process group of its own; stops all of it in the end."""
    with tempfile.TemporaryFile() as out:
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             start_new_session=True, **kw)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        out.seek(0)
        return rc, out.read().decode("utf-8", "replace")


def dictionary():
    """The numbers and words the source mentions, for the workloads to try.

    Which they are decides nothing but where a workload looks more often.
    """
    nums, words = set(), set()

    def number(t):
        try:
            return int(t.replace("_", ""), 0)
        except ValueError:
            return int(t.replace("_", "").lstrip("0") or "0") if t.replace("_", "").isdigit() else 0

    def unescape(w):
        simple = {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}

        def one(m):
            h = m.group(1)[1:].strip("{}").replace("_", "")
            if not h:
                return simple.get(m.group(1), m.group(1))
            n = int(h, 16)
            return chr(n) if n < 0x110000 and not 0xd800 <= n < 0xe000 else ""

        return re.sub(r"\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)", one, w)

    text = r'"((?:[^"\\\n]|\\.){1,60})"'
    for d, _, files in os.walk("/repo/src"):
        for f in files:
            if not f.endswith(".rs") or f.startswith("verif") or "/verif" in d:
                continue
            with open(os.path.join(d, f), encoding="utf-8", errors="replace") as h:
                s = re.sub(r"(?m)^\s*//.*$|^#\[cfg\(test\)\]\s*mod (?s:.*)", "", h.read())
            for w in re.findall(text, s):
                words.add(unescape(w))
            for c in re.findall(r"b?'(\\u\{[0-9a-fA-F_]{1,8}\}|[^'\\\x00-\x7f])'", s):
                words.add(unescape(c))
            for c in re.findall(r"b?'([^'\\]|\\.|\\x[0-9a-fA-F]{2})'", s):
                if len(c) == 4:
                    nums.add(int(c[2:], 16))
                else:
                    nums.add(ord(c[-1]) if len(c) == 1 else {"n": 10, "t": 9, "r": 13, "0": 0}.get(c[1], ord(c[1])))
            s = re.sub(text, "", s)
            lit = r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?(?!\w)"
            nums.update(number(a) for a in re.findall(lit, s))
            nums.update(number(a) << min(number(b), 64) for a, b in re.findall(lit + r"\s*<<\s*" + lit, s))
    lines = [f"n {n}" for n in sorted(nums) if n < 1 << 64]
    lines += [f"w {w.encode().hex()}" for w in sorted(words) if w.strip() or w == " "]
    return "".join(ln + "\n" for ln in lines)


LOCK = threading.Lock()
BUILDS = {}


def fewer_groups(prop, groups):
    """The groups of hooks which do build, if a monitor can do without the rest."""
    def builds(g):
        gs = ("trace", g) if g.startswith("trace_") else (g,)
        return run(["cargo", "check", "--offline", "--locked", "--lib",
                    "--target-dir", os.path.join(TARGET, "probe-" + g)], 300, env=env(gs), cwd=HARNESS)[0] == 0
    with LOCK:
        new = [g for g in groups if g not in BUILDS]
        parallel([lambda g=g: BUILDS.update({g: builds(g)}) for g in new])
    optional = PROPS[prop].get("optional", [])
    left = [g for g in groups if BUILDS[g]]
    if "trace" not in left:
        left = [g for g in left if not g.startswith("trace_")]
    lost = [g for g in groups if g not in left]
    if not lost or any(g not in optional for g in lost) or not (left or PROPS[prop].get("bare")):
        return None
    return left


class Run:
    """A build of a monitor and a run of it."""

    def __init__(self, prop, label, kind, groups, seed, tier):
        self.prop, self.label, self.kind, self.groups = prop, label, kind, tuple(groups)
        self.seed, self.tier = seed, tier
        self.bin = prop.lower()
        self.profile = {"asan": "release", "tsan": "release", "steps": "release"}.get(kind, kind)
        self.dir = os.path.join(TARGET, "-".join([kind, *groups]) or kind)

    def build_cmd(self):
        cmd = ["cargo"]
        if self.kind in ("asan", "tsan"):
            cmd.append("+nightly")
        cmd += ["build", "--offline", "--locked", "--bin", self.bin, "--target-dir", self.dir]
        prof = {"debug": "dev"}.get(self.profile, self.profile)
        cmd += ["--profile", prof]
        if self.kind == "asan":
            cmd += ["--target", TRIPLE]
            return cmd, env(self.groups, ["-Zsanitizer=address"])
        if self.kind == "tsan":
            cmd += ["--target", TRIPLE, "-Zbuild-std", "--features", "std-built"]
            return cmd, env(self.groups, ["-Zsanitizer=thread"])
        if self.kind == "steps":
            cmd += ["--target", TRIPLE]
            # Every block of code calls out, to be counted.
            return cmd, env(self.groups, ["-Cpasses=sancov-module", "-Cllvm-args=-sanitizer-coverage-level=3",
                                          "-Cllvm-args=-sanitizer-coverage-trace-pc-guard"])
        return cmd, env(self.groups)

    def build(self):
        cmd, e = self.build_cmd()
        rc, out = run(cmd, 600, env=e, cwd=HARNESS)
        if rc != 0 and (fewer := fewer_groups(self.prop, self.groups)) is not None:
            # Less can be seen with fewer hooks, but some.
            print(f"{self.label}: does not build with the hooks {[g for g in self.groups if g not in fewer]}")
            self.__init__(self.prop, self.label, self.kind, fewer, self.seed, self.tier)
            return self.build()
        if rc != 0:
            raise NoAnswer(f"{self.label}: the build failed\n{out[-4000:]}")

    def exe(self):
        d = {"debug": "debug"}.get(self.profile, self.profile)
        mid = [TRIPLE] if self.kind in ("asan", "tsan", "steps") else []
        return os.path.join(self.dir, *mid, d, self.bin)

    def launch(self, scratch, only=None, timeout=600):
        """Returns how the run ended, what it printed, and its result if any."""
        out = os.path.join(scratch, f"{self.label}.json")
        prog = os.path.join(scratch, f"{self.label}.progress")
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        cmd = [self.exe(), "--seed", str(self.seed), "--tier", self.tier, "--profile", self.label,
               "--out", out, "--progress", prog]
        if only:
            cmd += ["--only", only]
        e = {k: v for k, v in os.environ.items() if not k.startswith("RUST")}
        e["RUST_BACKTRACE"] = "0"
        e["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=0"
        e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:second_deadlock_stack=1"

        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if self.kind not in ("asan", "tsan"):
                resource.setrlimit(resource.RLIMIT_AS, (26 * GIB, 26 * GIB))

        rc, text = run(cmd, timeout, env=e, cwd=scratch, preexec_fn=limits)
        result = None
        if os.path.exists(out):
            with open(out, encoding="utf-8") as f:
                result = json.load(f)
        return rc, text, result

    def in_flight(self, scratch):
        """The cases under way when the run ended abruptly."""
        try:
            with open(os.path.join(scratch, f"{self.label}.progress"), "rb") as f:
                data = f.read()
        except OSError:
            return []
        pairs = [struct.unpack_from("<QQ", data, k) for k in range(0, len(data) - 15, 16)]
        return [f"#{p}:{c}" for p, c in pairs if p]


def sanitizer_report(text):
    m = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer)[^\n]*", text)
    if not m:
        return None
    at = [ln.strip() for ln in text[m.start():].splitlines()[1:40] if re.search(r"#\d+ .*(rescan|vh|c\d\d)", ln)]
    return m.group(0) + (" " + "; ".join(at[:4]) if at else "")


class Violation(Exception):
    def __init__(self, label, only, what, result=None):
        super().__init__(what)
        self.label, self.only, self.what, self.result = label, only, what, result


def ended(rc):
    if rc is None:
        return "did not end in time"
    if rc < 0:
        try:
            return f"was ended by {signal.Signals(-rc).name}"
        except ValueError:
            return f"was ended by signal {-rc}"
    return f"ended with status {rc}"


def judge(r, scratch, timeout):
    """Runs a monitor and returns its result, or raises what went wrong."""
    rc, text, result = r.launch(scratch, timeout=timeout)
    if rc == 0 and result and not sanitizer_report(text):
        return result
    if rc == 1 and result and result["violations"]:
        v = result["violations"][0]
        raise Violation(r.label, f"{v['phase']}:{v['case']}", v["what"], result)
    rep = sanitizer_report(text)
    if rep:
        raise Violation(r.label, None, rep, result)
    if rc is None or rc == 3 or rc == -signal.SIGKILL:
        why = "; ".join(result["errors"]) if result else text[-2000:]
        raise NoAnswer(f"{r.label}: {ended(rc)}: {why}")
    # It ended abruptly: find the case which does that.
    for only in r.in_flight(scratch)[:16]:
        rc2, text2, _ = r.launch(scratch, only=only, timeout=120)
        if rc2 is not None and rc2 not in (0, 3, -signal.SIGKILL):
            raise Violation(r.label, only, f"the process {ended(rc2)}: {text2.strip()[-300:]}")
    rc3, text3, result3 = r.launch(scratch, timeout=timeout)
    if rc3 is not None and rc3 < 0 and rc3 != -signal.SIGKILL:
        raise Violation(r.label, None, f"the process {ended(rc3)}: {text3.strip()[-300:]}")
    raise NoAnswer(f"{r.label}: {ended(rc)}, then {ended(rc3)}: {text[-2000:]}")


def merge(results):
    """What the runs covered together."""
    def collect(pairs, join):
        out = {}
        for label, items in pairs:
            for k, v in items:
                d = out.setdefault(k, {})
                d[label] = join(d[label], v) if label in d else v
        return out
    add = int.__add__
    phases = {label: {} for label, _ in results}
    for label, res in results:
        for k, n in res["phases"]:
            phases[label][k] = phases[label].get(k, 0) + n
    samples = []
    for _, res in results:
        for s in res["samples"]:
            if s not in samples and len(samples) < 8:
                samples.append(s)
    return {
        "evaluations": sum(res["evaluations"] for _, res in results),
        # The runs share many of their cases: what one saw is what is sure.
        "distinct_nontrivial": max(res["distinct"] for _, res in results),
        "samples": samples,
        "builds": list(phases),
        "observed": collect(((label, res["counts"].items()) for label, res in results), add),
        "largest": collect(((label, res["max"].items()) for label, res in results), max),
        "cases_by_phase": phases,
    }


def write_evidence(prop, tier, seed, coverage, wall, violations, assumptions):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    doc = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
           "assumptions": assumptions, "wall_s": round(wall, 3), "violations": violations}
    path = os.path.join(ROOT, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(path + ".tmp", path)


def give_dictionary(scratch, words):
    os.environ["VERIF_DICT"] = os.path.join(scratch, "dictionary")
    with open(os.environ["VERIF_DICT"], "w", encoding="utf-8") as f:
        f.write(words)


def write_replay(prop, run_, v, words):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", f"{prop}-{run_.label}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "label": v.label, "kind": run_.kind, "seed": run_.seed, "tier": run_.tier,
                   "case": v.only, "what": v.what, "dictionary": words.splitlines(),
                   "again": f"python3 {ROOT}/check.py --replay {path}"}, f, indent=1)
        f.write("\n")
    return path


def parallel(jobs):
    """Runs the jobs at the same time and raises the first error of any."""
    errors = []

    def go(j):
        try:
            j()
        except Exception as e:  # noqa: BLE001
            errors.append(e)
    ts = [threading.Thread(target=go, args=(j,)) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise errors[0]


def known(prop, results):
    """Which listed findings were seen; one which is not listed is a violation."""
    seen = sorted({(k[8:], label) for label, res in results for k in res["counts"] if k.startswith("finding:")})
    with open(os.path.join(ROOT, "known-findings.txt"), encoding="utf-8") as f:
        listed = dict(re.findall(rf"^known: property={prop} (\S+) (.*)$", f.read(), re.M))
    for name, label in seen:
        if name not in listed:
            raise Violation(label, None, f"{name}, which is not a known finding")
    return [f"{n}: {listed[n]}" for n in sorted({n for n, _ in seen})]


def runs_of(prop, seed, tier):
    p = PROPS[prop]
    return [Run(prop, k, k, p["groups"], seed, tier) for k in p.get("builds", ["checked", "release"])]


def setup():
    """Shows that the sandbox has what the checks need."""
    for cmd in (["cargo", "metadata", "--offline", "--locked", "--format-version", "1"],
                ["cargo", "build", "--offline", "--locked", "--bins", "--profile", "checked",
                 "--target-dir", os.path.join(TARGET, "setup")]):
        groups = sorted({g for p in PROPS.values() for g in p["groups"]})
        rc, out = run(cmd, 900, env=env(groups), cwd=HARNESS)
        if rc != 0:
            print(out[-4000:])
            return 2
    print("ready")
    return 0


def check(prop, seed, tier):
    start = time.time()
    p = PROPS[prop]
    limit = 800 if tier == "quick" else 6 * 3600
    scratch = tempfile.mkdtemp(prefix=f"rescan-{prop}-")
    results, runs = [], runs_of(prop, seed, tier)
    words = dictionary()
    give_dictionary(scratch, words)
    found = None
    try:
        if p.get("miri"):
            import miri
            jobs = [r.build for r in runs]
            box = {}
            jobs.append(lambda: box.update(r=miri.build(prop, p, env, HARNESS, TARGET, run, NoAnswer, fewer_groups)))
            parallel(jobs)
        else:
            parallel([r.build for r in runs])
        # A thorough check goes on with further seeds for a while.
        spare = 0 if tier == "quick" else int(os.environ.get("VERIF_SECONDS", "1200"))
        rounds = 0
        while not found and (rounds == 0 or (time.time() - start) * (rounds + 1) / rounds < spare):
            for r in runs:
                r.seed = seed + rounds * 1_000_003
                left = limit - (time.time() - start)
                try:
                    results.append((r.label, judge(r, scratch, max(left, 1))))
                except Violation as v:
                    if v.result:
                        results.append((r.label, v.result))
                    found = (r, v)
                    break
            rounds += 1
        if not found and p.get("miri"):
            res, bad = miri.go(prop, p, seed, tier, env, HARNESS, TARGET, run, NoAnswer,
                               max(limit - (time.time() - start), 1))
            results += res
            if bad:
                r = Run(prop, bad["label"], "miri", p["groups"], seed, tier)
                found = (r, Violation(bad["label"], bad["case"], bad["what"]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    findings = []
    if not found:
        try:
            findings = known(prop, results)
        except Violation as v:
            found = (next(r for r in runs if r.label == v.label), v)
    coverage = merge(results) if results else {
        "evaluations": 1, "distinct_nontrivial": 1, "samples": [found[1].what[:400]]}
    if not found and coverage["evaluations"] == 0:
        raise NoAnswer("no case was observed")
    coverage["rule"] = p["rule"]
    coverage["seeds"] = rounds
    coverage["hooks"] = {r.label: list(r.groups) for r in runs}
    if findings:
        coverage["known_findings"] = findings
    if not coverage["samples"]:
        coverage["samples"] = [found[1].what[:400] if found else "none kept"]
    assumptions = p.get("assumptions", [])
    write_evidence(prop, tier, seed, coverage, time.time() - start, 1 if found else 0, assumptions)
    if found:
        r, v = found
        path = write_replay(prop, r, v, words)
        print(f"{prop} is violated in the {r.label} build: {v.what}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f}")
    print(f"{prop} held: {coverage['evaluations']} cases, {coverage['distinct_nontrivial']} distinct, "
          f"{time.time() - start:.1f} s")
    return 0


def replay(path):
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    prop, p = d["property"], PROPS[d["property"]]
    home = tempfile.TemporaryDirectory()
    give_dictionary(home.name, "\n".join(d.get("dictionary", [])))
    if d["kind"] == "miri":
        import miri
        miri.build(prop, p, env, HARNESS, TARGET, run, NoAnswer, fewer_groups)
        rc, text = miri.one(prop, p, d["case"], d["seed"], d["tier"], env, HARNESS, TARGET, run, 3600)
        print(text[-6000:])
        return 1 if rc else 0
    r = Run(prop, d["label"], d["kind"], p["groups"], d["seed"], d["tier"])
    r.build()
    with tempfile.TemporaryDirectory() as scratch:
        rc, text, result = r.launch(scratch, only=d["case"], timeout=3600)
    print(text[-6000:])
    for v in (result or {}).get("violations", []):
        print(v["what"])
    print(ended(rc))
    return 0 if rc == 0 else 1


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1:] == ["--setup"]:
        return setup()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        return check(prop, seed, tier)
    except NoAnswer as e:
        print(f"no answer for {prop}: {e}")
        return 2


if __name__ == "__main__":
    sys.exit(main())
