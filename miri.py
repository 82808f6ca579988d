"""Runs a monitor inside Miri, on several cores, each with cases of its own."""

import os
import re
import threading

FLAGS = ("-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks "
         "-Zmiri-symbolic-alignment-check")
WORKERS = 8


def _env(env, groups, seed=0):
    e = env(groups)
    e.pop("CARGO_ENCODED_RUSTFLAGS")
    rf = ["-Adead_code"]
    if groups:
        rf += ["--cfg", "rescan_verif"]
    for g in groups:
        rf += ["--cfg", f'rescan_verif="{g}"']
    # cargo-miri does not take --cap-lints.
    e["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join(rf)
    e["MIRIFLAGS"] = f"{FLAGS} -Zmiri-seed={seed}"
    return e


def _cmd(prop, groups, TARGET, *args):
    d = os.path.join(TARGET, "-".join(["miri", *groups]))
    return ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--target-dir", d,
            "--bin", prop.lower(), "--", *map(str, args)]


def build(prop, p, env, HARNESS, TARGET, run, NoAnswer, fewer_groups):
    rc, out = run(_cmd(prop, p["groups"], TARGET, 1, 0, 0, 1), 600, env=_env(env, p["groups"]), cwd=HARNESS)
    if rc != 0 and (fewer := fewer_groups(prop, p["groups"])) is not None:
        p["groups"] = fewer
        return build(prop, p, env, HARNESS, TARGET, run, NoAnswer, fewer_groups)
    if rc != 0 or "cases 0" not in out:
        raise NoAnswer(f"miri: the build failed\n{out[-4000:]}")


def _why(text):
    m = re.search(r"^error: (.*)$", text, re.M)
    at = re.findall(r"--> (\S+)", text[m.start():] if m else "")
    if m:
        return m.group(1) + (" at " + at[0] if at else "")
    m = re.search(r"^violated: (.*)$", text, re.M)
    return m.group(1) if m else None


def _read(text):
    m = re.search(r"^cases (\d+) distinct (\d+)$", text, re.M)
    if not m:
        return None
    counts = {k: int(v) for v, k in re.findall(r"^count (\d+) (.*)$", text, re.M)}
    return int(m.group(1)), int(m.group(2)), counts


def go(prop, p, seed, tier, env, HARNESS, TARGET, run, NoAnswer, limit):
    """Returns the coverage and, if any, the violation."""
    seconds = 75 if tier == "quick" else min(3600, int(limit / 2))
    span = 1_000_000
    # Give up only long after a worker should have stopped by itself.
    patience = min(limit, seconds + 300)
    outs = [None] * WORKERS

    def one_worker(k):
        cmd = _cmd(prop, p["groups"], TARGET, seed, k * span, (k + 1) * span, seconds)
        outs[k] = run(cmd, patience, env=_env(env, p["groups"], seed * 100 + k), cwd=HARNESS)

    ts = [threading.Thread(target=one_worker, args=(k,)) for k in range(WORKERS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    total, distinct, counts, silent = 0, 0, {}, 0
    for k, (rc, text) in enumerate(outs):
        why = _why(text)
        if rc == 1 and why:
            # The next line after the last case is what became of it.
            case = re.findall(r"^case (\d+)$", text, re.M)
            if re.search(r"unsupported operation|resource exhaustion", why):
                raise NoAnswer(f"miri: {why}")
            return [], {"label": "miri", "case": f"{case[-1]}:{seed * 100 + k}" if case else "0:0", "what": why}
        got = _read(text)
        if rc == 0 and got:
            total += got[0]
            distinct += got[1]
            for n, v in got[2].items():
                counts[n] = counts.get(n, 0) + v
        elif rc is None:
            # A slow machine: what it did is lost, unless all are.
            silent += 1
        else:
            raise NoAnswer(f"miri: ended with {rc}: {text[-2000:]}")
    if silent == WORKERS or total == 0:
        raise NoAnswer("miri: no case ended in time")
    return [("miri", {"evaluations": total, "distinct": distinct, "counts": counts, "max": {},
                      "phases": [["interpreted", total]], "samples": []})], None


def one(prop, p, case, seed, tier, env, HARNESS, TARGET, run, timeout):
    """Runs a recorded case again."""
    n, miri_seed = map(int, case.split(":"))
    return run(_cmd(prop, p["groups"], TARGET, seed, n, n + 1, 3600), timeout,
               env=_env(env, p["groups"], miri_seed), cwd=HARNESS)
