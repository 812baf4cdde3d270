#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's working tree. See DESIGN.md."""
import concurrent.futures
import json
import os
import re
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from props import PROPS  # noqa: E402

HARNESS = os.path.join(ROOT, "harness")
TARGET = os.environ.get("VERIF_TARGET") or os.path.join(ROOT, "target")
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
TRIPLE = "x86_64-unknown-linux-gnu"
CFG = "--cfg parcom_verif"
START = time.time()


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, step, detail="", case=None):
        super().__init__(what)
        self.what, self.step, self.detail, self.case = what, step, detail, case


def env_for(kind):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "MIRIFLAGS", "CARGO_"))}
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    if kind in ("native", "release"):
        e["RUSTFLAGS"] = CFG
    elif kind == "asan":
        e["RUSTFLAGS"] = CFG + " -Zsanitizer=address"
        e["ASAN_OPTIONS"] = "exitcode=77:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=0"
    elif kind == "tsan":
        e["RUSTFLAGS"] = CFG + " -Zsanitizer=thread"
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:second_deadlock_stack=1"
    elif kind == "miri":
        e["RUSTFLAGS"] = CFG
    return e


def tail(s, n=4000):
    return s[-n:]


def build(kind, binary):
    """build one harness binary against /repo's working tree; returns its path"""
    tdir = os.path.join(TARGET, kind)
    cmd = ["cargo"]
    if kind in ("asan", "tsan"):
        cmd.append("+nightly")
    cmd += ["build", "--offline", "--target-dir", tdir, "--bin", binary]
    out = os.path.join(tdir, "debug", binary)
    if kind == "release":
        cmd.append("--release")
        out = os.path.join(tdir, "release", binary)
    if kind in ("asan", "tsan"):
        cmd += ["--target", TRIPLE]
        out = os.path.join(tdir, TRIPLE, "debug", binary)
    if kind == "tsan":
        cmd.append("-Zbuild-std")
    p = subprocess.run(cmd, cwd=HARNESS, env=env_for(kind), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        print(tail(p.stdout))
        raise Inconclusive(f"{kind} build of {binary} failed")
    return out


def limits(kind):
    def f():
        import resource

        if kind in ("native", "release"):
            resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return f


def parse_output(out):
    res, viol, herr = None, None, None
    for line in out.splitlines():
        if line.startswith("@@RESULT "):
            r = json.loads(line[9:])
            if res is None:
                res = r
            else:  # one line per scheduler seed
                res["evaluations"] += r["evaluations"]
                res["distinct"] = max(res["distinct"], r["distinct"])
                res["timed_out"] = res["timed_out"] or r["timed_out"]
                for k, v in r["counters"].items():
                    c = res["counters"].get(k, 0)
                    res["counters"][k] = max(c, v) if k.startswith("max_") else c + v
        elif line.startswith("@@VIOLATION ") and viol is None:
            viol = json.loads(line[12:])
        elif line.startswith("@@HARNESS "):
            herr = json.loads(line[10:])
    return res, viol, herr


SAN = re.compile(r"(ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*|ERROR: ThreadSanitizer.*)")
MIRI_UB = re.compile(r"error: (Undefined Behavior.*|.*deadlock.*|abnormal termination.*|memory leaked.*|.*[Ss]tack overflow.*|resource exhaustion.*)")


def judge(kind, label, p, out, err):
    """turn an ended process into its result, a Violation or Inconclusive"""
    res, viol, herr = parse_output(out)
    m = SAN.search(err)
    if m:
        raise Violation(m.group(1).strip(), label, tail(err, 12000))
    if kind == "miri":
        m = MIRI_UB.search(err)
        if m and "resource exhaustion" not in m.group(1):
            raise Violation("Miri: " + m.group(1).strip(), label, tail(err, 12000))
    if viol is not None:
        raise Violation(viol["what"], label, tail(out, 6000), viol)
    if p < 0 and p != -signal.SIGKILL:
        raise Violation(f"the process died of {signal.Signals(-p).name}", label, tail(out + err, 6000))
    if kind == "miri" and p in (134, 139):
        raise Violation("the process aborted", label, tail(out + err, 6000))
    if herr is not None:
        raise Inconclusive(f"{label}: {herr}")
    if p != 0:
        raise Inconclusive(f"{label}: exit status {p}: {tail(out + err, 1500)}")
    if res is None:
        raise Inconclusive(f"{label}: no result line")
    if res["timed_out"]:
        print(f"note: {label}: stopped by its time limit after {res['evaluations']} cases")
    return res


def run_bin(kind, path, args, label, timeout, stdin=None):
    try:
        p = subprocess.run([path] + args, cwd=HARNESS, env=env_for(kind), capture_output=True, text=True, errors="replace", timeout=timeout, preexec_fn=limits(kind))
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"{label}: no end after {timeout} s")
    return judge(kind, label, p.returncode, p.stdout, p.stderr)


def run_miri(binary, args, label, timeout, flags):
    e = env_for("miri")
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks " + flags
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(TARGET, "miri"), "--bin", binary, "--"] + args
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"{label}: no end after {timeout} s")
    if "could not compile" in p.stderr:
        print(tail(p.stderr))
        raise Inconclusive(f"miri build of {binary} failed")
    return judge("miri", label, p.returncode, p.stdout, p.stderr)


def merge(total, res, kind):
    total["evaluations"] += res["evaluations"]
    total["steps"].setdefault(kind, {"runs": 0, "evaluations": 0, "distinct": 0})
    s = total["steps"][kind]
    s["runs"] += 1
    s["evaluations"] += res["evaluations"]
    # runs with other seeds may repeat cases: only the largest run counts as distinct
    s["distinct"] = max(s["distinct"], res["distinct"])
    total["distinct"] = max(total["distinct"], res["distinct"])
    for k, v in res["counters"].items():
        c = total["counters"].setdefault(kind, {})
        c[k] = max(c.get(k, 0), v) if k.startswith("max_") else c.get(k, 0) + v
    for x in res["samples"]:
        if len(total["samples"]) < 4:
            total["samples"].append(x)


def with_release(steps):
    """every native workload again, smaller and from another seed, on what users ship: no debug
    assertions, no overflow checks"""
    out = []
    for kind, binary, o in steps:
        out.append((kind, binary, o))
        if kind == "native":
            q, t = o.get("scale", (1, 20))
            out.append(("release", binary, dict(o, scale=(max(q * 0.25, 0.25), t * 0.25))))
    return out


def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    thorough = tier == "thorough"
    tier = "thorough" if thorough else "quick"
    t = 1 if thorough else 0
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = sum(ord(c) * 31**i for i, c in enumerate(os.environ["VERIF_SEED"])) % (1 << 63)
    seed %= 1 << 64
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    total = {"evaluations": 0, "distinct": 0, "counters": {}, "samples": [], "steps": {}}
    violation, inconclusive = None, None
    try:
        for kind, binary, o in with_release(spec["steps"]):
            if thorough and o.get("thorough_only") is False:
                continue
            if not thorough and o.get("thorough_only"):
                continue
            scale = o.get("scale", (1, 20))[t]
            secs = o.get("secs", (200, 1500))[t]
            base = [prop] + o.get("args", [])
            if kind == "miri":
                runs = o.get("runs", (1, 8))[t]
                many = o.get("many", (0, 0))[t]
                flags = o.get("flags", "")
                jobs = []
                for i in range(runs):
                    f = flags + (f" -Zmiri-many-seeds={i * many}..{(i + 1) * many}" if many else f" -Zmiri-seed={(seed + i) % (1 << 32)}")
                    a = base + ["--mini", "--seed", str((seed + i) % (1 << 64)), "--scale", str(scale)]
                    jobs.append((binary, a, f"miri run {i} (seed {seed + i}) of {binary}", secs + 200, f))
                # the first run builds
                first = run_miri(*jobs[0])
                merge(total, first, "miri")
                with concurrent.futures.ThreadPoolExecutor(1 if many else 6) as ex:
                    for r in ex.map(lambda j: run_miri(*j), jobs[1:]):
                        merge(total, r, "miri")
                if many:
                    total["steps"]["miri"]["scheduler_seeds"] = runs * many
            else:
                path = build(kind, binary)
                other = 7_000_003 if kind == "release" else 0
                a = base + ["--seed", str((seed + other) % (1 << 64)), "--scale", str(scale), "--max-secs", str(secs)]
                a += ["--threads", str(min(8, os.cpu_count() or 4))]
                merge(total, run_bin(kind, path, a, f"{kind} {binary}", secs + 240), kind)
    except Violation as v:
        violation = v
    except Inconclusive as i:
        inconclusive = str(i)
    except subprocess.TimeoutExpired as x:
        inconclusive = str(x)[:500]

    known = []
    try:
        with open(os.path.join(ROOT, "known-findings.txt")) as f:
            known = [l.strip() for l in f if l.startswith(f"KNOWN-FINDING: property={prop} ")]
    except FileNotFoundError:
        pass
    for k in known:
        print(k)

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": total["distinct"],
            "rule": spec["rule"],
            "samples": total["samples"] or ["none: the run ended early"],
            "steps": total["steps"],
            "observed": total["counters"],
        },
        "assumptions": [spec["note"]],
        "wall_s": round(time.time() - START, 1),
        "violations": 1 if violation else 0,
    }
    if inconclusive:
        evidence["coverage"]["inconclusive"] = inconclusive
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    if violation:
        path = os.path.join(REPLAYS, f"{prop}-{tier}-{seed}.json")
        replay = {
            "property": prop,
            "what": violation.what,
            "step": violation.step,
            "seed": seed,
            "tier": tier,
            "case": violation.case,
            "rerun": f"VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {prop}",
            "detail": violation.detail,
        }
        if violation.case:
            where = "target/release/release" if kind == "release" else "target/native/debug"
            replay["one_case"] = f"{where}/{binary} {prop} --part {violation.case['part']} --only {violation.case['case_seed']}"
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
            f.write("\n")
        print(f"{prop}: {violation.step}: {violation.what[:3000]}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}")
        sys.exit(1)
    if inconclusive:
        print(f"{prop}: inconclusive: {inconclusive}")
        sys.exit(2)
    print(f"{prop}: held on {total['evaluations']} cases, {total['distinct']} distinct non-trivial ({tier}, seed {seed}, {evidence['wall_s']} s)")
    sys.exit(0)


if __name__ == "__main__":
    main()
