#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]: decides one property of /verif/properties.jsonl.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; anything else: the check itself failed."""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B  # noqa: E402
from checks import CHECKS  # noqa: E402


def clean(scratch):
    """remove the scratch directory and what killed processes left in shared memory"""
    ids = set()
    for root, _, files in os.walk(scratch):
        if "sessions.log" in files:
            with open(os.path.join(root, "sessions.log")) as f:
                ids |= set(f.read().split())
    for n in os.listdir("/dev/shm") if ids else []:
        m = re.match(r"(?:sem\.)?fmq_([0-9a-f]{8})_", n)
        if m and m.group(1) in ids:
            try:
                os.unlink("/dev/shm/" + n)
            except OSError:
                pass
    shutil.rmtree(scratch, ignore_errors=True)


def build_all(names):
    t0 = time.time()
    for n in names:
        for part in CHECKS[n]["parts"]:
            if "src" in part:
                make(part)
        print("built %s after %.1f s" % (n, time.time() - t0), flush=True)


def make(part):
    srcs = [part["src"]] + part.get("more", []) + ["lib/harness.cpp"]
    if "so" in part:   # a library the program loads
        os.environ["VERIF_SO"] = B.build(os.path.basename(part["so"]).rsplit(".", 1)[0], [part["so"]], [], san=part.get("san", "asan"), opt="-O0", cov=False,
                                         extra=["-fPIC"], ldextra=["-shared", "-s"], shared=True)
    return B.build(os.path.basename(part["src"]).rsplit(".", 1)[0], srcs, part.get("tus", []), san=part.get("san", "asan"),
                   opt=part.get("opt", "-O1"), cov=part.get("cov", True), extra=part.get("extra", ()), ldextra=part.get("ldextra", ()))


def known(pid):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid]
    except OSError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.id == "build-all":
        build_all(sorted(CHECKS))
        return 0
    spec = CHECKS[a.id]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.id, dir="/tmp")
    rc = 0
    results = []
    build_s = 0.0
    counts = {}
    procs = []

    def cleanup(*_):
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        clean(scratch)
        sys.exit(3)

    signal.signal(signal.SIGTERM, cleanup)
    try:
        parts = [p for p in spec["parts"] if a.tier in p.get("tiers", ("quick", "thorough"))]
        with ThreadPoolExecutor(max_workers=8) as ex:
            exes = list(ex.map(lambda p: make(p) if "src" in p else None, parts))
        build_s = time.time() - t0
        for i, part in enumerate(parts):
            exe = exes[i]
            if "src" in part:
                quick = a.tier == "quick"
                budget = a.budget or (part.get("quick_s", 12) if quick else part.get("thorough_s", 240))
                res = os.path.join(scratch, "result.%d.json" % i)
                replay = os.path.join(VERIF, "replays", "%s-%s-%d.txt" % (a.id, a.tier, i))
                sdir = os.path.join(scratch, "s%d" % i)
                os.makedirs(sdir)
                args = [exe, "--property", a.id, "--seed", str(a.seed), "--budget", str(budget), "--workers",
                        str(part.get("workers", 8)), "--min-cases", str(part.get("min_cases", 20)), "--result", res,
                        "--replay-out", replay, "--scratch", sdir, "--shrink", "25" if quick else "90"]
                if a.replay:
                    args += ["--replay", a.replay]
                only = a.only or part.get("only")
                if only:
                    args += ["--only", only]
                if a.v:
                    args += ["-v"]
                env = dict(os.environ, **part.get("env", {}))
                env["VERIF_TIER"] = a.tier
                env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0"
                env["TMPDIR"] = sdir
                p = subprocess.Popen(args, cwd=sdir, env=env, stdin=subprocess.DEVNULL, start_new_session=True)
                procs.append(p)
                r = p.wait()
                if a.replay and r == 3:
                    continue
                if a.replay:
                    return r
            else:
                r, data = part["py"](a.tier, a.seed, scratch, VERIF, a.id, a.replay)
                res = os.path.join(scratch, "result.%d.json" % i)
                with open(res, "w") as f:
                    json.dump(data, f)
                if a.replay and r != 3:
                    return r
            if os.path.exists(res):
                with open(res) as f:
                    results.append(json.load(f))
            if r != 0:
                rc = r
                break
    except B.BuildError as e:
        print("%s: %s" % (a.id, e))
        rc = 3
    finally:
        clean(scratch)
        B.prune()
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = max(v, counts.get(k, 0)) if k == "coverage_counters_hit" else counts.get(k, 0) + v
    ev = {
        "property": a.id, "tier": a.tier, "seed": a.seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": spec["rule"],
            "samples": [s for r in results for s in r["samples"]][:24],
            "counts": counts,
            "unconfirmed_failures": sum(r.get("unconfirmed", 0) for r in results),
            "unconfirmed_messages": [s for r in results for s in r.get("unconfirmed_messages", [])],
            "enumerated_completely": {k: v for r in results for k, v in r.get("exhaustive", {}).items()},
            "shrink_attempts": sum(r.get("shrink_attempts", 0) for r in results),
            "build_s": round(build_s, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": sum(r.get("violation", 0) for r in results),
    }
    if not a.replay and not a.only:
        with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for k in known(a.id):
        if rc == 0:
            print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
    return rc


if __name__ == "__main__":
    sys.exit(main())
