#!/usr/bin/env python3
"""Run the check of one property.

usage: check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [...]

Exit 0: held; 1: VIOLATION line printed; anything else: the check failed."""

import os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import build

def main():
    t0 = time.time()
    args = sys.argv[1:]
    pid = args.pop(0).upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    flavors = None
    rest = []
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--seed": seed = args.pop(0)
        elif a == "--replay": replay = args.pop(0)
        elif a == "--flavor": flavors = [args.pop(0)]
        else: rest.append(a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        int(seed)
    except ValueError:
        seed = "1"
    if flavors is None:
        flavors = ["opt"] if (tier == "quick" or replay) else ["opt", "asan"]
    env = dict(os.environ)
    env["DIFFPYRUNTIME"] = os.path.join(build.REPO, "src/runtime")
    env["MALLOC_PERTURB_"] = "165"
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env.pop("LD_LIBRARY_PATH", None)
    env["LC_ALL"] = "C"
    rc = 0
    for fl in flavors:
        if not build.build(fl, [pid]):
            return 2
        tb = time.time()
        print("%s: built %s flavor in %.1f s" % (pid, fl, tb - t0), flush=True)
        cmd = [os.path.join(VERIF, "build", fl, pid), "--prop", pid,
               "--tier", tier, "--seed", seed,
               "--replaydir", os.path.join(VERIF, "replays"),
               "--workers", str(min(8, os.cpu_count() or 4)),
               "--started", str(t0)]
        if fl == "asan":
            cmd += ["--scale", "0.15"]
        else:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            cmd += ["--evidence", os.path.join(VERIF, "evidence", pid + ".json")]
        if replay:
            cmd += ["--replay", replay]
        r = subprocess.run(cmd + rest, env=env)
        rc = r.returncode
        if rc:
            break
    return rc if rc >= 0 else 3

sys.exit(main())
