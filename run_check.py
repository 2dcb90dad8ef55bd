#!/usr/bin/env python3
"""run_check.py <property> quick|thorough: build from /repo's working tree, search, write evidence/<property>.json."""
import os, subprocess, sys, shutil
H = os.path.dirname(os.path.abspath(__file__))
os.chdir(H)


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = os.environ.get("VERIF_SEED", "1")
    r = subprocess.run([sys.executable, os.path.join(H, "build.py")])
    if r.returncode:
        print("ERROR: build of the harness failed")
        return 2
    os.makedirs("evidence", exist_ok=True)
    os.makedirs("replays", exist_ok=True)
    workers = min(8, len(os.sched_getaffinity(0)))
    cmd = [os.path.join(H, "build/vfcheck"), "--prop", prop, "--seed", seed, "--tier", tier, "--workers", str(workers),
           "--known", os.path.join(H, "known_findings.txt"), "--out", os.path.join(H, "evidence", prop + ".json"), "--replaydir", os.path.join(H, "replays")]
    if len(sys.argv) > 3:
        cmd += sys.argv[3:]
    return subprocess.run(cmd).returncode


sys.exit(main())
