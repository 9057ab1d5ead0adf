#!/usr/bin/env python3
"""Replays one counterexample (or witness) file of a check on the native build of /repo.

    tools/replay.py FILE        exit 0: the real code behaves, non-zero: the violation shows

The file names its harness and features in the first line; each further line holds the bytes of
one symbolic input, as the solver chose them.
"""
import os, re, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

path = os.path.abspath(sys.argv[1])
m = re.match(r"# property=(\S+) harness=(\S+) features=(\S+)", open(path).readline())
if not m:
    sys.exit("not a replay file: " + path)
pid, harness, features = m.groups()
with tempfile.TemporaryDirectory() as t:
    worst = 0
    for flag, d in (([], "debug"), (["--release"], "release")):
        rc, o = check.run(["cargo", "build", "--offline", "--bin", "replay", "--features", features, "--target-dir", t, *flag], check.NATIVE, 400, check.STABLE)
        if rc != 0:
            sys.exit(o)
        rc, o = check.run([os.path.join(t, d, "replay"), harness, path], t, 60, check.STABLE)
        print(f"{d}: exit {rc}: {o.strip()}")
        worst = worst or (rc if rc is not None else 1)
    rc, o = check.run(["cargo", "+nightly", "miri", "run", "--offline", "--features", features, "--target-dir", t + "/miri", "--bin", "replay", "--", harness, path], check.NATIVE, 300)
    ub = re.search(r"error: Undefined Behavior: .*", o)
    if ub:
        print("miri:", ub.group(0))
        worst = worst or 1
    sys.exit(worst)
