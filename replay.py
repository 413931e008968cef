#!/usr/bin/env python3
"""replay.py FILE : run the execution a VIOLATION line points to again, on /repo's current tree."""
import json, os, sys, time
import check
check.START = time.time()
d = json.load(open(sys.argv[1]))
v, flavour = d["variant"], d.get("flavour", "native")
print(d["message"][:3000])
if flavour == "miri":
    check.setup_miri()
    t = check.build_miri(v)
    env = dict(os.environ, CARGO_TARGET_DIR=t, **check.miri_env())
    cmd = ["cargo"] + check.miri_args(v, None)
elif flavour == "portable":
    check.setup_miri(); check.setup_miri(check.BIG)
    t = check.build_miri(v, check.BIG)
    print("--- little-endian"); print(check.run([check.build_native(v)] + d["command"], 100).out)
    print("--- big-endian")
    env = dict(os.environ, CARGO_TARGET_DIR=t, **check.miri_env())
    cmd = ["cargo"] + check.miri_args(v, check.BIG)
else:
    env = None
    cmd = [check.build_native(v) if flavour == "native" else check.build_sanitized(v, flavour)]
    if "--bin" in d.get("extra", []):
        check.build_cli(v)
if d.get("kind"):
    f = "/tmp/d7-replay-case"
    open(f, "w").write(d["input"])
    cmd += ["replay", d["kind"], "--file", f] + d.get("extra", [])
else:
    cmd += d["command"]
r = check.run(cmd, 900, env=env, cwd=check.HARNESS)
print("--- exit", r.rc, "(0: holds, 1: violated)")
print(r.out[-4000:], r.err[-4000:])
sys.exit(1 if r.rc else 0)
