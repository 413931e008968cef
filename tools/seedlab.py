#!/usr/bin/env python3
"""Try planted changes (seeded/<id>/) in a scratch copy: seedlab.py verify ID...   seedlab.py check ID... [--prop Cxx]

verify: applies, builds, passes the repository's tests in all variants, demo passes without and fails with it.
check: applies it to /repo, runs the property's quick check, undoes it.
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(HERE, "seeded")


def sh(cmd, cwd, timeout=900, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)


def verify(ids):
    scratch = tempfile.mkdtemp(prefix="seedlab-")
    copy = os.path.join(scratch, "repo")
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        for i in ids:
            d = os.path.join(SEEDS, i)
            away = os.path.join(scratch, "demo-" + i)
            shutil.copytree(d, away)
            for f in ("patch.diff", "meta.json"):
                os.remove(os.path.join(away, f))
            r = sh("bash %s/demo.sh" % away, copy, 300)
            before = r.returncode
            out0 = r.stdout
            r = sh("git apply %s/patch.diff" % d, copy)
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stdout.decode()); continue
            tests = []
            for v in ("spec", "subiot", "wizzilab"):
                r = sh("cargo test --offline --no-default-features -F std,%s 2>&1 | grep -E '^test result|FAILED|^error' " % v, copy)
                o = r.stdout.decode()
                tests.append("ok" if "test result" in o and "FAILED" not in o and "error" not in o else "FAIL " + o)
            r = sh("bash %s/demo.sh" % away, copy, 300)
            good = before == 0 and r.returncode != 0 and tests == ["ok"] * 3
            print(i, "GOOD" if good else "BAD", "demo before", before, "after", r.returncode, tests, flush=True)
            if before:
                print(out0.decode()[-1500:])
            elif good:
                print("    ", "\n      ".join(r.stdout.decode().strip().split("\n")[-3:]), flush=True)
            sh("git checkout -- .", copy)
    finally:
        shutil.rmtree(scratch)


def check(ids, prop=None):
    for i in ids:
        d = os.path.join(SEEDS, i)
        p = prop or json.load(open(d + "/meta.json"))["property"]
        r = sh("git apply %s/patch.diff" % d, "/repo")
        try:
            assert r.returncode == 0, r.stdout
            env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            r = sh("python3 check.py %s quick" % p, HERE, 1500, env)
            o = r.stdout.decode(errors="replace")
            v = [l for l in o.split("\n") if "VIOLATION" in l]
            print(i, p, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", v[:1], flush=True)
            if r.returncode not in (0, 1):
                print(o[-3000:])
        finally:
            sh("git checkout -- .", "/repo")


if __name__ == "__main__":
    a = sys.argv[2:]
    prop = None
    if "--prop" in a:
        k = a.index("--prop"); prop = a[k + 1]; del a[k:k + 2]
    ids = a or sorted(os.listdir(SEEDS))
    verify(ids) if sys.argv[1] == "verify" else check(ids, prop)
