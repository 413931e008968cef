#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : decide one property on /repo's current working tree.

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: no answer (the check itself failed).
"""
import concurrent.futures, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
HARNESS = os.path.join(HERE, "harness")
VARIANTS = ["spec", "subiot", "wizzilab"]
HOST = "x86_64-unknown-linux-gnu"
BIG = "s390x-unknown-linux-gnu"
GB = 1 << 30
MIRI_FLAGS = "-Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmir-opt-level=3"
MIRI_RUST = "-Zmir-opt-level=3 -Zinline-mir -Zinline-mir-threshold=400 -Zinline-mir-hint-threshold=800 -Zcross-crate-inline-threshold=always"
CORES = os.cpu_count() or 8


class NoAnswer(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - START), *a, flush=True)


# ---------------------------------------------------------------------------------------------- building

def tree_hash():
    """Content of everything in /repo that is not ignored build output."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".rs", ".toml", ".lock")):
                h.update(p.encode() + b"\0")
                with open(p, "rb") as x:
                    h.update(x.read())
    return h.hexdigest()


def fresh(target):
    """Cargo goes by time stamps; make it rebuild the crates whenever their content differs from what was built here."""
    stamp, now = os.path.join(target, ".content"), tree_hash()
    os.makedirs(target, exist_ok=True)
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        for pat in ("**/.fingerprint/dash7-*", "**/.fingerprint/dash7-cli-*", "**/.fingerprint/d7mon-*"):
            for d in glob.glob(os.path.join(target, pat), recursive=True):
                shutil.rmtree(d, ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(now)


def cargo(args, target, env=None, cwd=HARNESS, timeout=800):
    e = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(env or {})
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
    return r


def must(r, what):
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-6000:])
        raise NoAnswer("building failed: " + what)


def build_native(v):
    t = os.path.join(TARGET, v)
    fresh(t)
    must(cargo(["build", "--offline", "--release", "-F", v], t), "harness " + v)
    return os.path.join(t, "release", "d7mon")


def build_cli(v):
    t = os.path.join(TARGET, "cli-" + v)
    fresh(t)
    must(cargo(["build", "--offline", "--manifest-path", REPO + "/Cargo.toml", "-p", "dash7-cli", "--no-default-features", "-F", v], t, cwd=HERE), "tool " + v)
    return os.path.join(t, "debug", "dash7")


def build_sanitized(v, kind):
    t = os.path.join(TARGET, kind + "-" + v)
    fresh(t)
    args = ["+nightly", "build", "--offline", "--release", "--target", HOST, "-F", v]
    if kind == "thread":
        args.insert(2, "-Zbuild-std")  # a runtime without instrumentation would hide or invent races
    must(cargo(args, t, {"RUSTFLAGS": "-Zsanitizer=" + kind}), "%s sanitizer, %s" % (kind, v))
    return os.path.join(t, HOST, "release", "d7mon")


def miri_args(v, target):
    return ["+nightly", "miri", "run", "--offline", "-q", "-F", v] + (["--target", target] if target else []) + ["--"]


def miri_env():
    return {"MIRIFLAGS": MIRI_FLAGS, "RUSTFLAGS": MIRI_RUST}


def build_miri(v, target=None):
    t = os.path.join(TARGET, "miri-" + v)
    fresh(t)
    must(cargo(miri_args(v, target) + ["items"], t, miri_env()), "interpreted harness " + v)
    return t


def setup_miri(target=None):
    # outside the crates, so that their flags do not matter
    r = cargo(["+nightly", "miri", "setup"] + (["--target", target] if target else []), os.path.join(TARGET, "miri-setup"))
    must(r, "interpreter " + (target or ""))


def numbers():
    """The numbers written in the library and the tool: what inputs are drawn from more often (no verdict depends on it)."""
    found = set()
    lit = r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:_?[ui](?:8|16|32|64|128|size))?(?![\w])"

    def val(s):
        s = s.replace("_", "")
        return int(s, {"0x": 16, "0b": 2, "0o": 8}.get(s[:2].lower(), 10))
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "tests", "benches", "examples"))
        for f in sorted(files):
            if not f.endswith(".rs") or "/src" not in root:
                continue
            with open(os.path.join(root, f), errors="replace") as x:
                text = re.sub(r"//[^\n]*", "", x.read())
            for m in re.finditer(lit, text):
                found.add(val(m.group(1)))
            for m in re.finditer(lit + r"\s*(<<|\*)\s*" + lit, text):
                a, b = val(m.group(1)), val(m.group(3))
                if m.group(2) == "*":
                    found.add(a * b)
                elif b < 64:
                    found.add(a << b)
            for m in re.finditer(r"'([ -~])'", text):
                found.add(ord(m.group(1)))
    return sorted(n for n in found if 0 < n < 1 << 64)


def words():
    if not hasattr(words, "args"):
        with open(os.path.join(HERE, "tools", "numbers.json")) as f:
            usual = set(json.load(f))
        now = numbers()
        words.args = ["--words", ",".join(str(n) for n in now if n not in usual) + ":" + ",".join(str(n) for n in now if n in usual)]
    return words.args


def in_parallel(jobs, workers=CORES):
    """Run thunks; the first NoAnswer wins."""
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


# ---------------------------------------------------------------------------------------------- running

class Proc:
    pass


def run(cmd, timeout, env=None, mem=None, cpu=None, cwd=None):
    def limits():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, preexec_fn=limits, cwd=cwd)
    r = Proc()
    r.timeout = False
    try:
        r.out, r.err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        r.out, r.err = p.communicate()
        r.timeout = True
    r.rc = p.returncode
    r.out, r.err = r.out.decode(errors="replace"), r.err.decode(errors="replace")
    return r


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.evals = self.distinct = 0
        self.samples, self.parts, self.violations, self.known = [], {}, [], {}
        self.scratch = tempfile.mkdtemp(prefix="d7-%s-" % prop)
        self.known_listed = {}
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                self.known_listed[m.group(2)] = m.group(3).strip()

    def violation(self, variant, msg, **replay):
        d = dict(property=self.prop, variant=variant, seed=self.seed, tier=self.tier, message=msg, **replay)
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        key = hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(HERE, "replay", "%s-%s-%s.json" % (self.prop, variant, key))
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        if len(self.violations) < 12:
            log("violation (%s): %s" % (variant, msg[:1500]))
        self.violations.append(path)

    def take(self, name, variant, d, bin_args):
        """Merge a report of the harness."""
        if d["harness_errors"]:
            for e in d["harness_errors"][:3]:
                log("harness error:", e[:1000])
            raise NoAnswer("the harness failed")
        self.evals += d["evaluations"]
        self.distinct += d["distinct"]
        if len(self.samples) < 12:
            self.samples += ["%s %s" % (variant, s) for s in d["samples"][:4]]
        self.parts["%s %s" % (name, variant)] = dict(evaluations=d["evaluations"], distinct=d["distinct"], observed=d["tags"])
        for sig, k in d["known"].items():
            if sig in self.known_listed:
                self.known.setdefault(sig, [0, k])[0] += k["count"]
            else:
                self.violation(variant, "%s: %s" % (sig, k["msg"]), kind=k["kind"], input=k["input"], **bin_args)
        for f in d["found"][:4]:
            self.violation(variant, f["msg"], kind=f["kind"], input=f["input"], **bin_args)
        if len(d["found"]) > 4:
            log("and %d more" % (len(d["found"]) - 4))

    def enough(self, name, variant):
        """A quick check that has found a violation leaves out what remains."""
        if self.violations and not self.thorough:
            log("left out: %s %s" % (name, variant))
            return True
        return False

    def harness(self, name, variant, exe, plan=None, scale=100, limit=None, mem=24 * GB, env=None, silent=False, extra=(), flavour="native", prelude=()):
        """Run the monitors of a property natively; explain crashes and hangs by replaying single cases."""
        if self.enough(name, variant):
            return
        plan = plan or self.prop
        limit = limit or (800 if self.thorough else 130)
        out = os.path.join(self.scratch, "%s-%s.json" % (name, variant))
        cmd = list(prelude) + [exe, "run", plan, "--seed", str(self.seed), "--tier", self.tier, "--out", out, "--scale", str(scale), "--limit", str(limit)] + list(extra) + words()
        t0 = time.time()
        r = run(cmd, limit * 2 + 120, env=env, mem=mem)
        bin_args = dict(flavour=flavour, extra=list(extra) + words())
        if silent and (r.out or r.err) and r.rc == 0:
            self.violation(variant, "the library wrote to the standard streams: %r" % (r.out + r.err)[:400], command=cmd[1:], **bin_args)
        if r.rc == 0:
            self.take(name, variant, json.load(open(out)), bin_args)
            d = self.parts["%s %s" % (name, variant)]
            log("%s %s: %d cases in %.1f s" % (name, variant, d["evaluations"], time.time() - t0))
            return
        tell = (r.err or r.out)[-3000:]
        suspects = []
        if r.rc == 7 and os.path.exists(out + ".hang"):
            suspects = [open(out + ".hang").read().split()]
        elif r.timeout:
            raise NoAnswer("%s %s did not end" % (name, variant))
        elif "ThreadSanitizer" in r.err:
            # on exit: the report stands on its own
            d = json.load(open(out)) if os.path.exists(out) else None
            if d:
                self.take(name, variant, d, bin_args)
            self.violation(variant, "data race: " + r.err[:3000], command=cmd[1:], **bin_args)
            return
        elif "LeakSanitizer" in r.err and "AddressSanitizer:" not in r.err.replace("SUMMARY: AddressSanitizer:", ""):
            self.violation(variant, "memory leak: " + r.err[:3000], command=cmd[1:], **bin_args)
            return
        else:
            # died: the cases that were running
            log("%s %s ended with %s; tracing" % (name, variant, r.rc))
            tdir = os.path.join(self.scratch, "trace-%s-%s" % (name, variant))
            os.makedirs(tdir, exist_ok=True)
            r2 = run(cmd + ["--trace", tdir], limit * 4 + 120, env=env, mem=mem)
            if r2.rc == 0:
                raise NoAnswer("%s %s ended with %s, but not again: %s" % (name, variant, r.rc, tell))
            tell = (r2.err or r2.out)[-3000:]
            for f in sorted(os.listdir(tdir)):
                x = open(os.path.join(tdir, f)).read().split("\n")[0].split(" ")
                if x and x[0]:
                    suspects.append(x if len(x) > 1 else [x[0], ""])
        seen = False
        for s in suspects:
            kind, hexa = s[0], (s[1] if len(s) > 1 else "")
            f = os.path.join(self.scratch, "case")
            open(f, "w").write(hexa)
            q = run([exe, "replay", kind, "--file", f] + list(extra) + words(), 200, env=env, mem=mem, cpu=90)
            if q.timeout or q.rc not in (0, 2):
                how = "does not end" if q.timeout or q.rc == -signal.SIGXCPU else "ends the process with %s" % q.rc
                self.violation(variant, "%s %s %s: %s" % (kind, hexa[:400], how, (q.err or q.out)[:2000]), kind=kind, input=hexa, **bin_args)
                seen = True
                break
        if not seen:
            raise NoAnswer("%s %s ended with %s: %s" % (name, variant, r.rc, tell))

    # ------------------------------------------------------------------------------------------ interpreted

    def interpreted(self, name, plan, jobs, seconds):
        """jobs: (variant, number of cases). Undefined behaviour ends the interpreter with a report."""
        if self.enough(name, ""):
            return
        shards = []
        total = sum(n for _, n in jobs)
        for v, n in jobs:
            k = max(1, round(3 * CORES * n / total))
            for i in range(k):
                mine = n // k + (1 if i < n % k else 0)
                if mine:
                    shards.append((v, i, k, mine))
        done = {v: 0 for v, _ in jobs}
        tags, samples = {}, []
        deadline = time.time() + seconds

        def one(shard):
            v, i, k, n = shard
            left = deadline - time.time()
            if left < 5:
                return shard, None, 0
            e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, "miri-" + v), **miri_env())
            r = run(["cargo"] + miri_args(v, None) + ["serial", plan, "--seed", str(self.seed), "--n", str(n), "--skip", str(i), "--of", str(k)] + words(), left, env=e, cwd=HARNESS)
            return shard, r, n

        distinct = set()
        for shard, r, n in in_parallel([(lambda s=s: one(s)) for s in shards]):
            if r is None:
                continue
            v = shard[0]
            cases = [l for l in r.out.split("\n") if l.startswith("CASE ")]
            for l in r.out.split("\n"):
                if l.startswith("FAIL "):
                    if "HARNESS" in l:
                        raise NoAnswer(l)
                    _, kind, x, msg = (l.split(" ", 3) + [""] * 3)[:4]
                    self.violation(v, msg, kind=kind, input=x, flavour="miri", extra=words())
                if l.startswith("TAG "):
                    _, c, t = l.split(" ", 2)
                    tags[t] = tags.get(t, 0) + int(c)
            finished = len(cases)
            if r.rc != 0:
                ub = re.search(r"error: (Undefined Behavior|memory leaked|unsupported|abnormal termination|resource exhaustion)[^\n]*", r.err)
                if r.timeout:
                    finished -= 1
                elif ub and ub.group(1) in ("Undefined Behavior", "memory leaked", "abnormal termination"):
                    at = r.err.find(ub.group(0))
                    last = cases[-1].split() if cases else ["CASE", "", ""]
                    leak = ub.group(1) == "memory leaked"
                    self.violation(v, r.err[at:at + 3000], kind="" if leak else last[1], input="" if leak or len(last) < 3 else last[2], flavour="miri",
                                   command=["serial", plan, "--seed", str(self.seed), "--n", str(shard[3]), "--skip", str(shard[1]), "--of", str(shard[2])] + words())
                    finished -= 1
                else:
                    raise NoAnswer("interpreter: " + r.err[-3000:])
            done[v] += max(0, finished)
            distinct.update((v, c) for c in cases)
            if cases and len(samples) < 3:
                samples.append("%s interpreted %s" % (v, cases[len(cases) // 2][5:160]))
        for v in done:
            self.parts["%s %s" % (name, v)] = dict(evaluations=done[v], planned=dict(jobs)[v])
        self.parts["%s, all variants" % name] = dict(observed=tags)
        self.evals += sum(done.values())
        self.distinct += len(distinct)
        self.samples += samples
        log("%s: %s of %s cases interpreted" % (name, done, dict(jobs)))
        if not self.violations and sum(done.values()) < 10:
            raise NoAnswer("the interpreter got through %d cases only" % sum(done.values()))

    # ------------------------------------------------------------------------------------------ properties

    def plain(self):
        exes = in_parallel([(lambda v=v: build_native(v)) for v in VARIANTS])
        log("built")
        for v, x in zip(VARIANTS, exes):
            self.harness("monitors", v, x)

    def c12(self):
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            asan = {v: ex.submit(build_sanitized, v, "address") for v in VARIANTS}
            ready = ex.submit(setup_miri)
            ready.result()
            miri = {v: ex.submit(build_miri, v) for v in VARIANTS}
            asan = {v: f.result() for v, f in asan.items()}
            for f in miri.values():
                f.result()
        log("built")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1", ASAN_SYMBOLIZER_PATH="")
        for v in VARIANTS:
            self.harness("address sanitizer", v, asan[v], scale=100 if self.thorough else 12, limit=700 if self.thorough else 60, mem=None, env=env, flavour="address")
        if self.thorough:
            self.interpreted("interpreter", "memory", [(v, 1200) for v in VARIANTS], 2400)
        else:
            self.interpreted("interpreter", "memory", [("spec", 36), ("subiot", 36), ("wizzilab", 170)], 400)

    def c14(self):
        tsan_for = VARIANTS if self.thorough else ["wizzilab"]
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            nat = {v: ex.submit(build_native, v) for v in VARIANTS}
            ts = {v: ex.submit(build_sanitized, v, "thread") for v in tsan_for}
            nat = {v: f.result() for v, f in nat.items()}
            ts = {v: f.result() for v, f in ts.items()}
        log("built")
        for v in VARIANTS:
            self.harness("histories and threads", v, nat[v], silent=True, limit=400 if self.thorough else 60)
        env = dict(os.environ, TSAN_OPTIONS="halt_on_error=0:exitcode=66:report_bugs=1")
        for v in tsan_for:
            self.harness("thread sanitizer", v, ts[v], scale=30, limit=400 if self.thorough else 60, mem=None, env=env, flavour="thread")
        for v in VARIANTS:
            self.digests(v, nat[v])

    def digests(self, v, exe):
        """The same calls in processes of different history, order, environment, place and time."""
        if self.enough("processes", v):
            return
        n = 6000 if self.thorough else 1500
        shim = os.path.join(self.scratch, "shim.so")
        if not os.path.exists(shim):
            r = run(["cc", "-shared", "-fPIC", "-O1", "-o", shim, os.path.join(HERE, "tools", "shim.c"), "-ldl"], 60)
            if r.rc:
                raise NoAnswer("shim: " + r.err)
        place = os.path.join(self.scratch, "elsewhere")
        os.makedirs(place, exist_ok=True)
        asked = os.path.join(self.scratch, "asked-" + v)
        bare = {"PATH": "/usr/bin:/bin"}
        full = dict(os.environ)
        odd = dict(os.environ, LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8", TZ="Asia/Kathmandu", RUST_LOG="trace", RUST_BACKTRACE="full", DASH7_DEBUG="1", DEBUG="1", HOME="/nonexistent", COLUMNS="10", NO_COLOR="1")
        shimmed = dict(os.environ, LD_PRELOAD=shim, D7_SHIM_LOG=asked)
        runs = [("forward", [], full, None), ("reverse", [], full, None), ("warm", ["--warm", "60000"], full, None), ("threads", [], full, None),
                ("forward", [], bare, place), ("forward", [], odd, "/"), ("forward", [], shimmed, None), ("reverse", [], shimmed, None)]
        step = max(1, n // (400 if self.thorough else 60))
        runs += [("only", ["--only", str(k)], full, None) for k in range(self.seed % step, n, step)]

        def one(i):
            mode, extra, env, cwd = runs[i]
            out = os.path.join(self.scratch, "digest-%s-%d" % (v, i))
            cmd = [exe, "digest", mode, "--seed", str(self.seed), "--n", str(n), "--out", out] + extra + words()
            r = run(cmd, 600, env=env, mem=8 * GB, cwd=cwd)
            if r.rc:
                raise NoAnswer("%s ended with %s: %s" % (cmd, r.rc, r.err[-1000:]))
            return cmd, r, open(out).read().split("\n")

        results = in_parallel([(lambda i=i: one(i)) for i in range(len(runs))])
        base = {l.split(" ", 1)[0]: l for l in results[0][2] if l}
        compared, told = 0, 0
        for (cmd, r, lines), (mode, extra, env, cwd) in zip(results, runs):
            if r.out or r.err:
                self.violation(v, "the library wrote to the standard streams: %r" % (r.out + r.err)[:400], command=cmd[1:], flavour="native")
            for l in lines:
                if not l:
                    continue
                k = l.split(" ", 1)[0]
                compared += 1
                if base[k] != l and told < 3:
                    told += 1
                    what = "another environment, place or time" if env is not full else mode
                    self.violation(v, "a call gives another result in a process with %s: %s instead of %s" % (what, l[:600], base[k][:600]), command=cmd[1:], flavour="native")
        names = sorted(set(open(asked).read().split())) if os.path.exists(asked) else []
        self.parts["processes " + v] = dict(processes=len(runs), results_compared=compared, environment_variables_asked_for=names[:20])
        self.evals += compared
        self.distinct += len(set(base.values()))
        log("processes %s: %d processes, %d results compared" % (v, len(runs), compared))

    def c18(self):
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            nat = {v: ex.submit(build_native, v) for v in VARIANTS}
            cli = {v: ex.submit(build_cli, v) for v in VARIANTS}
            nat = {v: f.result() for v, f in nat.items()}
            cli = {v: f.result() for v, f in cli.items()}
        log("built")
        for v in VARIANTS:
            self.harness("tool", v, nat[v], extra=("--bin", cli[v]))

    def c19(self):
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            nat = {v: ex.submit(build_native, v) for v in VARIANTS}
            ready = ex.submit(setup_miri)  # build scripts run on the host
            big = ex.submit(setup_miri, BIG)
            ready.result(), big.result()
            miri = {v: ex.submit(build_miri, v, BIG) for v in VARIANTS}
            nat = {v: f.result() for v, f in nat.items()}
            for f in miri.values():
                f.result()
        log("built")
        rounds = {v: (10 if self.thorough else (2 if v == "wizzilab" else 1.4)) for v in VARIANTS}
        seconds = 2400 if self.thorough else 400
        deadline = time.time() + seconds
        shards = []
        for v in VARIANTS:
            items = len(run([nat[v], "items"], 20).out.split("\n")) - 1
            n = int(items * rounds[v])
            k = max(1, int(CORES * rounds[v]))
            shards += [(v, i, k, n // k + (1 if i < n % k else 0)) for i in range(k)]

        def one(s):
            v, i, k, n = s
            args = ["portable", "--seed", str(self.seed), "--n", str(n), "--skip", str(i), "--of", str(k)] + words()
            here = run([nat[v]] + args, 60)
            if here.rc:
                raise NoAnswer("native: " + here.err[-800:])
            left = deadline - time.time()
            if left < 5:
                return s, args, here, None
            e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, "miri-" + v), **miri_env())
            return s, args, here, run(["cargo"] + miri_args(v, BIG) + args, left, env=e, cwd=HARNESS)

        for (v, i, k, n), args, here, there in in_parallel([(lambda s=s: one(s)) for s in shards]):
            part = self.parts.setdefault("hosts " + v, dict(results_compared=0, planned=0, items={}))
            part["planned"] += n
            if there is None:
                continue
            if there.rc and not there.timeout:
                raise NoAnswer("big-endian host: " + there.err[-2500:])
            a, b = here.out.split("\n"), there.out.split("\n")
            whole = b[:-1]  # the last line may be cut
            for x, y in zip(a, whole):
                if y == "DONE":
                    break
                part["results_compared"] += 1
                part["items"][x.split(" ")[1]] = part["items"].get(x.split(" ")[1], 0) + 1
                if x != y and len(self.violations) < 5:
                    self.violation(v, "little-endian: %s; big-endian: %s" % (x[:700], y[:700]), command=args, flavour="portable")
            if len(self.samples) < 12 and a:
                self.samples.append("%s %s" % (v, a[0][:300]))
        for v in VARIANTS:
            p = self.parts["hosts " + v]
            self.evals += p["results_compared"]
            self.distinct += p["results_compared"]
            p["items"] = len(p["items"])
        log({k: v["results_compared"] for k, v in self.parts.items()})
        if not self.violations and self.evals < 50:
            raise NoAnswer("only %d results compared" % self.evals)

    def decide(self):
        special = {"C12": self.c12, "C14": self.c14, "C18": self.c18, "C19": self.c19}
        special.get(self.prop, self.plain)()

    def evidence(self):
        m = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}.get(self.prop, {})
        rules = json.load(open(os.path.join(HERE, "tools", "rules.json")))
        d = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level=m.get("level", "exploration"),
            coverage=dict(evaluations=self.evals, distinct_nontrivial=self.distinct, rule=rules[self.prop], samples=self.samples[:14] or ["none"],
                          parts=self.parts, known_findings={k: v[0] for k, v in self.known.items()}),
            assumptions=rules["assumptions"], wall_s=round(time.time() - START, 1), violations=len(self.violations))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)


def main():
    global START
    START = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    try:
        try:
            c.decide()
            err = None
        except NoAnswer as e:
            err = e
        except subprocess.TimeoutExpired as e:
            err = e
        c.evidence()
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    for sig, (n, k) in sorted(c.known.items()):
        print("KNOWN-FINDING: property=%s %s: %s (seen %d times, e.g. %s %s)" % (prop, sig, c.known_listed[sig], n, k["kind"], k["input"][:120]))
    if c.violations:
        for p in c.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (prop, p))
        sys.exit(1)
    if err:
        print("NO ANSWER:", err)
        sys.exit(2)
    log("%s holds on everything explored: %d evaluations" % (prop, c.evals))


if __name__ == "__main__":
    main()
