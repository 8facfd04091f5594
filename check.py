#!/usr/bin/env python3
"""Supervisor of the simulator: builds it against /repo, searches seeds in parallel, confirms and
minimises failures, writes replay files and evidence.

  check.py setup                 build everything
  check.py check ID              run the check of one property (VERIF_TIER, VERIF_SEED)
  check.py replay FILE           run a replay file; exit 1 when it fails as recorded
  check.py selftest [N]          determinism: same seeds, other worker counts and builds
"""
import fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
EVID = os.path.join(VERIF, "evidence")
CORES = os.cpu_count() or 8
TRIPLE = "x86_64-unknown-linux-gnu"


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------------------- builds
# name: (crate, target dir, profile, cross target, rustflags)
VARIANTS = {
    "debug": ("seq", "seq", "dev", False, ""),
    "plain": ("seq", "seq", "plain", False, ""),
    "asan": ("seq", "asan", "plain", True, "-Zsanitizer=address"),
    "conc": ("conc", "conc", "dev", True,
             "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer --cfg ordinal_map_sim"),
}
BIN = {"seq": "dst", "conc": "dstconc"}


def binary(variant):
    crate, tdir, prof, cross, _ = VARIANTS[variant]
    p = os.path.join(TARGET, tdir)
    if cross:
        p = os.path.join(p, TRIPLE)
    return os.path.join(p, {"dev": "debug"}.get(prof, prof), BIN[crate])


def source_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, "dst")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


def build(variants):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = source_hash()
        procs = []
        for v in variants:
            crate, tdir, prof, cross, flags = VARIANTS[v]
            td = os.path.join(TARGET, tdir)
            stamp = os.path.join(td, "stamp-" + v)
            try:
                fresh = open(stamp).read() == want and os.path.exists(binary(v))
            except OSError:
                fresh = False
            if fresh:
                continue
            # Cargo trusts modification times; what is built from /repo is always rebuilt.
            out = os.path.dirname(binary(v))
            fp = os.path.join(out, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if re.match(r"(ordinal|b\d-|dst)", n):
                        shutil.rmtree(os.path.join(fp, n))
            hostfp = os.path.join(td, {"dev": "debug"}.get(prof, prof), ".fingerprint")
            if cross and os.path.isdir(hostfp):
                for n in os.listdir(hostfp):
                    if re.match(r"(ordinal|dst)", n):
                        shutil.rmtree(os.path.join(hostfp, n))
            cmd = ["cargo", "+nightly", "build", "--offline", "--quiet", "--target-dir", td, "--profile", prof]
            if cross:
                cmd += ["--target", TRIPLE]
            env = dict(os.environ)
            for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
                env.pop(k, None)
            if flags:
                env["RUSTFLAGS"] = flags
            env["CARGO_TERM_COLOR"] = "never"
            procs.append((v, stamp, cmd, env, os.path.join(VERIF, "dst", crate)))
        for v, stamp, cmd, env, cwd in procs:
            if os.path.exists(stamp):
                os.remove(stamp)
            t0 = time.time()
            r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0 and "--cfg ordinal_map_sim" in env.get("RUSTFLAGS", ""):
                # The hook in /repo no longer fits the code around it: simulate without it.
                env["RUSTFLAGS"] = env["RUSTFLAGS"].replace("--cfg ordinal_map_sim", "").strip()
                print("built %s without the hook:\n%s" % (v, r.stdout[-1500:]), flush=True)
                r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0 or not os.path.exists(binary(v)):
                raise HarnessError("building %s failed:\n%s" % (v, r.stdout[-6000:]))
            with open(stamp, "w") as f:
                f.write(want)
            print("built %s in %.0f s" % (v, time.time() - t0), flush=True)


# ------------------------------------------------------------------------------- properties
class P:
    def __init__(self, parts, fixed, thorough, stub):
        # parts: (variant, share of the cores, runs of the quick tier)
        self.parts = parts
        self.fixed = fixed
        self.thorough = thorough  # multiple of the quick tier's runs
        self.stub = stub


SEQ_STUB = ("real: the whole ordinal-map crate and derive macro as in /repo, every container type and iterator over "
            "~50 key types; stub: key, value, callback, source-iterator and writer code (instrumented, failing on "
            "demand) and the global allocator's decision to fail; models: plain vectors")
CONC_STUB = ("real: the ordinal-map crate as in /repo, its machine code with every atomic and memory access routed to "
             "the simulator; stub: thread scheduling, the memory system (per-location histories of the atomics), "
             "key conversion code")
PROPS = {}


def seqp(pid, debug, plain, extra=()):
    parts = [("debug", 6, debug), ("plain", 2, plain)] + list(extra)
    PROPS[pid] = P(parts, None, 40, SEQ_STUB)


seqp("C04", 150000, 50000)
seqp("C05", 60000, 20000)
seqp("C06", 240000, 80000)
seqp("C07", 54000, 18000)
seqp("C08", 110000, 30000, [("asan", 2, 12000)])
seqp("C09", 108000, 36000)
seqp("C10", 144000, 48000)
PROPS["C12"] = P([("debug", 2, 60000), ("plain", 1, 36000), ("asan", 5, 18000)], None, 40, SEQ_STUB)
seqp("C13", 72000, 24000)
seqp("C14", 4000000, 1000000)
for _p, _n in (("C01", 900000), ("C02", 1100000), ("C03", 900000), ("C11", 500000)):
    PROPS[_p] = P([("conc", 8, _n)], None, 40, CONC_STUB)

QUICK_CAP = 200    # seconds per part; the counts above take far less here
THOROUGH_CAP = 2400
HANG = 60
BASE = {"debug": 0, "plain": 1 << 40, "asan": 1 << 41, "conc": 0}


def env_for(variant):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:color=never:symbolize=0"
    env["RUST_BACKTRACE"] = "0"
    return env


def read_progress(path):
    try:
        with open(path, "rb") as f:
            b = f.read(8)
        return struct.unpack("<Q", b)[0] if len(b) == 8 else 0
    except OSError:
        return 0


class Worker:
    def __init__(self, pid, variant, seed, start, end, stride, secs, out):
        self.__dict__.update(locals())
        self.cmd = [binary(variant), "run", "--prop", pid, "--seed", str(seed), "--start", str(start), "--end", str(end),
                    "--stride", str(stride), "--secs", str(secs), "--out", out]
        self.err = open(out + ".err", "wb")
        self.p = subprocess.Popen(self.cmd, stdout=self.err, stderr=self.err, stdin=subprocess.DEVNULL, env=env_for(variant))
        self.last = (None, time.time())
        self.state = None

    def poll(self):
        if self.state is not None:
            return True
        rc = self.p.poll()
        cur = read_progress(self.out + ".progress")
        if rc is None:
            if cur != self.last[0]:
                self.last = (cur, time.time())
            elif time.time() - self.last[1] > HANG and cur != 2**64 - 1:
                self.p.kill()
                self.p.wait()
                self.state = ("hang", cur - 1)
                return True
            return False
        if rc == 0 and os.path.exists(self.out + ".summary"):
            self.state = ("done", None)
        elif cur in (0, 2**64 - 1):
            tail = open(self.out + ".err", "rb").read()[-2000:].decode("utf8", "replace")
            self.state = ("broken", "exit %s\n%s" % (rc, tail))
        else:
            self.state = ("crash", cur - 1)
        return True


def gen(variant, pid, seed, index):
    r = subprocess.run([binary(variant), "gen", "--prop", pid, "--seed", str(seed), "--index", str(index)],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env_for(variant))
    if r.returncode != 0:
        raise HarnessError("gen failed")
    return r.stdout


def run_exec(variant, pid, path, hang=HANG):
    """-> (class or '', message, hash, trace lines, sched line)"""
    try:
        r = subprocess.run([binary(variant), "exec", "--prop", pid, "--file", path, "--sched", "1"], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env_for(variant), timeout=hang)
    except subprocess.TimeoutExpired:
        return ("hang", "did not end within %d s" % hang, "", [], "")
    out = r.stdout.decode("utf8", "replace").splitlines()
    tr = [l[6:] for l in out if l.startswith("trace ")]
    if r.returncode != 0:
        err = r.stderr.decode("utf8", "replace")
        m = re.search(r"(ERROR: \S+Sanitizer: [^\n]*)", err)
        how = m.group(1) if m else "process ended with status %d: %s" % (r.returncode, err.strip()[-300:])
        return ("crash", re.sub(r"0x[0-9a-f]+|==\d+==|\(pc.*", "", how), "", tr, "")
    viols = [l[5:] for l in out if l.startswith("VIOL ")]
    h = next((l for l in out if l.startswith("HASH ")), "HASH ?")
    sched = next((l for l in out if l.startswith("sched ")), "")
    if viols:
        c, _, m = viols[0].partition(" ")
        return (c, m, h, tr, sched)
    return ("", "", h, tr, sched)


def write_replay(pid, d):
    os.makedirs(REPLAYS, exist_ok=True)
    name = "%s-%s-%d-%d.json" % (pid, d["variant"], d["seed"], d["index"])
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    return path


def report(pid, variant, seed, kind, index, plan_text, work, worker=None, minimise_secs=40):
    """Confirm, minimise and record a failure; returns the replay path or None if it does not come back."""
    f = os.path.join(work, "fail.plan")
    with open(f, "w") as fh:
        fh.write(plan_text)
    a = run_exec(variant, pid, f)
    if kind == "hang" and not a[0]:
        return None
    base = {"property": pid, "variant": variant, "seed": seed, "index": index}
    if not a[0]:
        # Depends on what ran before in the same process: the replay is the whole sequence.
        if worker is None:
            return None
        d = dict(base, range=[worker.start, index + 1, worker.stride], **{"class": kind})
        ok = replay_range(d, work)
        if not ok:
            return None
        d["message"] = "only after the preceding runs in the same process: " + ok
        return write_replay(pid, d)
    b = run_exec(variant, pid, f)
    if (a[0], a[2]) != (b[0], b[2]):
        raise HarnessError("run %d of %s is not reproducible: %r / %r" % (index, pid, a[:3], b[:3]))
    cls = a[0]
    m = os.path.join(work, "min.plan")
    # The schedule that led here is part of the plan for the threaded worlds.
    try:
        subprocess.run([binary(variant), "min", "--prop", pid, "--file", f, "--class", cls, "--out", m,
                        "--secs", str(minimise_secs), "--hang", "20"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                       env=env_for(variant), timeout=minimise_secs + 120)
    except subprocess.TimeoutExpired:
        pass
    best, res = plan_text, a
    if os.path.exists(m):
        c = run_exec(variant, pid, m)
        if c[0] == cls:
            best, res = open(m).read(), c
    d = dict(base)
    d.update({"class": res[0], "message": res[1], "hash": res[2], "plan": best.splitlines(), "trace": res[3][-400:]})
    return write_replay(pid, d)


def replay_range(d, work):
    out = os.path.join(work, "range")
    for x in (".summary", ".progress"):
        if os.path.exists(out + x):
            os.remove(out + x)
    s, e, st = d["range"]
    w = Worker(d["property"], d["variant"], d["seed"], s, e, st, 3600, out)
    while not w.poll():
        time.sleep(0.05)
    if w.state[0] in ("crash", "hang"):
        return w.state[0] if w.state[0] == d["class"] else None
    if w.state[0] == "done":
        m = re.search(r"^FAIL (\d+) (\S+) (.*)$", open(out + ".summary").read(), re.M)
        if m and int(m.group(1)) == d["index"]:
            return m.group(2) + " " + m.group(3)
    return None


def known_findings(pid):
    """Entries 'finding: property=<id> class=<class> regex=<regex> :: <what fails>'."""
    res = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) class=(\S+) regex=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except OSError:
        pass
    return res


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[pid]
    parts = spec.parts
    scale = spec.thorough if tier == "thorough" else 1
    cap = THOROUGH_CAP if tier == "thorough" else QUICK_CAP
    build([v for v, _, _ in parts])
    print("VERIF_SEED=%d tier=%s property=%s" % (seed, tier, pid), flush=True)
    work = os.path.join(TARGET, "work", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    t1 = time.time()
    workers = []
    for v, n, count in parts:
        n = max(1, n * CORES // 8)
        for i in range(n):
            b = BASE[v]
            workers.append(Worker(pid, v, seed, b + i, b + count * scale, n, cap, os.path.join(work, "%s.%d" % (v, i))))
    try:
        while not all([w.poll() for w in workers]):
            time.sleep(0.05)
    finally:
        for w in workers:
            if w.p.poll() is None:
                w.p.kill()
    search_s = time.time() - t1
    broken = [w for w in workers if w.state[0] == "broken"]
    if broken:
        raise HarnessError("a worker failed: %s" % broken[0].state[1])
    # failures, the lowest index of each build first
    fails = []
    tot = dict(runs=0, steps=0, foreign=0, nontrivial=0, ops=0, time=0)
    faults, extra, per = {}, {}, {}
    sets = {"hashes": [], "states": [], "plans": []}
    digest = 0
    for w in workers:
        if w.state[0] != "done":
            fails.append((w.variant, w.state[1], w.state[0], gen(w.variant, pid, seed, w.state[1]), w, ""))
            continue
        for l in open(w.out + ".summary"):
            f = l.rstrip("\n").split(" ", 3)
            if f[0] == "FAIL":
                fails.append((w.variant, int(f[1]), f[2], open("%s.fail.%s" % (w.out, f[1])).read(), w, f[3] if len(f) > 3 else ""))
            elif f[0] == "FAULT":
                faults[f[1]] = faults.get(f[1], 0) + int(f[2])
            elif f[0] == "EXTRA":
                extra[f[1]] = extra.get(f[1], 0) + int(f[2])
            elif f[0] == "SUMMARY":
                kv = dict(x.split("=") for x in l.split()[1:])
                for k in tot:
                    tot[k] += int(kv[k])
                digest = (digest + int(kv["digest"], 16)) % 2**64
                x = per.setdefault(w.variant, {"runs": 0, "cpu_s": 0.0})
                x["runs"] += int(kv["runs"])
                x["cpu_s"] = round(x["cpu_s"] + float(kv["secs"]), 1)
        for k in sets:
            sets[k].append("%s.%s" % (w.out, k))
    for k, files in sets.items():
        r = subprocess.run([binary(parts[0][0]), "union"] + files, stdout=subprocess.PIPE, env=env_for(parts[0][0]))
        if r.returncode != 0:
            raise HarnessError("counting %s failed" % k)
        sets[k] = int(r.stdout)
    known = known_findings(pid)
    printed = set()
    violations = 0
    order = {v: i for i, (v, _, _) in enumerate(parts)}
    fails.sort(key=lambda x: (order[x[0]], x[1]))
    unconfirmed = []
    for v, idx, kind, plan, w, msg in fails:
        hit = next((k for k in known if k[0] == kind and k[1].search(msg)), None)
        if hit:
            if hit not in printed:
                printed.add(hit)
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[2]), flush=True)
            continue
        if violations:
            violations += 1
            continue
        path = report(pid, v, seed, kind, idx, plan, work, w)
        if path is None:
            unconfirmed.append((v, idx, kind))
            continue
        d = json.load(open(path))
        violations += 1
        print("run %d of build %s: %s: %s" % (idx, v, d["class"], d["message"]))
        for l in d.get("plan", [])[:40]:
            print("  " + l[:200])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    samples = []
    for v in [parts[0][0]]:
        for i in range(3):
            samples.append({"build": v, "seed": seed, "index": BASE[v] + i,
                            "plan": [x[:160] for x in gen(v, pid, seed, BASE[v] + i).splitlines()[:14]]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": sets["hashes"],
            "rule": "one evaluation is one simulated run, a pure function of (VERIF_SEED, property, index); non-trivial: more "
                    "than one operation or a fault fired; distinct: its hash over the complete event log differs from all others'",
            "distinct_plans": sets["plans"],
            "distinct_states": sets["states"],
            "state_measure": STATE_MEASURE.get(pid, STATE_MEASURE[""]),
            "operations": tot["ops"],
            "simulator_events": tot["steps"],
            "simulated_time": tot["time"],
            "simulated_time_unit": "scheduler steps of threaded worlds (the library reads no clock)",
            "faults_injected": {k: n for k, n in sorted(faults.items()) if n},
            "fault_kinds_never_fired": sorted(k for k in WANT_FAULTS[pid] if not faults.get(k)),
            "probes": extra,
            "builds": per,
            "runs_per_hour": int(tot["runs"] / max(search_s, 0.001) * 3600),
            "run_log_digest": "%016x" % digest,
            "components": spec.stub,
            "unconfirmed": unconfirmed[:20],
            "samples": samples,
        },
        "assumptions": ASSUME.get(pid, ASSUME[""]),
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if violations:
        return 1
    if unconfirmed:
        if any(k != "hang" for _, _, k in unconfirmed):
            raise HarnessError("failures that do not come back: %r" % unconfirmed[:5])
        print("note: %d slow runs were not hangs" % len(unconfirmed))
    print("OK property=%s runs=%d distinct=%d states=%d search=%.1fs total=%.1fs" %
          (pid, tot["runs"], sets["hashes"], sets["states"], search_s, time.time() - t0), flush=True)
    return 0


CONC_STATE = ("hash of (memory histories, every thread's view of memory, its operation, position and status, the running "
              "thread) taken at context switches and ends of operations")
STATE_MEASURE = {
    "": "hash of (operation, fault kind and its call number, element count, container count, abstract contents)",
    "C01": CONC_STATE,
    "C02": CONC_STATE,
    "C03": CONC_STATE,
    "C11": CONC_STATE,
}
KEYF = ["key_encode_panic", "key_decode_panic"]
FMTF = ["element_format_error", "element_format_panic"]
VALF = ["clone_panic", "default_panic", "destructor_panic"]
SRCF = ["source_panic", "source_early_end"]
ITERF = ["iterator_abandoned", "iterator_forgotten"]
OUTF = ["writer_error", "allocation_failure"]
CBF = ["closure_panic", "closure_error"]
WANT_FAULTS = {
    "C01": KEYF + FMTF + ["thread_stopped", "preemption_inside_operation", "reentrant_call", "spurious_weak_failure"],
    "C02": ["stale_read", "preemption_inside_operation", "spurious_weak_failure"],
    "C03": KEYF + ["thread_stopped", "preemption_inside_operation", "reentrant_call", "spurious_weak_failure"],
    "C04": KEYF + FMTF + SRCF + ITERF + OUTF + ["clone_panic", "destructor_panic", "closure_panic"],
    "C05": KEYF + FMTF + VALF + CBF + ITERF + OUTF,
    "C06": KEYF + FMTF + SRCF + ITERF + OUTF,
    "C07": KEYF + ITERF + ["clone_panic", "destructor_panic"],
    "C08": KEYF + FMTF + SRCF + ITERF + OUTF + VALF + CBF,
    "C09": KEYF + SRCF + VALF + CBF + ["allocation_failure"],
    "C10": ["allocation_failure", "allocator_outage"],
    "C11": KEYF + FMTF + ["clone_panic", "preemption_inside_operation"],
    "C12": ["misbehaving_key", "iterator_abandoned"],
    "C13": KEYF + FMTF + ["writer_error", "iterator_abandoned"],
    "C14": KEYF + ["allocation_failure", "iterator_abandoned"],
}
MEMORY = ("memory orderings are simulated by an operational model (per-location histories, views, SC accesses weaker than "
          "fences) that never shows load buffering or out-of-thin-air values")
LIN = ["sampled, not exhaustive", "the compiler's thread-sanitizer instrumentation reports every memory access of library code",
       "code built by the nightly toolchain at opt-level 1 behaves as the shipped build"]
ASSUME = {
    "": ["sampled, not exhaustive", "the reference models in dst/core are right",
         "code built by the nightly toolchain at opt-level 1 behaves as the shipped build"],
    "C01": LIN,
    "C02": LIN + [MEMORY],
    "C03": LIN + ["an operation that ends does so within the step budget, which is far above what any operation needs"],
    "C11": LIN,
}


def replay(path):
    d = json.load(open(path))
    pid, v = d["property"], d["variant"]
    build([v])
    work = os.path.join(TARGET, "work", "replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        if "range" in d:
            r = replay_range(d, work)
            if r:
                print("reproduced: %s" % r)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
            print("did not fail")
            return 0
        f = os.path.join(work, "plan")
        with open(f, "w") as fh:
            fh.write("\n".join(d["plan"]) + "\n")
        c, m, h, tr, _ = run_exec(v, pid, f, HANG)
        for l in tr:
            print("  " + l[:300])
        if c == d["class"]:
            same = h == d.get("hash") and m == d.get("message")
            print("%s: %s" % (c, m))
            print("reproduced %s" % ("exactly" if same or c in ("crash", "hang") else "with another event log (the code differs)"))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("did not fail as recorded (now: %s %s)" % (c or "no violation", m))
        return 1 if c else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def selftest(n):
    """Same seeds at several worker counts, each twice, and in other processes: same event logs."""
    build(sorted(VARIANTS))
    bad = 0
    work = os.path.join(TARGET, "work", "selftest")
    for pid, spec in sorted(PROPS.items()):
        vs = [v for v, _, _ in spec.parts]
        base = 0
        res = {}
        for v in vs:
            for wn in (1, 3, 8) if v != "asan" else (8,):
                for rep in range(2 if v != "asan" else 1):
                    shutil.rmtree(work, ignore_errors=True)
                    os.makedirs(work)
                    ws = [Worker(pid, v, 99, base + i, base + n, wn, 3600, os.path.join(work, "%d" % i)) for i in range(wn)]
                    while not all([w.poll() for w in ws]):
                        time.sleep(0.02)
                    dg = 0
                    for w in ws:
                        if w.state[0] != "done":
                            print("%s %s: worker %r" % (pid, v, w.state))
                            bad += 1
                            continue
                        m = re.search(r"digest=(\w+)", open(w.out + ".summary").read())
                        dg = (dg + int(m.group(1), 16)) % 2**64
                    res.setdefault("%016x" % dg, []).append("%s/%d" % (v, wn))
        print(pid, "same" if len(res) == 1 else "DIFFERENT %r" % res, next(iter(res)), flush=True)
        bad += len(res) != 1
    shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["setup"]:
            build([v for v in VARIANTS if os.path.isdir(os.path.join(VERIF, "dst", VARIANTS[v][0], "src"))])
            return 0
        if a[:1] == ["check"]:
            return check(a[1])
        if a[:1] == ["replay"]:
            return replay(a[1])
        if a[:1] == ["selftest"]:
            return selftest(int(a[1]) if len(a) > 1 else 400)
        print(__doc__)
        return 2
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e, flush=True)
        return 2


sys.exit(main())
