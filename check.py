#!/usr/bin/env python3
"""check.py <property> : builds what the property needs from /repo's working tree, runs its monitored workloads and gives a verdict.

Exit 0: held on everything observed. Exit 1 with `VIOLATION property=<id> replay=<path>`: broken. Exit 2: the machinery could not decide.
check.py --replay <file> : runs the failing case of a replay file again.
"""
import array, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
import specs

KNOWN = os.path.join(VERIF, "known_findings.txt")
NCPU = os.cpu_count() or 8
MB = 1 << 20


class Outcome:
    def __init__(self):
        self.kind = "ok"  # ok, violation, broken, stopped
        self.key = self.detail = self.crumb = ""
        self.result = {}
        self.lines = []
        self.distinct = {}


def san_key(err):
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)(?: (\S+))?", err)
    if m:
        return "%s:%s" % (m.group(1), m.group(2))
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "UBSan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:60].replace(" ", "_")
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", err)
    if m:
        return "uncaught:" + m.group(1)
    m = re.search(r"Assertion '.*' failed", err)
    if m:
        return "assertion"
    return None


class Runner:
    def __init__(self, bins, scratch):
        self.bins, self.scratch = bins, scratch
        self.stop = threading.Event()
        self.n = 0
        self.lock = threading.Lock()
        self.procs = set()

    def argv(self, job):
        return job.wrap + [self.bins[job.bin]] + job.args

    def once(self, job, patience):
        with self.lock:
            self.n += 1
            base = os.path.join(self.scratch, "j%d" % self.n)
        crumb, dist = base + ".crumb", base + ".d"
        argv = self.argv(job) + ["--crumb", crumb, "--distinct", dist]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=3500:handle_abort=0:exitcode=77",
                   UBSAN_OPTIONS="print_stacktrace=1:exitcode=77", TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1:suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"))

        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if job.mem:
                resource.setrlimit(resource.RLIMIT_AS, (job.mem * MB, job.mem * MB))
        out, err = open(base + ".out", "w+b"), open(base + ".err", "w+b")
        p = subprocess.Popen(argv, stdout=out, stderr=err, stdin=subprocess.DEVNULL, env=env, preexec_fn=limits, cwd=self.scratch, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        last, since, t0, stalled, cpu0 = None, time.time(), time.time(), False, 0.0
        while True:
            try:
                p.wait(0.05 if time.time() - t0 < 2 else 0.3)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                with open(crumb, "rb") as f:
                    now = f.read(8)
            except OSError:
                now = b""
            if now != last:
                last, since = now, time.time()
            if time.time() - since > patience or self.stop.is_set():
                stalled = not self.stop.is_set()
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        with self.lock:
            self.procs.discard(p)
        o = Outcome()
        for f in (out, err):
            f.seek(0)
        o.lines = out.read().decode("utf8", "replace").split("\n")
        et = err.read(400000).decode("utf8", "replace")
        out.close(), err.close()
        try:
            o.crumb = open(crumb, "rb").read()[8:].split(b"\0")[0].decode("utf8", "replace")
        except OSError:
            pass
        fail = [l for l in o.lines if l.startswith("FAIL {")]
        res = [l for l in o.lines if l.startswith("RESULT {")]
        brk = [l for l in o.lines if l.startswith("BROKEN")]
        if self.stop.is_set() and p.returncode and not fail:
            o.kind = "stopped"
        elif stalled:
            o.kind, o.key, o.detail = "stall", "hang:" + job.args[0], "no progress for %d s (the process was ended)" % patience
        elif fail:
            d = json.loads(fail[0][5:])
            o.kind, o.key, o.detail, o.crumb = "violation", d["key"], d["detail"], d["crumb"] or o.crumb
        elif brk:
            o.kind, o.detail = "broken", brk[0]
        elif p.returncode == 0 and res:
            o.result = json.loads(res[0][7:])
            for f in glob.glob(dist + ".*"):
                a = array.array("Q")
                a.frombytes(open(f, "rb").read())
                o.distinct[f[len(dist) + 1:]] = a
        elif "unexpected memory mapping" in et or "failed to intercept" in et or "Shadow memory range interleaves" in et or "ReserveShadowMemoryRange failed" in et:
            o.kind, o.detail = "broken", et[-2000:]
        elif "qemu" in " ".join(job.wrap) and re.search(r"qemu-x86_64: (unable|Could not|error|warning: TCG doesn)", et) and p.returncode in (1, 255):
            o.kind, o.detail = "broken", et[-2000:]
        else:
            k = san_key(et)
            if not k:
                k = "signal:%d" % -p.returncode if p.returncode < 0 else "exit:%d" % p.returncode
            if p.returncode == -signal.SIGKILL:
                o.kind, o.detail = "killed", "the process was ended from outside (memory?)"
            else:
                o.kind = "violation"
            m = re.search(r"type=(\S+)", o.crumb)
            o.key = "crash:%s:%s%s" % (job.args[0], k, ":" + m.group(1) if m else "")
            o.detail = (o.detail + " " + et[:6000]).strip() or "ended with status %d without a result" % p.returncode
        for f in glob.glob(base + ".*"):
            os.unlink(f)
        return o

    def run(self, job):
        if self.stop.is_set():
            o = Outcome()
            o.kind = "stopped"
            return job, o
        o = self.once(job, job.patience)
        if o.kind in ("stall", "killed"):  # a loaded machine looks the same: once more, with more patience
            first = o
            o = self.once(job, 2 * job.patience)
            if o.kind == "stall":
                o.kind = "violation" if o.crumb == first.crumb else "broken"
                o.detail += "; twice at the same case" if o.kind == "violation" else "; at another case than before"
            elif o.kind == "killed":
                o.kind = "broken"
        elif o.kind == "broken" and job.bin.startswith(("ssz-tsan", "kern-tsan")) and shutil.which("setarch"):
            job.wrap = ["setarch", "-R"] + job.wrap
            o = self.once(job, job.patience)
        if o.kind == "violation":
            self.stop.set()
        return job, o


def known(prop):
    """finding: property=C01 key=<regex> crumb=<regex> text"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+)(?: crumb=(\S+))? (.*)", l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), re.compile(m.group(3) or ""), m.group(4)))
    return out


def write_replay(prop, seed, tier, job, o):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256((o.key + o.crumb).encode()).hexdigest()[:12]))
    json.dump({"property": prop, "seed": seed, "tier": tier, "binary": job.bin, "wrapper": job.wrap, "args": job.args, "mem": job.mem, "key": o.key, "detail": o.detail, "case": o.crumb,
               "how": "python3 check.py --replay " + os.path.relpath(p, VERIF)}, open(p, "w"), indent=1)
    return p


def merge(total, res):
    for k, v in res.items():
        if k == "samples" or k.startswith("distinct_"):
            continue
        total[k] = max(total.get(k, 0), v) if k.startswith(("max_", "impl_", "preset_", "reported_")) else total.get(k, 0) + v


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = specs.SPECS[prop]
    t0 = time.time()
    jobs = spec.jobs(tier, seed)
    try:
        bins = build.build(sorted({j.bin for j in jobs}))
    except build.BuildError as e:
        print("cannot build:", e)
        return 2
    jobs = [j for j in jobs if j.bin in bins]
    tb = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=build.OUT)
    total, samples, distinct, violations, broken, done = {}, [], {}, [], [], []
    try:
        r = Runner(bins, scratch)
        with ThreadPoolExecutor(NCPU) as pool:
            for job, o in pool.map(r.run, jobs):
                if o.kind == "violation":
                    violations.append((job, o))
                elif o.kind == "broken":
                    broken.append((job, o))
                elif o.kind == "ok":
                    done.append((job, o))
                    merge(total, o.result)
                    samples += [s for s in o.result.get("samples", []) if s not in samples and len(samples) < 40]
                    for k, a in o.distinct.items():
                        distinct.setdefault(k, set()).update(a)
        if not violations and not broken and spec.after:
            v = spec.after(done, total, samples)
            if v:
                job, o = v[0], Outcome()
                o.kind, o.key, o.detail = "violation", v[1], v[2]
                violations.append((job, o))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    findings = known(prop)
    rc, reported = 0, set()
    for job, o in violations:
        f = [t for k, c, t in findings if k.fullmatch(o.key) and c.search(o.crumb)]
        if f:
            print("KNOWN-FINDING: property=%s %s" % (prop, f[0]))
            continue
        rc = 1
        if o.key in reported:
            continue
        reported.add(o.key)
        p = write_replay(prop, seed, tier, job, o)
        print("%s\n  key %s\n  case %s" % (o.detail[:3000], o.key, o.crumb[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
    evals = sum(total.get(k, 0) for k in spec.evals)
    nd = sum(len(distinct.get(k, ())) for k in spec.distinct) + sum(total.get(k, 0) for k in spec.distinct_counts)
    cov = {"evaluations": evals, "distinct_nontrivial": nd, "rule": spec.rule, "samples": samples[:: max(1, len(samples) // 8)][:10] or ["none"], "observed": dict(sorted(total.items())),
           "distinct": {k: len(v) for k, v in sorted(distinct.items())}, "processes": len(done), "builds": sorted({j.bin for j in jobs}), "build_s": round(tb - t0, 1)}
    cov["counters_summed"] = {"evaluations": spec.evals, "distinct_nontrivial": spec.distinct + spec.distinct_counts}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": spec.assume, "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)
    if rc:
        return rc
    if broken:
        for job, o in broken[:3]:
            print("inconclusive: %s %s: %s" % (job.bin, " ".join(job.args), o.detail[:1500]))
        return 2
    missing = [k for k in spec.need if not total.get(k)]
    if evals == 0 or nd < 1 or missing:
        print("inconclusive: the monitors observed too little (%d evaluations, missing %s)" % (evals, missing))
        return 2
    print("%s held: %d evaluations, %d distinct, %d processes, %.0f s (build %.0f s)" % (prop, evals, nd, len(done), time.time() - t0, tb - t0))
    return 0


def replay(path):
    d = json.load(open(path))
    bins = build.build([d["binary"]])
    job = specs.Job(d["binary"], d["args"], wrap=d["wrapper"], mem=d["mem"])
    print(" ".join(job.wrap + [bins[job.bin]] + job.args))
    scratch = tempfile.mkdtemp(prefix="verif-replay-", dir=build.OUT)
    try:
        _, o = Runner(bins, scratch).run(job)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(o.kind, o.key, o.detail, o.crumb, sep="\n")
    return 1 if o.kind == "violation" else 0


if __name__ == "__main__":
    sys.exit(main())
