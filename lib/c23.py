"""C23: the probe's operations under other histories, buffers and threads, plain
and under ThreadSanitizer (and, thorough, under Miri's race detector)."""
import concurrent.futures, json, os, re, time
import core, c22

PROBE = c22.PROBE
MAXLEN = 3000


def build(kind):
    d = os.path.join(core.TARGET, "c23", kind)
    e = core.env(CARGO_TARGET_DIR=d)
    args = ["+nightly", "build", "--offline", "--bin", "probe", "--release", "--features", "std,heapless"]
    b = os.path.join(d, "release", "probe")
    if kind == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread"
        args += ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"]
        b = os.path.join(d, "x86_64-unknown-linux-gnu", "release", "probe")
    r = core.cargo(args, PROBE, envs=e)
    if r.returncode:
        raise core.Inconclusive(f"the probe does not build ({kind}): " + r.stderr[-2500:])
    return b


class Run:
    """One history; deviations and observations are added to the result."""

    def __init__(self, prop, res):
        self.prop, self.res, self.bad = prop, res, {}
        self.first, self.later = {}, []
        self.its = None

    def one(self, b, corpus, ref, mode, seed, *args, tsan=False, limit=240):
        e = core.env()
        if tsan:
            e["TSAN_OPTIONS"] = "exitcode=66 halt_on_error=0 history_size=4 report_signal_unsafe=0"
        cmd = [b, "history", corpus, mode, ref, str(seed)] + [str(a) for a in args]
        import subprocess
        for attempt in range(2):
            try:
                r = core.run(cmd, timeout=limit, env=e)
                break
            except subprocess.TimeoutExpired:
                r = None
        tag = f"{mode}{'-tsan' if tsan else ''} seed {seed} args {args}"
        if r is None:
            return self.found(mode, 0, f"{tag}: not finished after {limit} s, twice", {"cmd": cmd[1:]})
        if "WARNING: ThreadSanitizer" in r.stderr:
            k = r.stderr.find("WARNING: ThreadSanitizer")
            return self.found(mode, 0, f"{tag}: {r.stderr[k:k + 2500]}", {"cmd": cmd[1:]})
        if "FATAL: ThreadSanitizer" in r.stderr:
            raise core.Inconclusive("ThreadSanitizer cannot run: " + r.stderr[-400:])
        diffs = [l for l in r.stdout.splitlines() if l.startswith("DIFF ")]
        for l in diffs[:2]:
            _, i, what = l.split(" ", 2)
            it = c22.show_item(self.its[int(i)]) if mode not in ("traits", "repeat") else ""
            self.found(mode, int(i), f"{what} ({tag}): {it}", {"cmd": cmd[1:]})
        if diffs:
            return
        m = re.search(r"^SEEN (.*)$", r.stdout, re.M)
        if r.returncode < 0:
            return self.found(mode, 0, f"{tag}: the process died with signal {-r.returncode}: {r.stderr[-800:]}", {"cmd": cmd[1:]})
        if r.returncode or not m:
            raise core.Inconclusive(f"{tag}: exit {r.returncode}: {r.stderr[-800:]}")
        self.seen(r.stdout)
        for k, v in json.loads(m.group(1)).items():
            k = k + ("_under_tsan" if tsan else "")
            self.res.counters[k] = self.res.counters.get(k, 0) + v
            if k.startswith("results_compared"):
                self.res.evaluations += v
        w = self.res.workloads.setdefault(mode + ("-tsan" if tsan else ""), {"run": 0, "total": 0})
        w["run"] += 1
        w["total"] += 1

    def seen(self, out):
        """Results of repeated calls and of calls after them."""
        for l in out.splitlines():
            f = l.split(" ", 3)
            if f[0] == "FIRST":
                self.first[int(f[1])] = f[2]
                me = f[3]
            elif f[0] == "LATER":
                self.later.append((int(f[1]), f[2], f[3], me))

    def compare(self):
        for k, h, name, after in self.later:
            self.res.evaluations += 1
            if k in self.first and self.first[k] != h:
                self.found("repeat", 0, f"{name} gives {h} after many calls of {after!r}, {self.first[k]} as the first call of a process", {})
        self.res.counters["calls_after_many_repetitions"] = len(self.later)

    def found(self, mode, i, msg, extra):
        n = self.bad[mode] = self.bad.get(mode, 0) + 1
        if n <= 2:
            extra = dict(extra, stage="c23")
            self.res.violations.append(core.Found(msg, core.save_replay(self.prop, mode, i, msg, extra)))


def stage(prop, res, dic):
    quick = core.TIER == "quick"
    ex = concurrent.futures.ThreadPoolExecutor(8)
    tsan = ex.submit(build, "tsan")
    plain = ex.submit(build, "plain")
    mon = core.build_harness()
    path = c22.corpus(mon, dic, 8)
    ref = path + ".ref"
    try:
        run = Run(prop, res)
        run.its = c22.items(path)
        b = plain.result()
        import subprocess
        r = core.run([b, "history", path, "reference", str(MAXLEN)], timeout=300)
        if r.returncode:
            raise core.Inconclusive(f"the reference run failed ({r.returncode}): " + r.stderr[-800:])
        open(ref, "w").write(r.stdout)
        lines = {l.split(" ", 1)[1] for l in r.stdout.splitlines() if not l.startswith("max")}
        res.distinct += len(lines)
        fs = []
        s0 = core.SEED * 1000
        jobs = [("traits", 0), ("reverse", 0)]
        jobs += [("shuffle", s0 + k) for k in range(2 if quick else 24)]
        jobs += [(m, s0 + k) for m in ("unwind", "nested") for k in range(1 if quick else 12)]
        jobs += [("reuse", s0 + k) for k in range(2 if quick else 24)]
        jobs += [("solo", s0 + k, k) for k in range(60 if quick else 1500)]
        calls = int(re.search(r"const CALLS.*?^};", open(os.path.join(PROBE, "src", "history.rs")).read(), re.S | re.M).group(0).count("\n        (\""))
        fs = [ex.submit(run.one, b, path, ref, *j) for j in jobs]
        fs += [ex.submit(run.one, b, path, ref, "repeat", s0, k, 150_000 if quick else 20_000_000, limit=240 if quick else 1800) for k in range(calls)]
        for f in fs:
            f.result()
        run.compare()
        # threads have the machine to themselves
        for k in range(6 if quick else 60):
            run.one(b, path, ref, "threads", s0 + k, [8, 2, 16, 4, 32, 3][k % 6], 1)
            run.one(b, path, ref, "share", s0 + k, [8, 16, 2, 4, 32, 3][k % 6], 1 + k % 2)
        t = tsan.result()
        tj = []
        for k in range(2 if quick else 16):
            tj.append(ex.submit(run.one, t, path, ref, "threads", s0 + k, 4, 1, tsan=True, limit=600))
            tj.append(ex.submit(run.one, t, path, ref, "share", s0 + k, 4, 2 + k % 3, tsan=True, limit=600))
        for f in tj:
            f.result()
        st = max(1, len(run.its) // 12)
        res.samples += [c22.show_item(i)[:200] for i in run.its[::st]]
    finally:
        ex.shutdown(cancel_futures=True)
        for p in (path, path + ".small", ref):
            if os.path.exists(p):
                os.unlink(p)
    res.rule = ("the probe's 12 operations over the payload corpus (up to 3000 bytes): a reference process in corpus order; other processes in reverse and "
                "shuffled order with repeats, after calls cut short by panics of the caller's code (delegates, destinations, storage, hashers, iterators, conversions), with calls made inside such code, with one reused buffer (same address and length, edited in place, shifted), as the only call of a process, on 2 to 32 "
                "threads at once, and reading shared parsed objects from 2 to 32 threads at once, with forced thread switches inside output calls; the last two also "
                "under ThreadSanitizer; 28 single calls each made 150000 (20 million) times in a process, then every other; marker traits asked at run time. A case is one (payload, operation) with its reference log; oracle: equality of complete result logs.")


def replay(j):
    res = core.Result()
    dic = core.dictionary()
    stage("C23", res, dic)
    os.unlink(dic)
    for v in res.violations:
        print(v.message[:1500])
    return 1 if res.violations else 0
