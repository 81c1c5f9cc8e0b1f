"""Shared machinery of the checks: building, the source dictionary, running
sharded workers under a watchdog, verdicts and evidence."""
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
SEED = int(os.environ.get("VERIF_SEED") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
NPROC = min(8, os.cpu_count() or 8)
HANG_CPU = 60 if TIER == "quick" else 180  # CPU seconds on one batch of cases


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env(**kw):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                          timeout=timeout, **kw)


def cargo(args, cwd, timeout=800, envs=None):
    t = time.time()
    r = run(["cargo"] + args, timeout=timeout, cwd=cwd, env=envs or env())
    log(f"[build] cargo {' '.join(args)} ({cwd}): rc={r.returncode} {time.time() - t:.1f}s")
    return r


def build_harness():
    e = env(CARGO_TARGET_DIR=os.path.join(TARGET, "harness"))
    r = cargo(["build", "--release", "--offline"], os.path.join(VERIF, "harness"), envs=e)
    if r.returncode != 0:
        log(r.stderr[-4000:])
        raise Inconclusive("the harness does not build against /repo")
    return os.path.join(TARGET, "harness", "release", "mon")


# ------------------------------------------------------------- dictionary
def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == "\\" and i + 1 < len(s):
            d = s[i + 1]
            m = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, '"': 34, "'": 39}
            if d in m:
                out.append(m[d])
                i += 2
                continue
            if d == "x" and re.match(r"[0-9a-fA-F]{2}", s[i + 2:i + 4]):
                out.append(int(s[i + 2:i + 4], 16))
                i += 4
                continue
            k = re.match(r"\\u\{([0-9a-fA-F_]+)\}", s[i:])
            if k:
                try:
                    out += chr(int(k.group(1).replace("_", ""), 16)).encode("utf-8", "ignore")
                except (ValueError, OverflowError):
                    pass
                i += k.end()
                continue
        out += c.encode("utf-8", "ignore")
        i += 1
    return bytes(out)


def dictionary():
    """Literals of the crate's source (a fuzzing dictionary) and the
    repository's JSON files (a seed corpus)."""
    ints, strs = set(), set()
    for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True)):
        src = open(f, encoding="utf-8", errors="replace").read()
        src = re.sub(r"^\s*//.*$", "", src, flags=re.M)
        for m in re.finditer(r"\b(0[xX][0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?\b", src):
            t = m.group(1).replace("_", "")
            try:
                v = int(t, 0) if t[:2].lower() in ("0x", "0b") else int(t)
            except ValueError:
                continue
            if v < 1 << 32:
                ints.add(v)
        # products and shifts of literals
        for m in re.finditer(r"\b([0-9_]+)\s*(\*|<<)\s*([0-9_]+)\b", src):
            try:
                a, b = int(m.group(1).replace("_", "")), int(m.group(3).replace("_", ""))
                v = a * b if m.group(2) == "*" else (a << b if b < 24 else 0)
            except ValueError:
                continue
            if v < 1 << 32:
                ints.add(v)
        for m in re.finditer(r"b?'((?:[^'\\\n]|\\.|\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}))'", src):
            strs.add(unescape(m.group(1)))
        for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', src):
            if len(m.group(1)) <= 200:
                strs.add(unescape(m.group(1)))
        for m in re.finditer(r'r#+"(.*?)"#+', src, flags=re.S):
            if len(m.group(1)) <= 400:
                strs.add(m.group(1).encode("utf-8", "ignore"))
    strs.discard(b"")
    corpus = []
    for pat in ("tests/JSONTestSuite/*.json", "tests/jsonorg/*", "tests/roundtrip/*"):
        for f in sorted(glob.glob(os.path.join(REPO, pat))):
            if os.path.isfile(f) and os.path.getsize(f) <= 120_000:
                corpus.append(open(f, "rb").read())
    os.makedirs(WORK, exist_ok=True)
    p = os.path.join(WORK, f"dict-{os.getpid()}.txt")
    with open(p, "w") as o:
        for i in sorted(ints):
            o.write(f"i {i}\n")
        for s in sorted(strs):
            o.write(f"s {s.hex()}\n")
        for c in corpus:
            o.write(f"c {c.hex()}\n")
    return p


def guide(dic):
    """Adds to the dictionary payloads grown for the coverage they reach in the
    crate under test. A workload only: if it cannot be had, the others remain."""
    d = os.path.join(VERIF, "guide")
    e = env(CARGO_TARGET_DIR=os.path.join(TARGET, "guide"), RUSTC_WRAPPER=os.path.join(d, "rustc.sh"))
    quota, most = (40_000_000, 1000) if TIER == "quick" else (2_000_000_000, 4000)
    outs = [f"{dic}.g{i}" for i in range(NPROC)]
    info = {"executions": 0, "payloads": 0}
    try:
        r = cargo(["build", "--release", "--offline"], d, envs=e)
        if r.returncode:
            log(r.stderr[-1500:])
            return {"failed": "build"}
        b = os.path.join(TARGET, "guide", "release", "guide")

        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        ps = [subprocess.Popen([b, "grow", dic, str(SEED), str(i), str(quota // NPROC * 4), o], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, preexec_fn=pre) for i, o in enumerate(outs)]
        end = time.time() + (60 if TIER == "quick" else 1500)
        for p, o in zip(ps, outs):
            try:
                t = p.communicate(timeout=max(1, end - time.time()))[0].split()
                if p.returncode == 0:
                    info["executions"] += int(t[0])
                    continue
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            # what it was doing when it died is for the monitors to judge
            c = open(o + ".cur", "rb").read()
            n = int.from_bytes(c[:8], "little")
            with open(dic, "a") as f:
                f.write(f"g {c[8:8 + n].hex()}\n")
            info["died"] = info.get("died", 0) + 1
        r = run([b, "merge", dic + ".gm", str(most)] + outs, timeout=300, preexec_fn=pre)
        lines = open(dic + ".gm").read().split("\n") if r.returncode == 0 else []
        with open(dic, "a") as f:
            for l in lines:
                f.write(f"g {l}\n")
        info["payloads"] = len(lines)
        if r.returncode == 0:
            info["branches_reached"] = int(r.stdout.split()[2])
    except (subprocess.TimeoutExpired, OSError, ValueError, IndexError) as x:
        info["failed"] = str(x)[:300]
    finally:
        for o in outs + [dic + ".gm"]:
            for f in (o, o + ".cur"):
                if os.path.exists(f):
                    os.unlink(f)
    return info


# ---------------------------------------------------------------- workers
def cpu_of(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return None


class Found:
    """A violation."""

    def __init__(self, message, replay):
        self.message, self.replay = message, replay


class Result:
    def __init__(self):
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.counters = {}
        self.maxima = {}
        self.workloads = {}
        self.known = {}
        self.violations = []
        self.notes = []
        self.extra = {}
        self.rule = ""
        self.assumptions = []


def isolated_replay(mon, prop, wl, idx, dic):
    """Runs one batch alone; returns ('violation', text) / ('ok', text) / ('harness', text)."""
    lim = HANG_CPU * 3

    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = run([mon, "replay", prop, wl, str(idx), "--seed", str(SEED), "--tier", TIER, "--dict", dic],
                preexec_fn=pre, timeout=lim * 6)
    except subprocess.TimeoutExpired:
        return "inconclusive", "replay ran out of wall-clock time"
    out = (r.stdout + r.stderr).strip()[-3000:]
    if r.returncode == 1:
        return "violation", out
    if r.returncode == 0:
        return "ok", out
    if r.returncode in (-signal.SIGXCPU,):
        return "violation", f"does not finish: more than {lim} CPU seconds on this batch; {out}"
    if r.returncode == -signal.SIGKILL:
        return "inconclusive", "replay was killed"
    if r.returncode < 0:
        return "violation", f"the process died with {signal.Signals(-r.returncode).name}: {out}"
    return "harness", out


def save_replay(prop, wl, idx, message, extra=None):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(f"{prop}{wl}{idx}{message}".encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{h}.json")
    j = {"property": prop, "workload": wl, "index": idx, "seed": SEED, "tier": TIER, "message": message,
         "rerun": f"VERIF_SEED={SEED} VERIF_TIER={TIER} bin/check {prop} --replay {os.path.relpath(p, VERIF)}"}
    if extra:
        j.update(extra)
    with open(p, "w") as f:
        json.dump(j, f, indent=1, ensure_ascii=True)
    return os.path.relpath(p, VERIF)


def workers(mon, prop, dic, res, budget, only=None, shards=NPROC, tag="w", extra=None):
    wl_names = [l.split()[1] for l in run([mon, "workloads", "--dict", dic]).stdout.splitlines() if l.split()[0] == prop]
    procs = []
    base = os.path.join(WORK, f"{prop}-{os.getpid()}-{tag}")
    for s in range(shards):
        out = f"{base}-{s}"
        cmd = [mon, "worker", prop, "--shard", str(s), "--shards", str(shards), "--seed", str(SEED), "--tier", TIER,
               "--dict", dic, "--out", out, "--budget", str(budget)]
        if only:
            cmd += ["--only", only]
        err = open(out + ".err", "w")
        p = subprocess.Popen(cmd, stdout=err, stderr=err, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        procs.append({"p": p, "out": out, "cur": None, "cpu0": 0.0, "state": "run"})

    def cur(out):
        try:
            b = open(out + ".cur", "rb").read()
            if len(b) < 24 or b[16] != 1:
                return None
            return int.from_bytes(b[:8], "little"), int.from_bytes(b[8:16], "little")
        except OSError:
            return None
    suspects = []
    while any(w["state"] == "run" for w in procs):
        time.sleep(0.1)
        for w in procs:
            if w["state"] != "run":
                continue
            rc = w["p"].poll()
            if rc is not None:
                w["state"] = "done" if rc == 0 else "dead"
                if rc != 0:
                    suspects.append((w, f"worker ended with {rc}: " + open(w["out"] + ".err").read()[-1500:]))
                continue
            c, cpu = cur(w["out"]), cpu_of(w["p"].pid)
            if cpu is None:
                continue
            if c != w["cur"]:
                w["cur"], w["cpu0"] = c, cpu
            elif cpu - w["cpu0"] > HANG_CPU:
                w["p"].kill()
                w["p"].wait()
                w["state"] = "dead"
                suspects.append((w, f"more than {HANG_CPU} CPU seconds on one batch"))
    for w in procs:
        if w["state"] != "done":
            continue
        j = json.load(open(w["out"] + ".json"))
        res.evaluations += j["evals"]
        for k, v in j["counters"].items():
            res.counters[k] = res.counters.get(k, 0) + v
        for k, v in j["maxima"].items():
            res.maxima[k] = max(res.maxima.get(k, 0), v)
        for k, (r, t) in j["workloads"].items():
            a = res.workloads.setdefault(k, {"run": 0, "total": t})
            a["run"] += r
        res.samples += j["samples"]
        for k, (n, what) in j["known"].items():
            o = res.known.setdefault(k, [0, what])
            o[0] += n
        if j["cut"]:
            res.notes.append("a worker reached its time budget")
        for wl, idx, m in j["violations"]:
            kind, text = isolated_replay(mon, prop, wl, idx, dic)
            msg = m if kind == "violation" else m + f" [isolated replay: {kind}]"
            if kind in ("violation", "ok"):
                # history-dependent failures may not show in isolation; they were observed all the same
                res.violations.append(Found(msg, save_replay(prop, wl, idx, msg, extra)))
        if j["harness"] and not j["violations"]:
            raise Inconclusive("harness error: " + "; ".join(j["harness"]))
    for w, why in suspects:
        c = cur(w["out"])
        if c is None:
            raise Inconclusive(f"worker failed before its first case: {why}")
        wl, idx = wl_names[c[0]], c[1]
        kind, text = isolated_replay(mon, prop, wl, idx, dic)
        if kind == "violation":
            msg = f"{why} -- {text}"
            res.violations.append(Found(msg, save_replay(prop, wl, idx, msg, extra)))
        elif not res.violations:
            raise Inconclusive(f"worker failed ({why}) but the replay says {kind}: {text}")
    r = run([mon, "distinct"] + [w["out"] + ".dist" for w in procs if w["state"] == "done"])
    res.distinct += int(r.stdout.strip() or 0)
    for w in procs:
        for s in (".cur", ".err", ".json", ".dist"):
            try:
                os.unlink(w["out"] + s)
            except OSError:
                pass
    # keep a spread of samples
    if len(res.samples) > 16:
        step = len(res.samples) / 16
        res.samples = [res.samples[int(i * step)] for i in range(16)]


def known_findings():
    out = {}
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"open: id=(\S+) property=(\S+) (.*)", l.strip())
        if m:
            out[(m.group(2), m.group(1))] = m.group(3)
    return out


def finish(prop, level, res, t0):
    """Prints the verdict, writes the evidence, returns the exit code."""
    kf = known_findings()
    for k, (n, what) in sorted(res.known.items()):
        if (prop, k) in kf:
            print(f"KNOWN-FINDING: property={prop} {kf[(prop, k)]} [{k}; seen {n} times, e.g. {what}]")
        else:
            res.violations.append(Found(f"unlisted finding {k}: {what}", save_replay(prop, k, 0, what)))
    incomplete = [k for k, v in res.workloads.items() if v["run"] < v["total"]]
    cov = {
        "evaluations": res.evaluations,
        "distinct_nontrivial": res.distinct,
        "rule": res.rule,
        "samples": res.samples or ["(none)"],
        "workloads": res.workloads,
        "observed": res.counters,
        "maxima": res.maxima,
    }
    cov.update(res.extra)
    if res.notes or incomplete:
        cov["notes"] = res.notes + ([f"not run to the end: {', '.join(incomplete)}"] if incomplete else [])
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
        "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(res.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    if res.violations:
        for v in res.violations[:5]:
            print(f"VIOLATION property={prop} replay={v.replay}")
            print("  " + v.message.replace("\n", "\n  ")[:2000])
        return 1
    if res.evaluations == 0 or res.distinct == 0:
        print(f"INCONCLUSIVE property={prop}: nothing was observed")
        return 2
    print(f"OK property={prop} tier={TIER} seed={SEED}: {res.evaluations} evaluations, {res.distinct} distinct non-trivial, {time.time() - t0:.1f}s")
    return 0
