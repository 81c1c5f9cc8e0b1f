"""C22: the logs of one probe program, built in every configuration."""
import concurrent.futures, hashlib, os, re, shutil, sys, time
import core

PROBE = os.path.join(core.VERIF, "probe")
FEATURES = ["", "alloc", "std", "heapless", "alloc,heapless", "std,heapless"]
REF = "native std,heapless release"
MIRI_FAST = ("-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation "
             "-Zmiri-disable-alignment-check -Zmiri-disable-data-race-detector")


def name_dir(name):
    return os.path.join(core.TARGET, "c22", re.sub(r"[^a-z0-9]+", "-", name))


def corpus(mon, dic, small):
    p = os.path.join(core.WORK, f"corpus-{os.getpid()}")
    r = core.run([mon, "corpus", p, "--small", str(small), "--seed", str(core.SEED), "--tier", core.TIER, "--dict", dic])
    if r.returncode:
        raise core.Inconclusive("no corpus: " + r.stderr[-500:])
    return p


def items(path):
    b = open(path, "rb").read()
    at, out = 0, []
    while at < len(b):
        w = [int.from_bytes(b[at + 4 * i:at + 4 * i + 4], "little") for i in range(5)]
        at += 20
        out.append((w[0], b[at:at + w[1]], b[at + w[1]:at + w[1] + w[2]], w[3], b[at + w[1] + w[2]:at + w[1] + w[2] + w[4]]))
        at += w[1] + w[2] + w[4]
    return out


def show_item(it):
    f, p, u, n, s = it
    t = repr(p[:300])[1:]
    return t + (f" + {repr(u)[1:]} * {n} + {repr(s)[1:]}" if n else "") + ("..." if len(p) > 300 else "")


class BuildFailed(Exception):
    pass


def build_failed(name, r):
    raise BuildFailed(f"{name}: " + r.stderr[-3000:])


def native(name, feats, profile, extra=()):
    d = name_dir(name)
    e = core.env(CARGO_TARGET_DIR=d)
    args = ["+nightly", "build", "--offline", "--bin", "probe", "--features", feats]
    out = {"dev": "debug"}.get(profile, profile)
    args += [] if profile == "dev" else ["--profile", profile]
    r = core.cargo(args, PROBE, envs=e)
    if r.returncode:
        build_failed(name, r)
    b = os.path.join(d, out, "probe")
    return {"log": lambda c, *a: [b, "log", c, "0", *a], "show": lambda c, i, o: [b, "show", c, str(i), o], "env": core.env()}


def lld():
    s = core.run(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    return os.path.join(s, "lib/rustlib/x86_64-unknown-linux-gnu/bin/rust-lld")


def wasm(name, feats, profile):
    """32-bit: core and alloc built for wasm32, run by node."""
    d = name_dir(name)
    e = core.env(CARGO_TARGET_DIR=d)
    r = core.cargo(["+nightly", "rustc", "--offline", "--profile", profile, "--lib", "--crate-type", "staticlib",
                    "-Zbuild-std=core,alloc", "--target", "wasm32-unknown-emscripten", "--features", feats], PROBE, envs=e)
    if r.returncode:
        build_failed(name, r)
    m = os.path.join(d, "probe.wasm")
    a = os.path.join(d, "wasm32-unknown-emscripten", profile, "libprobe.a")
    x = ["--export=" + k for k in ("buf", "ops", "name_ptr", "name_len", "run", "show", "text")]
    r = core.run([lld(), "-flavor", "wasm", "--no-entry", "--gc-sections", "-z", "stack-size=8388608"] + x + ["--whole-archive", a, "-o", m])
    if r.returncode:
        raise core.Inconclusive("linking the wasm32 probe: " + r.stderr[-800:])
    js = os.path.join(PROBE, "wasm.js")
    return {"log": lambda c, *a: ["node", js, m, "log", c], "show": lambda c, i, o: ["node", js, m, "show", c, str(i), o], "env": core.env()}


def miri(name, feats, target):
    d = name_dir(name)
    e = core.env(CARGO_TARGET_DIR=d, MIRIFLAGS=MIRI_FAST)
    args = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--bin", "probe", "--target", target, "--features", feats, "--"]
    t = time.time()
    r = core.run(["cargo", "+nightly", "miri", "setup", "--target", target], cwd=PROBE, env=e)
    if r.returncode:
        raise core.Inconclusive(f"Miri cannot be set up for {target}: " + r.stderr[-800:])
    open(os.path.join(core.WORK, "empty"), "w").close()
    r = core.run(args + ["log", os.path.join(core.WORK, "empty"), "0"], cwd=PROBE, env=e)
    core.log(f"[build] miri {target}: rc={r.returncode} {time.time() - t:.1f}s")
    if r.returncode:
        build_failed(name, r)
    return {"log": lambda c, *a: args + ["log", c, "0", *a], "show": lambda c, i, o: args + ["show", c, str(i), o], "env": e,
            "miri": True}


def configurations():
    out = []
    for f in FEATURES:
        for p in ("dev", "release"):
            out.append((f"native {f or 'none'} {p}", native, (f, p), "full"))
    out.append(("wasm32 alloc,heapless release", wasm, ("alloc,heapless", "wasm"), "full"))
    out.append(("wasm32 none debug", wasm, ("", "wasmdev"), "full"))
    out.append(("s390x std,heapless debug", miri, ("std,heapless", "s390x-unknown-linux-gnu"), "small"))
    if core.TIER == "thorough":
        for p in ("unopt", "size", "checked"):
            for f in ("", "std,heapless"):
                out.append((f"native {f or 'none'} {p}", native, (f, p), "full"))
        out.append(("wasm32 none release", wasm, ("", "wasm"), "full"))
        out.append(("wasm32 alloc,heapless debug", wasm, ("alloc,heapless", "wasmdev"), "full"))
        out.append(("wasm32 alloc release", wasm, ("alloc", "wasm"), "full"))
        out.append(("i686 std,heapless debug", miri, ("std,heapless", "i686-unknown-linux-gnu"), "small"))
        out.append(("i686 none debug", miri, ("", "i686-unknown-linux-gnu"), "small"))
        out.append(("s390x none debug", miri, ("", "s390x-unknown-linux-gnu"), "small"))
        out.append(("powerpc std debug", miri, ("std", "powerpc-unknown-linux-gnu"), "small"))
    # the slow ones first
    return sorted(out, key=lambda c: (not c[0].startswith(("s390x", "i686", "powerpc")), not c[0].startswith("wasm"), "dev" not in c[0]))


def parse(text):
    d = {}
    for l in text.splitlines():
        f = l.split()
        if len(f) >= 3:
            d[(int(f[0]), f[1])] = (f[2], len(f) > 3)
    return d


def sections(feats):
    s = {"core"}
    if "alloc" in feats or "std" in feats:
        s.add("alloc")
    if "std" in feats:
        s.add("std")
    if "heapless" in feats:
        s.add("heapless")
    return s


def run_config(cfg, path):
    name, fn, args, which = cfg
    m = fn(name, *args)
    path = path.result()
    c = path if which == "full" else path + ".small"
    outs = []
    n = 6 if m.get("miri") else 1
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(core.run, m["log"](c, str(k), str(n)), cwd=PROBE, env=m["env"]) for k in range(n)]
        for f in fs:
            r = f.result()
            if r.returncode and not m.get("miri") and name.startswith("wasm"):
                raise core.Inconclusive(f"{name}: node failed: {r.stderr[-800:]}")
            outs.append(r)
    d = {}
    for r in outs:
        d.update(parse(r.stdout))
    dead = next((r for r in outs if r.returncode), None)
    return m, d, dead


def diff_text(a, b):
    la, lb = a.splitlines(), b.splitlines()
    for i in range(max(len(la), len(lb))):
        x = la[i] if i < len(la) else "(ends)"
        y = lb[i] if i < len(lb) else "(ends)"
        if x != y:
            return f"line {i}: {x[:500]!r} there, {y[:500]!r} here"
    return "logs differ but their texts do not"


def stage(prop, res, dic):
    path = os.path.join(core.WORK, f"corpus-{os.getpid()}")
    try:
        with concurrent.futures.ThreadPoolExecutor(1) as ex:
            go(prop, res, ex.submit(lambda: corpus(core.build_harness(), dic, 48 if core.TIER == "quick" else 400)))
    finally:
        for p in (path, path + ".small"):
            if os.path.exists(p):
                os.unlink(p)


def go(prop, res, path_later):
    cfgs = configurations()
    if core.TIER == "quick":
        workers = 8
    else:
        workers = 5
    logs, dead, failed, incon = {}, {}, {}, []
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        fs = {ex.submit(run_config, c, path_later): c for c in cfgs}
        for f in concurrent.futures.as_completed(fs):
            c = fs[f]
            try:
                m, d, dd = f.result()
                logs[c[0]] = (m, d, c)
                if dd is not None:
                    dead[c[0]] = dd
            except BuildFailed as e:
                failed[c[0]] = str(e)
            except core.Inconclusive as e:
                incon.append(str(e))
    path = path_later.result()
    if REF not in logs:
        raise core.Inconclusive("the reference configuration does not build: " + failed.get(REF, "?")[-1500:])
    if incon:
        res.notes += incon
    its = {"full": items(path), "small": items(path + ".small")}
    m0, full, _ = logs[REF]
    small = parse(core.run(m0["log"](path + ".small"), env=m0["env"]).stdout)
    if REF in dead:
        raise core.Inconclusive("the reference configuration dies: " + dead[REF].stderr[-500:])
    for n, e in failed.items():
        if re.search(r"^error(\[E\d+\])?:", e, re.M):
            res.violations.append(core.Found(f"the crate and the probe build with {REF} but not as {n}: {e[-1500:]}",
                                             core.save_replay(prop, "build", 0, e[-1500:], {"stage": "c22", "config": n})))
        else:
            incon.append(f"{n} does not build: {e[-300:]}")
    observed, skipped = {}, 0
    for n, (m, d, c) in sorted(logs.items()):
        ref = full if c[3] == "full" else small
        which = path if c[3] == "full" else path + ".small"
        secs = sections(c[2][0])
        bad = 0
        for k in sorted(ref):
            if k[1].split(".")[0] not in secs:
                continue
            if ref[k][1]:
                skipped += 1
                continue
            if k not in d and n not in dead:
                raise core.Inconclusive(f"{n} gives no log for {k}")
            if k not in d or d[k] != ref[k]:
                if bad < 2:
                    a = core.run(m0["show"](which, *k), env=m0["env"]).stdout
                    b = core.run(m["show"](which, *k), env=m["env"], cwd=PROBE)
                    why = diff_text(a, b.stdout) + (f"; exit {b.returncode}: {b.stderr[-600:]}" if b.returncode else "")
                    msg = f"{n} differs from {REF} in {k[1]} of {show_item(its[c[3]][k[0]])}: {why}"
                    res.violations.append(core.Found(msg, core.save_replay(prop, k[1], k[0], msg, {"stage": "c22", "config": n})))
                bad += 1
                continue
            res.evaluations += 1
        observed[n] = len(d)
        if n in dead and not bad:
            incon.append(f"{n} ended with {dead[n].returncode}: {dead[n].stderr[-300:]}")
    if incon and not res.violations:
        raise core.Inconclusive("; ".join(incon))
    empty = "cbf29ce484222325"
    nontriv = {(k[1], v[0]) for k, v in list(full.items()) + list(small.items()) if v[0] != empty}
    res.distinct += len(nontriv)
    res.counters.update({"configurations": len(observed), "payloads": len(its["full"]), "interpreted_payloads": len(its["small"]),
                         "operations": len({k[1] for k in full}), "skipped_because_the_reference_panics": skipped})
    res.extra["logs_compared_per_configuration"] = observed
    st = max(1, len(its["full"]) // 12)
    res.samples += [show_item(i)[:200] for i in its["full"][::st]]
    res.workloads["configurations"] = {"run": len(observed), "total": len(cfgs)}
    res.rule = (f"{len(cfgs)} builds of the same probe (features none/alloc/std/heapless and combinations, debug and optimized, wasm32 under node, "
                "big-endian s390x under Miri) run the same operations over the same payloads (boundary lengths up to 2^24, size families, repository corpus, "
                "random); a case is a (operation, log) pair, non-trivial if the log is not empty. Oracle: equality with the log of the reference build.")


def replay(j):
    res = core.Result()
    dic = core.dictionary()
    stage("C22", res, dic)
    os.unlink(dic)
    for v in res.violations:
        print(v.message[:1500])
    return 1 if res.violations else 0
