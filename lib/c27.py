"""C27: the validity monitors natively, under AddressSanitizer and under Miri."""
import concurrent.futures, os, re, time
import core

HARNESS = os.path.join(core.VERIF, "harness")
ASAN_TARGET = "x86_64-unknown-linux-gnu"


def asan_env(**kw):
    return core.env(RUSTFLAGS="-Zsanitizer=address --cfg exact", CARGO_TARGET_DIR=os.path.join(core.TARGET, "asan"), **kw)


def build_asan():
    r = core.cargo(["+nightly", "build", "--release", "--offline", "--target", ASAN_TARGET], HARNESS, envs=asan_env())
    if r.returncode:
        raise core.Inconclusive("the harness does not build with AddressSanitizer: " + r.stderr[-1500:])
    return os.path.join(core.TARGET, "asan", ASAN_TARGET, "release", "mon")


def miri_env(flags=""):
    return core.env(CARGO_TARGET_DIR=os.path.join(core.TARGET, "miri"), MIRIFLAGS="-Zmiri-disable-isolation " + flags)


def miri(args, flags=""):
    return core.run(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--", "interpreted", "C27", "tiny"] + [str(a) for a in args]
                    + ["--seed", str(core.SEED), "--tier", core.TIER], cwd=HARNESS, env=miri_env(flags))


def setup_miri():
    t = time.time()
    r = core.run(["cargo", "+nightly", "miri", "setup"], cwd=HARNESS, env=miri_env())
    if r.returncode:
        raise core.Inconclusive("Miri cannot be set up: " + r.stderr[-800:])
    r = miri([0, 0, 1])
    core.log(f"[build] miri: rc={r.returncode} {time.time() - t:.1f}s")
    if r.returncode:
        raise core.Inconclusive("the harness does not build for Miri: " + r.stderr[-1500:])


def judge_miri(r, first, step):
    """(verdict, index, text, cases done)"""
    done = [int(l.split()[1]) for l in r.stdout.splitlines() if l.startswith("done ")]
    bad = re.search(r"^violation (\d+) (.*)", r.stdout, re.M)
    if bad:
        return "violation", int(bad.group(1)), bad.group(2), done
    bad = re.search(r"^harness (\d+) (.*)", r.stdout, re.M)
    if bad:
        return "inconclusive", int(bad.group(1)), bad.group(2), done
    at = done[-1] + step if done else first
    if r.returncode == 0:
        return "ok", at, "", done
    e = re.search(r"^error: (.*?)(?=\n\n|\Z)", r.stderr, re.M | re.S)
    t = e.group(0)[:900] if e else r.stderr[-900:]
    if re.search(r"Undefined Behavior|unsafe precondition|abnormal termination|memory leaked", t + r.stderr[-4000:]):
        return "violation", at, "Miri: " + t, done
    return "inconclusive", at, t, done


def stage(prop, res, dic):
    t0 = time.time()
    pool = concurrent.futures.ThreadPoolExecutor(2)
    asan, inter = pool.submit(build_asan), pool.submit(setup_miri)
    mon = core.build_harness()
    res.rule = core.run([mon, "rule", prop]).stdout.strip()
    quick = core.TIER == "quick"
    core.workers(mon, prop, dic, res, 240 if quick else 2400)
    native = res.evaluations
    core.log(f"native done {time.time() - t0:.1f}s")
    # ---- AddressSanitizer
    b = asan.result()
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=1:allocator_may_return_null=1"
    core.workers(b, prop, dic, res, 200 if quick else 1800, only="mixed,large,tiny,outside,families,corpus" if quick else None,
                 tag="asan", extra={"stage": "c27", "with": "asan"})
    core.log(f"asan done {time.time() - t0:.1f}s")
    under_asan = res.evaluations - native
    # ---- Miri
    inter.result()
    shards, each = 8, 5 if quick else 250
    plans = [("", [k, each, shards], 0) for k in range(shards)]
    if not quick:
        plans += [("-Zmiri-tree-borrows", [2000 + k, 60, shards], 0) for k in range(shards)]
        plans += [("-Zmiri-symbolic-alignment-check", [3000 + k, 60, shards], 0) for k in range(shards)]
    incon, cases = [], 0
    with concurrent.futures.ThreadPoolExecutor(core.NPROC) as ex:
        for (flags, args, _), r in zip(plans, ex.map(lambda p: miri(p[1], p[0]), plans)):
            v, at, text, done = judge_miri(r, args[0], args[2])
            cases += len(done)
            res.samples += [l[7:] for l in r.stdout.splitlines() if l.startswith("sample ")][:1]
            if v == "violation":
                msg = f"under Miri {flags}, payload {at}: {text}"
                res.violations.append(core.Found(msg, core.save_replay(prop, "tiny", at, msg, {"stage": "c27", "with": "miri", "flags": flags})))
            elif v == "inconclusive":
                incon.append(text)
    core.log(f"miri done {time.time() - t0:.1f}s")
    res.evaluations += cases
    res.counters.update({"cases_native": native, "cases_under_address_sanitizer": under_asan, "cases_under_miri": cases})
    if incon and not res.violations:
        raise core.Inconclusive("Miri: " + "; ".join(incon))


def replay(j):
    if j["with"] == "miri":
        setup_miri()
        v, at, text, _ = judge_miri(miri([j["index"], 1, 1], j.get("flags", "")), j["index"], 1)
        print(v, text)
        return 1 if v == "violation" else 0
    dic = core.dictionary()
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=1:allocator_may_return_null=1"
    kind, text = core.isolated_replay(build_asan(), j["property"], j["workload"], j["index"], dic)
    os.unlink(dic)
    print(kind, text)
    return 1 if kind == "violation" else 0
