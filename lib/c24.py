"""C24: instructions and allocation volume per byte, for families of payloads, as they grow."""
import concurrent.futures, os, re, resource, shutil, subprocess
import core

SMALL, BIG, HUGE = 2048, 32768, 131072
RATIO = 1.5       # growth of the cost per byte that is not linear: n log n gives 1.36, n^2 gives 16
INSTR = 2.0       # per byte, below which memory copies change their method
BYTES = 1.0
SURE = 4          # over 16 times the size: nothing linear does this above those floors
RULE = ("{n} families of payloads (segments repeated, seeded) at {s} and {b} bytes; each operation runs once per payload inside a function whose "
        "instructions valgrind counts one by one while the allocator adds up requested bytes; a case is one measured operation, non-trivial if it "
        "executed 100 instructions. Oracle: instructions and requested bytes per byte of input plus output at {b} at most 1.5 times those at {s}; "
        "a suspect that grew less than 4 times is measured again at {h} bytes and is a violation if the cost per byte kept growing by more than 1.5.")


def measured(probe, specs, sizes, shard, shards, d, limit, item=None, op=None):
    """Rows (item, size, op, bytes, instructions, requested)."""
    out = os.path.join(d, f"cg{shard}.{item if item is not None else ''}{re.sub('[^a-z]', '', op or '')}")
    a = [probe, "cost", specs, ",".join(map(str, sizes)), str(shard), str(shards)] + ([str(item), op] if op else [])
    late = False
    with open(out + ".stdout", "w+") as so:
        try:
            r = subprocess.run(["valgrind", "--tool=callgrind", "--vgdb=no", "--toggle-collect=justjson_measured", "--dump-after=justjson_measured",
                                f"--callgrind-out-file={out}"] + a, env=core.env(), stdout=so, stderr=subprocess.PIPE, text=True,
                               errors="replace", timeout=limit)
        except subprocess.TimeoutExpired:
            late = True
        so.seek(0)
        lines = [l.split() for l in so.read().splitlines()]
    if not late and r.returncode:
        raise core.Inconclusive(f"the measured program ended with {r.returncode} after {' '.join(lines[-1]) if lines else 'nothing'}: "
                                + r.stderr[-600:])
    if late:
        last = [l for l in lines if l and l[0] == "begin" and len(l) == 4]
        late = (int(last[-1][1]), int(last[-1][2]), last[-1][3]) if last else True
    lines = [l for l in lines if len(l) == 6]
    rows = []
    for k, l in enumerate(lines, 1):
        f = f"{out}.{k}"
        try:
            t = open(f).read()
        except OSError:
            raise core.Inconclusive(f"callgrind wrote no count for call {k}")
        n = re.search(r"^(?:totals|summary): (\d+)", t, re.M)
        os.unlink(f)
        rows.append((int(l[0]), int(l[1]), l[2], int(l[3]) + int(l[4]), int(n.group(1)) if n else 0, int(l[5])))
    if not late and os.path.exists(f"{out}.{len(rows) + 1}"):
        raise core.Inconclusive("more counts than calls")
    return rows, late


NATIVE = 4


def natively(probe, specs, item, size, op):
    """CPU seconds of one call, at most 25."""
    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (25, 26))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    b0 = resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime
    subprocess.run([probe, "cost", specs, str(size), "0", "1", str(item), op], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                   preexec_fn=pre, timeout=300)
    return resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime - b0


def build():
    e = core.env(CARGO_TARGET_DIR=os.path.join(core.TARGET, "c24"))
    r = core.cargo(["build", "--offline", "--release", "--bin", "probe", "--features", "std,heapless"], os.path.join(core.VERIF, "probe"), envs=e)
    if r.returncode:
        raise core.Inconclusive("the probe does not build: " + r.stderr[-2000:])
    return os.path.join(core.TARGET, "c24", "release", "probe")


def grows(a, b, floor):
    return b > floor and b > RATIO * max(a, 1e-9)


def stage(prop, res, dic):
    d = os.path.join(core.WORK, f"cost-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    try:
        go(prop, res, dic, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(prop, res, dic, d):
    count = 360 if core.TIER == "quick" else 3000
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        b = ex.submit(build)
        mon = core.build_harness()
        probe = b.result()
    specs = os.path.join(d, "specs")
    r = core.run([mon, "specs", specs, "--count", str(count), "--seed", str(core.SEED), "--tier", core.TIER, "--dict", dic])
    if r.returncode:
        raise core.Inconclusive("no payload families: " + r.stderr[-500:])
    res.rule = RULE.format(n=count, s=SMALL, b=BIG, h=HUGE)
    by = {}
    shards = 32
    late = []
    limit = (200 if core.TIER == "quick" else 3000) * core.NPROC // shards
    with concurrent.futures.ThreadPoolExecutor(core.NPROC) as ex:
        for rows, l in ex.map(lambda k: measured(probe, specs, (SMALL, BIG), k, shards, d, limit), range(shards)):
            late += [l] if l else []
            for i, z, op, n, ins, vol in rows:
                by.setdefault((i, op), {})[z] = (ins / n, vol / n, ins, vol, n)
    suspects, worst_i, worst_v, total, ops, dearest = [], (0, None), (0, None), 0, {}, (0, None)
    for (i, op), v in sorted(by.items()):
        ops[op] = ops.get(op, 0) + len(v)
        for z in v:
            total += v[z][2]
            res.evaluations += 1
            if v[z][2] > 100:
                res.distinct += 1
        if SMALL not in v or BIG not in v:
            # outcomes that depend on the size, such as a number that stops fitting
            continue
        a, b = v[SMALL], v[BIG]
        if b[0] > INSTR:
            worst_i = max(worst_i, (b[0] / max(a[0], 1e-9), f"{op} of family {i}"))
        if b[1] > BYTES:
            worst_v = max(worst_v, (b[1] / max(a[1], 1e-9), f"{op} of family {i}"))
        dearest = max(dearest, (b[0], f"{op} of family {i}"))
        if grows(a[0], b[0], INSTR) or grows(a[1], b[1], BYTES):
            suspects.append((max(b[0] / max(a[0], 1e-9) if b[0] > INSTR else 0, b[1] / max(a[1], 1e-9) if b[1] > BYTES else 0), i, op))
    cleared, undecided = 0, 0
    kinds = ("instructions", INSTR), ("requested bytes", BYTES)
    seen = {}
    todo = []
    for g, i, op in sorted(suspects, reverse=True):
        seen[op] = seen.get(op, 0) + 1
        if seen[op] <= 3 and len(todo) < 48:
            todo.append((i, op))

    def judge(t):
        i, op = t
        v = by[t]
        for k, (w, floor) in enumerate(kinds):
            if v[BIG][k] > floor and v[BIG][k] > SURE * max(v[SMALL][k], 1e-9):
                return t, v, k
        rows, l = measured(probe, specs, (SMALL, BIG, HUGE), 0, 1, d, 150, i, op)
        v = {z: (ins / n, vol / n) for _, z, _, n, ins, vol in rows}
        if HUGE not in v:
            return t, v, -2
        for k, (w, floor) in enumerate(kinds):
            if grows(v[SMALL][k], v[BIG][k], floor) and grows(v[BIG][k], v[HUGE][k], floor):
                return t, v, k
        return t, v, -1
    with concurrent.futures.ThreadPoolExecutor(core.NPROC) as ex:
        for (i, op), v, k in ex.map(judge, todo):
            if k == -1:
                cleared += 1
            elif k == -2:
                undecided += 1
            elif len(res.violations) < 6:
                fam = core.run([probe, "spec", specs, str(i)]).stdout.strip()
                msg = (f"{op} takes {', '.join(f'{v[z][k]:.1f} {kinds[k][0]} per byte at {z} bytes' for z in sorted(v))}: "
                       f"not linear, for {fam[:600]}")
                res.violations.append(core.Found(msg, core.save_replay(prop, op, i, msg, {"stage": "c24"})))
    # a call during which the time ran out, again and without counting
    for i, z, op in [l for l in late if l is not True][:NATIVE]:
        t = natively(probe, specs, i, z, op)
        if t > 20:
            fam = core.run([probe, "spec", specs, str(i)]).stdout.strip()
            msg = f"{op} takes more than {t:.0f} CPU seconds at {z} bytes: not linear, for {fam[:600]}"
            res.violations.append(core.Found(msg, core.save_replay(prop, op, i, msg, {"stage": "c24"})))
            break
    late = len(late)
    if (late or undecided) and not res.violations:
        raise core.Inconclusive(f"{late} shards and {undecided} suspects ran out of time")
    res.counters.update({"instructions_counted": total, "operations": len(ops), "families": count, "suspects_cleared_at_a_larger_size": cleared})
    res.extra["largest_growth_of_instructions_per_byte"] = f"{worst_i[0]:.3f} ({worst_i[1]})"
    res.extra["largest_growth_of_requested_bytes_per_byte"] = f"{worst_v[0]:.3f} ({worst_v[1]})"
    res.extra["most_instructions_per_byte"] = f"{dearest[0]:.1f} ({dearest[1]})"
    res.extra["measurements_per_operation"] = ops
    res.samples += [f"{op} of family {i}: " + ", ".join(f"{v[z][0]:.2f} instructions and {v[z][1]:.2f} requested bytes per byte at {z}" for z in sorted(v))
                    for (i, op), v in sorted(by.items())[::max(1, len(by) // 12)]]
    res.workloads["families"] = {"run": count, "total": count}


def replay(j):
    res = core.Result()
    dic = core.dictionary()
    stage("C24", res, dic)
    os.unlink(dic)
    for v in res.violations:
        print(v.message[:1500])
    return 1 if res.violations else 0
