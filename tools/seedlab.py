#!/usr/bin/env python3
"""Planted-bug laboratory.
  seedlab.py make SPEC.py [ids]   build seeded/<id>/ from a spec, verifying each in a scratch copy
  seedlab.py quiet SPEC.py [ids] [--props=..]   apply the behaviour-preserving edits of a spec, all at once, and
                                            run the checks against them: every one must exit 0
  seedlab.py hunt [ids] [--props=C01,C02]   apply each seed to a copy of /repo, mounted over it in a private
                                            mount namespace, and run its property's check there
Spec: SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo="rust main", files={})]"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAB = "/tmp/seedlab"
DEMO_SH = """#!/bin/sh
# Run in the repository; exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
cat > "$d/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
justjson = { path = "$repo"%s }
[workspace]
E
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q %s
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    os.makedirs(LAB, exist_ok=True)
    repo = LAB + "/repo"
    shutil.rmtree(repo, ignore_errors=True)
    # as /opt/vp/ws.sh does: the member "xtask" needs a git dependency
    sh(f"""git clone -q /repo {repo} && cp /repo/Cargo.lock {repo}/; cd {repo} &&
        sed -i -E 's/, *"xtask"|"xtask" *,? *//' Cargo.toml && git -c user.name=x -c user.email=x commit -qam ws""")
    for s in ns["SEEDS"]:
        if ids and s["id"] not in ids:
            continue
        t = time.time()
        sh(f"git -C {repo} checkout -q -- .")
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        bad = None
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            src = open(p).read()
            if src.count(old) != 1:
                bad = f"edit matches {src.count(old)} times in {f}: {old[:60]!r}"
                break
            open(p, "w").write(src.replace(old, new))
        if bad:
            print("BAD", s["id"], bad, flush=True)
            shutil.rmtree(d)
            continue
        diff = subprocess.run(["git", "-C", repo, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        if "demo_sh" in s:
            open(d + "/demo.sh", "w").write(s["demo_sh"])
        else:
            open(d + "/demo.sh", "w").write(DEMO_SH % (s.get("feat", ""), s.get("run", "")))
        if "demo" in s:
            open(d + "/demo.rs", "w").write(s["demo"].lstrip())
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        e = f"cd {repo} && export CARGO_TARGET_DIR={LAB}/target CARGO_NET_OFFLINE=true;"
        b = sh(e + "cargo test --workspace --all-targets --features justjson/heapless --no-run --offline && for f in std alloc heapless ''; do cargo check -p justjson --lib --no-default-features --features \"$f\" --offline || exit 1; done")
        if b.returncode:
            print("BAD", s["id"], "does not build:", "\n".join(l for l in b.stdout.splitlines() if "error" in l)[:400], flush=True)
            shutil.rmtree(d)
            continue
        b = sh(e + "cargo test --workspace --lib --bins --tests --examples --features justjson/heapless --no-fail-fast --offline -- --test-threads 8 && cargo test --workspace --doc --features justjson/heapless --no-fail-fast --offline")
        if b.returncode:
            print("BAD", s["id"], "tests fail:", "\n".join(l for l in b.stdout.splitlines() if "FAILED" in l or "panicked" in l)[-300:], flush=True)
            shutil.rmtree(d)
            continue
        r = sh(f"cd {repo} && sh {d}/demo.sh")
        if r.returncode == 0:
            print("BAD", s["id"], "demo passes with the patch:", r.stdout[-300:], flush=True)
            shutil.rmtree(d)
            continue
        sh(f"git -C {repo} checkout -q -- .")
        q = sh(f"cd {repo} && sh {d}/demo.sh")
        if q.returncode != 0:
            print("BAD", s["id"], "demo fails without the patch:", q.stdout[-600:], flush=True)
            shutil.rmtree(d)
            continue
        print("GOOD", s["id"], f"{time.time() - t:.0f}s", (r.stdout.strip().splitlines() or ["?"])[-1][:150], flush=True)
    shutil.rmtree(repo, ignore_errors=True)


def record(i, p, st):
    f = os.path.join(os.environ.get("HUNT_OUT", V), "tools", "caught.json")
    j = json.load(open(f)) if os.path.exists(f) else {}
    was = set(j.get(i, [])) - {p}
    j[i] = sorted(was | ({p} if st == "CAUGHT" else set()))
    json.dump(j, open(f, "w"), indent=1, sort_keys=True)


def enclose():
    """Re-run this command where /repo and /verif are copies."""
    d = f"/tmp/hunt.{os.getpid()}"
    os.makedirs(d)
    sh(f"cp -a /repo {d}/repo; cp -a {V} {d}/verif; mkdir {d}/out; mkdir {d}/out/tools; touch {d}/real")
    cmd = f"""mount --bind {V}/tools {d}/out/tools && mount --bind {d}/repo /repo && mount --bind {d}/verif {V} &&
        cd {V} && HUNT=1 HUNT_OUT={d}/out exec python3 tools/seedlab.py {' '.join(map(repr, sys.argv[1:]))}"""
    r = subprocess.run(["unshare", "-m", "sh", "-c", cmd])
    shutil.rmtree(d)
    sys.exit(r.returncode)


def quiet(spec, ids, props):
    if "HUNT" not in os.environ:
        enclose()
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["REFS"]:
        if ids and s["id"] not in ids:
            continue
        for f, old, new in s["edits"]:
            src = open("/repo/" + f).read()
            if src.count(old) != 1:
                print("BAD", s["id"], f, src.count(old), repr(old[:70]))
                sys.exit(1)
            open("/repo/" + f, "w").write(src.replace(old, new))
    e = "cd /tmp && rm -rf /tmp/quiet.repo && cp -a /repo /tmp/quiet.repo && cd /tmp/quiet.repo && sed -i -E 's/, *\"xtask\"|\"xtask\" *,? *//' Cargo.toml && export CARGO_TARGET_DIR=/tmp/quiet.repo/t CARGO_NET_OFFLINE=true;"
    b = sh(e + "cargo test --workspace --features justjson/heapless --offline 2>&1; for f in std alloc heapless ''; do cargo check -p justjson --lib --no-default-features --features \"$f\" --offline || exit 1; done; rm -rf /tmp/quiet.repo")
    print("tests:", [l for l in b.stdout.splitlines() if l.startswith("test result") or "error" in l or "FAILED" in l][:12], "rc", b.returncode, flush=True)
    for p in props or [f"C{n:02}" for n in range(1, 29)]:
        t = time.time()
        r = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick bin/check {p}")
        if r.returncode == 0:
            print(f"quiet   {p} {time.time() - t:5.1f}s", flush=True)
        else:
            print(f"ALARM   {p} rc={r.returncode} {time.time() - t:5.1f}s", r.stdout[-1200:], flush=True)


def hunt(ids, props):
    if "HUNT" not in os.environ:
        enclose()
    base = os.path.join(V, "seeded")
    for i in sorted(os.listdir(base)):
        if ids and i not in ids:
            continue
        meta = json.load(open(f"{base}/{i}/meta.json"))
        a = sh(f"git -C /repo apply {base}/{i}/patch.diff")
        if a.returncode:
            print("NOAPPLY", i, a.stdout)
            continue
        try:
            for p in props or [meta["property"]]:
                t = time.time()
                r = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick bin/check {p}")
                hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                st = "CAUGHT" if r.returncode == 1 and hit else ("missed" if r.returncode == 0 else f"rc={r.returncode}")
                record(i, p, st)
                k = r.stdout.find("VIOLATION")
                m = r.stdout[k:].splitlines()[1:2] if hit else r.stdout.splitlines()[-1:]
                print(f"{st:7} {i:28} {p} {time.time() - t:5.1f}s {(m or [''])[0][:170]}", flush=True)
        finally:
            sh("git -C /repo checkout -q -- .")


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    if sys.argv[1] == "make":
        make(a[0], a[1:])
    elif sys.argv[1] == "quiet":
        pr = [x for x in sys.argv if x.startswith("--props=")]
        quiet(a[0], a[1:], pr[0][8:].split(",") if pr else None)
    else:
        pr = [x for x in sys.argv if x.startswith("--props=")]
        hunt(a, pr[0][8:].split(",") if pr else None)
