#!/usr/bin/env python3
"""Small mutants of /repo's non-test sources that still pass the tests.
  mutate.py gen OUT.json      list mutants (text edits) that compile and pass the existing tests
  mutate.py run OUT.json RES.json [--from=N] [--n=N]   run the checks against each survivor until one fires
Mutants are only a measuring stick: no check reads them."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["parser", "string", "value", "doc", "number", "anystr", "error"]
SUBS = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" > ", [" >= "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r"\+= 1\b", ["+= 2", "-= 1"]), (r"-= 1\b", ["-= 2", "+= 0"]), (r"\+ 5\b", ["+ 4", "+ 6"]), (r"\+ 7\b", ["+ 6"]), (r"\+ 11\b", ["+ 10"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.\.=", [".."]), (r"\b0\.\.4\b", ["0..3", "0..5"]), (r"\b0\.\.6\b", ["0..5", "0..7"]),
    (r"<< 4", ["<< 3"]), (r">> 12", [">> 8"]), (r"\boffset: 0,", ["offset: 1,"]), (r"Some\(128\)", ["Some(127)", "None"]),
    (r"Ordering::Less\b", ["Ordering::Greater"]), (r"Ordering::Greater\b", ["Ordering::Less"]), (r"\.reverse\(\)", [""]),
    (r"ErrorKind::(\w+)", ["ErrorKind::UnexpectedEof", "ErrorKind::Utf8"]),
    (r"\|\s*b'[^']+'", [""]), (r"b'(\w)'", ["b'~'"]), (r"!(?=[a-z(])", [""]), (r"\bself\.source\.offset\b", ["start", "self.source.offset - 1"]),
    (r"\badd_bytes\(1\)", ["add_bytes(0)"]), (r"add_bytes_from_escape\((\w)\)", ["add_bytes_from_escape(1)", "add_bytes(2)"]),
    (r"\.len\(\)", [".len() + 1"]), (r"\blen_utf8\(\)", ["len_utf8() + 1"]), (r"0x7FFF_FFFF_FFFF_FFFF", ["0x7FFF_FFFF", "0x0FFF_FFFF_FFFF_FFFF"]),
    (r"if PRETTY\b", ["if !PRETTY", "if true"]), (r"\?;", [";"]), (r"\.expected_length\(\)", [".0"]), (r"\bcontinue\b", ["break"]),
    (r"\bself\b(?=\.decoded_len|\.info)", ["other"]), (r"\bother\b(?=\.decoded_len|\.info)", ["self"]), (r"has_escapes\(\)", ["has_escapes() && false", "has_escapes() || true"]),
    (r"_MIN\b", ["_MAX"]), (r"_MAX\b", ["_MIN"]), (r"\bERR,", ["0__,"]), (r"\bQU, ", ["__, "]), (r"\bBS, ", ["__, "]), (r"\bER, ", ["__, "]), (r"\bUC, ", ["__, "]), (r"(?<= )__, ", ["ER, "]),
]
DELETE = re.compile(r"^\s+(self|state|string_info|\*?len|array|object|obj|values|nodes)[\w.()*]*[^;{}]*;\s*$")


def candidates():
    out = []
    for f in FILES:
        p = f"src/{f}.rs"
        src = open("/repo/" + p).read()
        lines = src.split("\n")
        skip, depth, pending = False, 0, False
        for n, l in enumerate(lines):
            if re.match(r"#\[test\]|#\[cfg\(test\)\]", l):
                pending = True
            if pending and l.startswith(("fn ", "mod ", "macro_rules")):
                skip, pending = True, False
            code = l.split("//")[0]
            if not skip and code.strip() and not code.strip().startswith(("#[", "use ", "pub use")):
                table = f == "string" and re.match(r"\s+([0-9A-Z_]{2,3}, ){8,}", code)
                for pat, reps in SUBS:
                    ms = list(re.finditer(pat, code))
                    if table:
                        ms = ms[:1] + ms[-1:] if len(ms) > 1 else ms
                    for m in ms:
                        for r in reps:
                            if r != m.group(0):
                                new = code[:m.start()] + r + code[m.end():] + l[len(code):]
                                out.append((p, n, new))
                if DELETE.match(code):
                    out.append((p, n, ""))
            if skip and l == "}":
                skip = False
    return out


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def apply(root, m):
    p, n, new = m
    src = open(f"{root}/{p}").read().split("\n")
    old = src[n]
    src[n] = new
    open(f"{root}/{p}", "w").write("\n".join(src))
    return old


def gen(out, jobs=6):
    cs = candidates()
    print(len(cs), "candidates", flush=True)
    lab = "/tmp/mutlab"
    shutil.rmtree(lab, ignore_errors=True)
    os.makedirs(lab)
    for k in range(jobs):
        sh(f"git clone -q /repo {lab}/{k} && cp /repo/Cargo.lock {lab}/{k}/; cd {lab}/{k} && sed -i -E 's/, *\"xtask\"|\"xtask\" *,? *//' Cargo.toml")
        sh(f"cd {lab}/{k} && CARGO_TARGET_DIR={lab}/t{k} CARGO_NET_OFFLINE=true cargo test -p justjson --features heapless --no-run --offline")
    free = list(range(jobs))
    stats = {"nocompile": 0, "killed": 0, "survived": 0}
    alive = []

    def one(m):
        k = free.pop()
        try:
            root = f"{lab}/{k}"
            p, n, _ = m
            src = open(f"{root}/{p}").read()
            apply(root, m)
            e = f"cd {root} && export CARGO_TARGET_DIR={lab}/t{k} CARGO_NET_OFFLINE=true;"
            r = sh(e + "timeout 100 cargo test -p justjson --features heapless --no-run --offline && { timeout 60 cargo test -p justjson --features heapless --lib --tests --offline -q || exit 7; }")
            if r.returncode == 0:
                r = sh(e + "for f in std alloc heapless ''; do cargo check -p justjson --lib --no-default-features --features \"$f\" --offline || exit 1; done; timeout 100 cargo test -p justjson --features heapless --doc --offline -q || exit 7")
            open(f"{root}/{p}", "w").write(src)
            return m, r.returncode
        finally:
            free.append(k)

    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for i, (m, rc) in enumerate(ex.map(one, cs)):
            stats["survived" if rc == 0 else "killed" if rc in (7, 124) else "nocompile"] += 1
            if rc == 0:
                alive.append(m)
            if i % 100 == 0:
                print(i, stats, flush=True)
                json.dump(alive, open(out, "w"), indent=0)
    json.dump(alive, open(out, "w"), indent=0)
    print(stats, flush=True)
    shutil.rmtree(lab, ignore_errors=True)


ORDER = {
    "parser": "C18 C17 C03 C02 C16 C04 C01 C05 C15 C19 C27 C14 C24 C20 C22 C23 C06 C09".split(),
    "string": "C06 C07 C08 C26 C10 C20 C17 C19 C27 C24 C12 C22 C23 C18".split(),
    "value": "C21 C05 C11 C10 C12 C13 C09 C20 C19 C25 C24 C22 C14".split(),
    "doc": "C14 C15 C20 C24 C19 C22 C16 C04".split(),
    "number": "C13 C04 C16 C18 C19 C22".split(),
    "anystr": "C25 C08 C20 C22 C23".split(),
    "error": "C28 C18 C12 C04 C22 C19".split(),
}


def run(out, res, first, count):
    if "HUNT" not in os.environ:
        d = f"/tmp/hunt.{os.getpid()}"
        os.makedirs(d)
        sh(f"cp -a /repo {d}/repo; cp -a {V} {d}/verif")
        cmd = f"mount --bind {d}/repo /repo && mount --bind {d}/verif {V} && cd {V} && HUNT=1 exec python3 tools/mutate.py run {out} {res} --from={first} --n={count}"
        r = subprocess.run(["unshare", "-m", "sh", "-c", cmd])
        shutil.rmtree(d)
        sys.exit(r.returncode)
    alive = json.load(open(out))
    done = json.load(open(res)) if os.path.exists(res) else {}
    for i, m in enumerate(alive[first:first + count], first):
        if str(i) in done:
            continue
        p, n, new = m
        src = open("/repo/" + p).read()
        old = apply("/repo", m)
        t = time.time()
        seq = ORDER[os.path.basename(p)[:-3]]
        hit = None
        try:
            for c in seq:
                r = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER=quick bin/check {c}")
                if r.returncode:
                    hit = c if r.returncode == 1 and "VIOLATION" in r.stdout else f"{c} rc={r.returncode} {r.stdout[-300:]}"
                    break
        finally:
            open("/repo/" + p, "w").write(src)
        done[str(i)] = {"file": p, "line": n + 1, "old": old.strip(), "new": new.strip(), "hit": hit}
        json.dump(done, open(res, "w"), indent=0)
        print(i, hit or "MISSED", p, n + 1, "|", old.strip(), "|", new.strip(), f"{time.time() - t:.0f}s", flush=True)


if __name__ == "__main__":
    o = {x.split("=")[0]: int(x.split("=")[1]) for x in sys.argv if x.startswith("--")}
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    if sys.argv[1] == "gen":
        gen(a[0])
    else:
        run(a[0], a[1], o.get("--from", 0), o.get("--n", 10**9))
