mod common;
mod corpus;
mod gen;
mod huge;
mod model;
mod props;
mod rt;
use rt::*;
use std::cell::RefCell;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static A: Counting = Counting;

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn last_panic() -> Option<(String, String)> {
    PANIC.with(|p| p.borrow_mut().take())
}

enum Verdict {
    Ok,
    Violation(String),
    Harness(String),
}

fn run_case(cx: &mut Ctx, p: &Prop, w: &Workload, idx: u64) -> Verdict {
    let h = mix(hash64(p.id.as_bytes()) ^ mix(hash64(w.name.as_bytes())) ^ mix(idx.wrapping_mul(77)) ^ cx.env.seed.wrapping_mul(0x9E37));
    cx.rng = Rng::new(h);
    let r = catch_unwind(AssertUnwindSafe(|| (w.run)(cx, idx)));
    match r {
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(m)) => Verdict::Violation(m),
        Err(_) => {
            let (m, loc) = last_panic().unwrap_or_default();
            if loc.starts_with("src/") {
                Verdict::Harness(format!("panic in the harness at {loc}: {m}"))
            } else {
                Verdict::Violation(format!("panic at {loc}: {m}"))
            }
        }
    }
}

fn load_env(args: &std::collections::HashMap<String, String>) -> Env {
    let seed = args.get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if args.get("tier").map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    rt::load_env(args.get("dict").map_or("", |s| s.as_str()), seed, tier)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((m, l)));
    }));
    let argv: Vec<String> = std::env::args().collect();
    let mut args = std::collections::HashMap::new();
    let mut pos = vec![];
    let mut i = 1;
    while i < argv.len() {
        if let Some(k) = argv[i].strip_prefix("--") {
            args.insert(k.to_string(), argv.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(argv[i].clone());
            i += 1;
        }
    }
    match pos.first().map(|s| s.as_str()) {
        Some("worker") => on_big_stack(move || worker(&pos[1], &args)),
        Some("replay") => on_big_stack(move || replay(&pos[1], &pos[2], pos[3].parse().unwrap_or(0), &args)),
        Some("distinct") => {
            let mut all = std::collections::HashSet::new();
            for f in &pos[1..] {
                let d = std::fs::read(f).unwrap_or_default();
                for c in d.chunks_exact(8) {
                    all.insert(u64::from_le_bytes(c.try_into().unwrap_or_default()));
                }
            }
            println!("{}", all.len());
        }
        Some("workloads") => {
            let env = load_env(&args);
            for p in props::ALL {
                for w in p.workloads {
                    println!("{} {} {}", p.id, w.name, (w.total)(&env));
                }
            }
        }
        Some("corpus") => {
            let small = args.get("small").and_then(|s| s.parse().ok()).unwrap_or(100);
            corpus::emit(&load_env(&args), &pos[1], small);
        }
        Some("specs") => {
            let count = args.get("count").and_then(|s| s.parse().ok()).unwrap_or(100);
            corpus::emit_specs(&load_env(&args), &pos[1], count);
        }
        Some("interpreted") => {
            // mon interpreted PROP WORKLOAD FIRST COUNT STEP: a few cases, without files, for Miri
            let (p, env) = (find(&pos[1]), load_env(&args));
            let w = p.workloads.iter().find(|w| w.name == pos[2]).expect("no such workload");
            let n = |i: usize| pos[i].parse::<u64>().expect("number");
            let mut cx = Ctx::new(&env);
            for k in 0..n(4) {
                let idx = n(3) + k * n(5);
                match run_case(&mut cx, p, w, idx) {
                    Verdict::Ok => println!("done {idx}"),
                    Verdict::Violation(m) => println!("violation {idx} {m}"),
                    Verdict::Harness(m) => println!("harness {idx} {m}"),
                }
            }
            for s in &cx.samples {
                println!("sample {s}");
            }
        }
        Some("rule") => {
            for p in props::ALL.iter().filter(|p| p.id == pos[1]) {
                println!("{}", p.rule);
            }
        }
        _ => {
            eprintln!("usage: mon worker|replay|distinct|workloads");
            std::process::exit(2);
        }
    }
}

fn on_big_stack<F: FnOnce() -> i32 + Send + 'static>(f: F) {
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(f).expect("thread");
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn find(id: &str) -> &'static Prop {
    props::ALL.iter().find(|p| p.id == id).expect("no such property")
}

fn worker(id: &str, args: &std::collections::HashMap<String, String>) -> i32 {
    let p = find(id);
    let env = load_env(args);
    let shard: u64 = args.get("shard").and_then(|s| s.parse().ok()).unwrap_or(0);
    let shards: u64 = args.get("shards").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = args.get("out").expect("--out").clone();
    let budget: u64 = args.get("budget").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let only = args.get("only").cloned();
    let t0 = std::time::Instant::now();
    let cur = std::fs::File::create(format!("{out}.cur")).expect("cur");
    let mut cx = Ctx::new(&env);
    let mut per: Vec<(String, u64, u64)> = vec![];
    let mut violations: Vec<(String, u64, String)> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut cut = false;
    'w: for (wi, w) in p.workloads.iter().enumerate() {
        if let Some(o) = &only {
            if !o.split(',').any(|o| o == w.name) {
                continue;
            }
        }
        let total = (w.total)(&env);
        let mut ran = 0;
        // spread consecutive indices over the shards, rotated per workload
        let mut idx = (shard + wi as u64) % shards;
        while idx < total {
            let mut b = [0u8; 24];
            b[..8].copy_from_slice(&(wi as u64).to_le_bytes());
            b[8..16].copy_from_slice(&idx.to_le_bytes());
            b[16..].copy_from_slice(&1u64.to_le_bytes());
            let _ = cur.write_all_at(&b, 0);
            match run_case(&mut cx, p, w, idx) {
                Verdict::Ok => {}
                Verdict::Violation(m) => violations.push((w.name.to_string(), idx, m)),
                Verdict::Harness(m) => harness.push(format!("{} {idx}: {m}", w.name)),
            }
            ran += 1;
            if violations.len() >= 3 || harness.len() >= 3 {
                per.push((w.name.to_string(), ran, total));
                break 'w;
            }
            if t0.elapsed().as_secs() > budget {
                cut = true;
                per.push((w.name.to_string(), ran, total));
                break 'w;
            }
            idx += shards;
        }
        per.push((w.name.to_string(), ran, total));
    }
    let mut j = String::new();
    use std::fmt::Write as _;
    let _ = write!(j, "{{\"evals\":{},\"distinct_overflow\":{},\"cut\":{},\"wall\":{:.3},", cx.evals, cx.distinct_overflow, cut, t0.elapsed().as_secs_f64());
    let _ = write!(j, "\"workloads\":{{");
    for (i, (n, r, t)) in per.iter().enumerate() {
        let _ = write!(j, "{}{}:[{r},{t}]", if i > 0 { "," } else { "" }, json_str(n));
    }
    let _ = write!(j, "}},\"counters\":{{");
    for (i, (k, v)) in cx.counters.iter().enumerate() {
        let _ = write!(j, "{}{}:{v}", if i > 0 { "," } else { "" }, json_str(k));
    }
    let _ = write!(j, "}},\"maxima\":{{");
    for (i, (k, v)) in cx.maxima.iter().enumerate() {
        let _ = write!(j, "{}{}:{v}", if i > 0 { "," } else { "" }, json_str(k));
    }
    let _ = write!(j, "}},\"samples\":[");
    for (i, s) in cx.samples.iter().enumerate() {
        let _ = write!(j, "{}{}", if i > 0 { "," } else { "" }, json_str(s));
    }
    let _ = write!(j, "],\"known\":{{");
    for (i, (k, (n, w))) in cx.known.iter().enumerate() {
        let _ = write!(j, "{}{}:[{n},{}]", if i > 0 { "," } else { "" }, json_str(k), json_str(w));
    }
    let _ = write!(j, "}},\"violations\":[");
    for (i, (w, x, m)) in violations.iter().enumerate() {
        let _ = write!(j, "{}[{},{x},{}]", if i > 0 { "," } else { "" }, json_str(w), json_str(m));
    }
    let _ = write!(j, "],\"harness\":[");
    for (i, s) in harness.iter().enumerate() {
        let _ = write!(j, "{}{}", if i > 0 { "," } else { "" }, json_str(s));
    }
    j.push_str("]}");
    let mut d = Vec::with_capacity(cx.distinct.len() * 8);
    for h in &cx.distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{out}.dist"), d).expect("dist");
    std::fs::File::create(format!("{out}.json")).and_then(|mut f| f.write_all(j.as_bytes())).expect("json");
    0
}

fn replay(id: &str, wl: &str, idx: u64, args: &std::collections::HashMap<String, String>) -> i32 {
    let p = find(id);
    let env = load_env(args);
    let w = p.workloads.iter().find(|w| w.name == wl).expect("no such workload");
    let mut cx = Ctx::new(&env);
    cx.verbose = true;
    match run_case(&mut cx, p, w, idx) {
        Verdict::Ok => {
            println!("OK: {} {} {} did not reproduce", id, wl, idx);
            0
        }
        Verdict::Violation(m) => {
            println!("REPRODUCED: {m}");
            1
        }
        Verdict::Harness(m) => {
            println!("HARNESS: {m}");
            3
        }
    }
}
