//! C23: the same operations under different histories, buffers and threads.
//!   probe history CORPUS reference MAXLEN              logs in corpus order, one line each
//!   probe history CORPUS MODE REFERENCE SEED [ARGS]    compares with a reference
//! Modes: reverse, shuffle, unwind, nested, reuse, solo, threads, share, traits, repeat. Prints one line
//! "DIFF ..." per deviation and "SEEN {...}" with what was observed.
use probe::ops::{self, Log, OPS};
use probe::*;
use justjson::doc::{Document, HeaplessDocument, Node};
use justjson::parser::Tokenizer;
use justjson::{AnyStr, Entry, JsonNumber, JsonString, Object, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Barrier, Mutex, OnceLock};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

const PANIC: u64 = 0xdead;
fn run(op: usize, d: &[u8], jitter: Option<fn(u64)>) -> u64 {
    let mut g = Log::new(false);
    g.jitter = jitter;
    // the same code runs in storage, hashers, iterators and conversions
    let _hook = ops::set_hook(jitter);
    match catch_unwind(AssertUnwindSafe(|| OPS[op].1(d, &mut g))) {
        Ok(()) => g.h,
        Err(_) => PANIC,
    }
}

type Ref = HashMap<(usize, usize), u64>;
fn load(path: &str) -> (usize, Ref) {
    let t = std::fs::read_to_string(path).expect("reference");
    let mut r = Ref::new();
    let mut max = 0;
    for l in t.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        if f[0] == "max" {
            max = f[1].parse().expect("max");
        } else {
            r.insert((f[0].parse().expect("index"), f[1].parse().expect("op")), u64::from_str_radix(f[2], 16).expect("hash"));
        }
    }
    (max, r)
}
fn items(b: &[u8], max: usize) -> Vec<(usize, Vec<u8>)> {
    read_corpus(b, 0).into_iter().filter(|(_, x)| x.flags & LONG == 0 && x.data.len() <= max).map(|(i, x)| (i, x.data)).collect()
}

#[derive(Default)]
struct Seen {
    diffs: Vec<String>,
    n: BTreeMap<&'static str, u64>,
}
impl Seen {
    fn add(&mut self, k: &'static str, n: u64) {
        *self.n.entry(k).or_default() += n;
    }
    fn diff(&mut self, i: usize, op: &str, how: String) {
        if self.diffs.len() < 20 {
            self.diffs.push(format!("DIFF {i} {op} {how}"));
        }
    }
    fn check(&mut self, r: &Ref, i: usize, op: usize, h: u64, how: &dyn Fn() -> String) {
        self.add("results_compared", 1);
        if r.get(&(i, op)) != Some(&h) {
            self.diff(i, OPS[op].0, how());
        }
    }
    fn done(self) -> i32 {
        for d in &self.diffs {
            println!("{d}");
        }
        let s: Vec<String> = self.n.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
        println!("SEEN {{{}}}", s.join(","));
        0
    }
}

pub fn main(b: &[u8], a: &[String]) -> i32 {
    if a[0] == "reference" {
        let max: usize = a[1].parse().expect("max");
        let mut out = format!("max {max}\n");
        for (i, d) in items(b, max) {
            for o in 0..OPS.len() {
                let _ = writeln!(out, "{i} {o} {:x}", run(o, &d, None));
            }
        }
        print!("{out}");
        return 0;
    }
    let (max, r) = load(&a[1]);
    let mut rng = Rng(a[2].parse::<u64>().expect("seed"));
    let mut it = items(b, max);
    let mut s = Seen::default();
    match a[0].as_str() {
        "reverse" => {
            it.reverse();
            for (i, d) in &it {
                for o in (0..OPS.len()).rev() {
                    s.check(&r, *i, o, run(o, d, None), &|| "after later payloads".into());
                }
            }
        }
        "shuffle" => {
            let mut v: Vec<(usize, usize)> = (0..it.len()).flat_map(|k| (0..OPS.len()).map(move |o| (k, o))).collect();
            rng.shuffle(&mut v);
            for (k, o) in v {
                let h = run(o, &it[k].1, None);
                s.check(&r, it[k].0, o, h, &|| "in another order".into());
                if rng.below(4) == 0 {
                    let h = run(o, &it[k].1, None);
                    s.check(&r, it[k].0, o, h, &|| "when repeated at once".into());
                }
            }
        }
        "unwind" => unwind(&mut s, &it, &r, &mut rng),
        "nested" => nested(&mut s, it, r, rng),
        "reuse" => reuse(&mut s, &mut it, &r, &mut rng),
        "solo" => {
            // the only call this process makes
            let k: usize = a[3].parse().expect("which");
            let o = rng.below(OPS.len());
            let (i, d) = &it[k * 7919 % it.len()];
            s.check(&r, *i, o, run(o, d, None), &|| "as the first call of a process".into());
        }
        "threads" => threads(&mut s, it, &r, rng, a[3].parse().expect("threads"), a[4].parse().expect("rounds")),
        "share" => share(&mut s, it, rng, a[3].parse().expect("threads"), a[4].parse().expect("stride")),
        "traits" => traits(&mut s),
        "repeat" => repeat(&mut s, a[3].parse().expect("which"), a[4].parse().expect("times")),
        m => panic!("no mode {m}"),
    }
    s.done()
}

thread_local! {
    static LEFT: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// Panics in the caller's own code (a delegate's event, a destination's write).
fn boom(_: u64) {
    let n = LEFT.get();
    LEFT.set(n.wrapping_sub(1));
    if n == 0 {
        panic!("interrupted");
    }
}
/// Each call after calls that a panic of the caller's code cut short.
fn unwind(s: &mut Seen, it: &[(usize, Vec<u8>)], r: &Ref, rng: &mut Rng) {
    let mut v: Vec<(usize, usize)> = (0..it.len()).flat_map(|k| (0..OPS.len()).map(move |o| (k, o))).collect();
    rng.shuffle(&mut v);
    for (k, o) in v {
        let (i, d) = &it[k];
        for _ in 0..1 + rng.below(3) {
            let (x, p) = if rng.below(3) > 0 { (d, o) } else { (&it[rng.below(it.len())].1, rng.below(OPS.len())) };
            let far = 1 << rng.below(8);
            LEFT.set(rng.below(far));
            let h = run(p, x, Some(boom));
            s.add("calls_cut_short", (h == PANIC) as u64);
        }
        s.check(r, *i, o, run(o, d, None), &|| "after calls cut short by a panic of the caller".into());
    }
}

type Within = (Vec<(usize, Vec<u8>)>, Ref);
static WITHIN: OnceLock<Within> = OnceLock::new();
struct Inner {
    rng: Rng,
    depth: usize,
    left: usize,
    seen: Seen,
}
impl Inner {
    fn arm(&mut self) {
        let far = 1 << self.rng.below(8);
        self.left = self.rng.below(far);
    }
}
thread_local! {
    static INNER: RefCell<Inner> = RefCell::new(Inner { rng: Rng(0), depth: 0, left: 0, seen: Seen::default() });
}
/// Another call of the library, made by the caller's code inside the first.
fn inner(_: u64) {
    let (it, r) = WITHIN.get().expect("set");
    let pick = INNER.with_borrow_mut(|n| {
        // at a point chosen beforehand, then once more inside that call
        if n.left > 0 || n.depth >= 3 {
            n.left = n.left.saturating_sub(1);
            return None;
        }
        n.depth += 1;
        n.arm();
        Some((n.rng.below(it.len()), n.rng.below(OPS.len())))
    });
    if let Some((k, o)) = pick {
        let h = run(o, &it[k].1, Some(inner));
        INNER.with_borrow_mut(|n| {
            n.depth -= 1;
            n.left = usize::MAX;
            n.seen.add("calls_inside_calls", 1);
            n.seen.check(r, it[k].0, o, h, &|| "made inside another call".into());
        });
    }
}
fn nested(s: &mut Seen, it: Vec<(usize, Vec<u8>)>, r: Ref, mut rng: Rng) {
    let mut v: Vec<(usize, usize)> = (0..it.len()).flat_map(|k| (0..OPS.len()).map(move |o| (k, o))).collect();
    rng.shuffle(&mut v);
    INNER.with_borrow_mut(|n| n.rng = Rng(rng.next()));
    let (it, r) = WITHIN.get_or_init(|| (it, r));
    for (k, o) in v {
        INNER.with_borrow_mut(Inner::arm);
        let h = run(o, &it[k].1, Some(inner));
        s.check(r, it[k].0, o, h, &|| "with other calls made inside it".into());
    }
    INNER.with_borrow_mut(|n| {
        for (k, c) in std::mem::take(&mut n.seen.n) {
            s.add(k, c);
        }
        s.diffs.append(&mut n.seen.diffs);
    });
}

/// One buffer for every payload: same address, often the same length, other
/// contents; each payload again after a payload of the same length.
fn reuse(s: &mut Seen, it: &mut [(usize, Vec<u8>)], r: &Ref, rng: &mut Rng) {
    it.sort_by_key(|x| x.1.len());
    let cap = it.last().map_or(0, |x| x.1.len());
    let mut buf = vec![0u8; cap + 64];
    let mut ops: Vec<usize> = (0..OPS.len()).collect();
    for k in 0..it.len() {
        let (i, d) = (it[k].0, it[k].1.clone());
        let n = d.len();
        rng.shuffle(&mut ops);
        // a neighbour of the same length with a changed byte, judged elsewhere
        let mut e = d.clone();
        if n > 0 {
            let at = rng.below(n);
            e[at] = *[b'0', b'"', b'a', b'\\', b' ', b'1', b'x', 0xc3].get(rng.below(8)).unwrap_or(&b'0');
        }
        let twin = e.clone().into_boxed_slice();
        let pick = [ops[0], ops[1], ops[2]];
        let fresh: Vec<u64> = pick.iter().map(|o| run(*o, &twin, None)).collect();
        buf[..n].copy_from_slice(&d);
        for o in &ops {
            s.check(r, i, *o, run(*o, &buf[..n], None), &|| "in a reused buffer".into());
        }
        buf[..n].copy_from_slice(&e);
        for (o, f) in pick.iter().zip(&fresh) {
            s.add("results_compared", 1);
            if run(*o, &buf[..n], None) != *f {
                s.diff(i, OPS[*o].0, format!("edited in place to {:?}", String::from_utf8_lossy(&e)));
            }
        }
        buf[..n].copy_from_slice(&d);
        for o in &pick {
            s.check(r, i, *o, run(*o, &buf[..n], None), &|| "edited in place and back".into());
        }
        // at another alignment
        let sh = 1 + k % 17;
        buf.copy_within(..n, sh);
        for o in &pick {
            s.check(r, i, *o, run(*o, &buf[sh..sh + n], None), &|| format!("at an address shifted by {sh}"));
        }
        s.add("buffer_reuses", 4);
    }
}

/// What each thread is doing, to see which operations really overlapped.
static NOW: [AtomicUsize; 64] = [const { AtomicUsize::new(0) }; 64];
static JITTER: AtomicU64 = AtomicU64::new(0);
fn jitter(h: u64) {
    if h % 13 == 0 {
        JITTER.fetch_add(1, Relaxed);
        std::thread::yield_now();
    }
}
fn overlap(me: usize, n: usize, op: usize, pairs: &mut [bool]) -> bool {
    let mut any = false;
    for (t, x) in NOW.iter().enumerate().take(n) {
        let o = x.load(Relaxed);
        if t != me && o > 0 {
            pairs[op * 64 + o - 1] = true;
            any = true;
        }
    }
    any
}

/// Unrelated calls on every thread at once.
fn threads(s: &mut Seen, it: Vec<(usize, Vec<u8>)>, r: &Ref, mut rng: Rng, n: usize, rounds: usize) {
    let all = Mutex::new(s);
    let barrier = Barrier::new(n);
    let (it, barrier, all) = (&it, &barrier, &all);
    std::thread::scope(|sc| {
        for t in 0..n {
            let mut g = Rng(rng.next());
            let same = t % 2 == 0;
            sc.spawn(move || {
                let mut me = Seen::default();
                let mut pairs = vec![false; 64 * 64];
                let mut order: Vec<usize> = (0..it.len()).collect();
                if same {
                    // half of the threads walk the same order at the same time
                    Rng(7).shuffle(&mut order);
                } else {
                    g.shuffle(&mut order);
                }
                barrier.wait();
                for _ in 0..rounds {
                    for &k in &order {
                        let (i, d) = &it[k];
                        for _ in 0..3 {
                            let o = if same { (k + me.n.len()) % OPS.len() } else { g.below(OPS.len()) };
                            NOW[t].store(o + 1, Relaxed);
                            let j: Option<fn(u64)> = if g.below(3) == 0 { Some(jitter) } else { None };
                            let before = overlap(t, n, o, &mut pairs);
                            let h = run(o, d, j);
                            let after = overlap(t, n, o, &mut pairs);
                            NOW[t].store(0, Relaxed);
                            me.check(r, *i, o, h, &|| format!("while {} other threads work", n - 1));
                            me.add("calls_that_overlapped", (before || after) as u64);
                            if g.below(16) == 0 {
                                std::thread::yield_now();
                            }
                        }
                    }
                }
                let mut s = all.lock().unwrap();
                for (k, v) in me.n {
                    s.add(k, v);
                }
                s.diffs.extend(me.diffs);
                s.add("thread_pair_observations", pairs.iter().filter(|x| **x).count() as u64);
            });
        }
    });
    let mut s = all.lock().unwrap();
    s.add("forced_switches", JITTER.load(Relaxed));
    s.add("threads", n as u64);
}

/// Shares a value whatever its marker traits say; `traits` judges those.
struct Force<T>(T);
unsafe impl<T> Sync for Force<T> {}
unsafe impl<T> Send for Force<T> {}

/// Everything parsed from one payload, read by many threads.
struct Parsed<'a> {
    value: Option<Value<'a>>,
    doc: Option<Document<'a>>,
    small: Option<HeaplessDocument<'a, 64>>,
    strings: Vec<JsonString<'a>>,
    owned: Vec<JsonString<'a>>,
    numbers: Vec<JsonNumber<'a>>,
    texts: Vec<AnyStr<'a>>,
}
fn parse(d: &[u8]) -> Parsed<'_> {
    let mut p = Parsed {
        value: Value::from_json_bytes(d).ok(),
        doc: Document::from_json_bytes(d).ok(),
        small: HeaplessDocument::from_json_bytes(d).ok(),
        strings: vec![],
        owned: vec![],
        numbers: vec![],
        texts: vec![],
    };
    for t in Tokenizer::for_json_bytes(d).take(40).flatten() {
        match t {
            justjson::parser::Token::String(j) => {
                p.owned.push(JsonString::from(j.decode_if_needed().to_string()));
                p.texts.push(AnyStr::from(j.to_string()));
                p.strings.push(j);
            }
            justjson::parser::Token::Number(n) => p.numbers.push(n),
            _ => {}
        }
    }
    p
}
fn read(p: &Parsed<'_>, j: Option<fn(u64)>, part: usize) -> u64 {
    let mut g = Log::new(false);
    g.jitter = j;
    match part {
        0 => {
            if let Some(v) = &p.value {
                let _ = v.write_json_to(&mut g);
                let _ = v.pretty_write_json_to(&mut g);
                let _ = write!(g, "{} {:?} {:?} {}", v, v.as_f64().map(f64::to_bits), v.get("a").map(|x| x.to_json()), v == v);
                if let Some(o) = v.as_object() {
                    for e in o.iter().take(20) {
                        let _ = write!(g, "{}", o.get(&e.key.decode_if_needed()).map_or(0, |x| x.to_json().len()));
                    }
                }
            }
        }
        1 => {
            if let Some(d) = &p.doc {
                for n in d.iter() {
                    ops::node(&mut g, &n);
                }
                let mut i = d.iter();
                while let Some(v) = i.next_value() {
                    let _ = v.write_json_to(&mut g);
                }
                let _ = write!(g, "{}", d == d);
            }
            if let Some(d) = &p.small {
                for n in d.iter() {
                    if let Node::String(s) = &n {
                        let _ = write!(g, "{}", s.decoded());
                    }
                }
            }
        }
        2 => {
            for s in p.strings.iter().filter(|s| s.len() < 500) {
                ops::string(&mut g, s);
                let _ = write!(g, "{}", s.decode_if_needed().as_str());
            }
        }
        3 => {
            for (a, b) in p.owned.iter().zip(&p.strings).filter(|x| x.0.len() < 500) {
                ops::string(&mut g, a);
                let _ = write!(g, "{} {:?} {}", a == b, b.cmp(a), a.clone().escape_if_needed().as_str());
            }
        }
        _ => {
            for n in &p.numbers {
                if n.source().len() < 300 {
                    ops::number(&mut g, n);
                }
            }
            for t in &p.texts {
                let _ = write!(g, "{} {}", t.as_str(), *t == t.clone());
            }
        }
    }
    g.h
}
fn share(s: &mut Seen, it: Vec<(usize, Vec<u8>)>, mut rng: Rng, n: usize, stride: usize) {
    const PARTS: usize = 5;
    let batch: Vec<(usize, Force<Parsed<'_>>, Vec<u64>)> = it
        .iter()
        .step_by(stride)
        .map(|(i, d)| {
            let p = parse(d);
            let want = (0..PARTS).map(|k| read(&p, None, k)).collect();
            (*i, Force(p), want)
        })
        .collect();
    let barrier = Barrier::new(n);
    let all = Mutex::new(s);
    {
        let (batch, barrier, all) = (&batch, &barrier, &all);
        std::thread::scope(|sc| {
            for t in 0..n {
                let mut g = Rng(rng.next());
                sc.spawn(move || {
                    let mut pairs = vec![false; 64 * 64];
                    let (mut reads, mut over) = (0, 0);
                    let mut bad = vec![];
                    barrier.wait();
                    for (k, (i, p, want)) in batch.iter().enumerate() {
                        // meet from time to time, so that the same objects are read at once
                        if k % 16 == 0 {
                            barrier.wait();
                        }
                        let first = g.below(PARTS);
                        for q in 0..PARTS {
                            let part = if t % 2 == 0 { q } else { (first + q) % PARTS };
                            NOW[t].store(part + 1, Relaxed);
                            let j: Option<fn(u64)> = if g.below(2) == 0 { Some(jitter) } else { None };
                            let h = catch_unwind(AssertUnwindSafe(|| read(&p.0, j, part))).unwrap_or(PANIC);
                            over += overlap(t, n, part, &mut pairs) as u64;
                            NOW[t].store(0, Relaxed);
                            reads += 1;
                            if h != want[part] {
                                bad.push((*i, part));
                            }
                        }
                    }
                    let mut s = all.lock().unwrap();
                    s.add("shared_reads", reads);
                    s.add("results_compared", reads);
                    s.add("shared_reads_that_overlapped", over);
                    for (i, part) in bad {
                        s.diff(i, ["value", "document", "strings", "owned strings", "numbers and texts"][part], "read by several threads at once".into());
                    }
                });
            }
        });
    }
    // sent to another thread, dropped there
    let moved = batch.len();
    let h = std::thread::scope(|sc| {
        let x = Force(batch);
        sc.spawn(move || {
            let x = x;
            let x = x;
            let mut bad = vec![];
            for (i, p, want) in { let Force(v) = x; v } {
                for (k, w) in want.iter().enumerate() {
                    if read(&p.0, None, k) != *w {
                        bad.push((i, k));
                    }
                }
            }
            bad
        })
        .join()
    });
    let mut s = all.lock().unwrap();
    s.add("objects_sent", moved as u64 * PARTS as u64);
    s.add("forced_switches", JITTER.load(Relaxed));
    match h {
        Ok(bad) => {
            for (i, k) in bad {
                s.diff(i, "moved", format!("part {k} read on another thread"));
            }
        }
        Err(_) => s.diff(0, "moved", "panic after moving to another thread".into()),
    }
}

/// Single calls, to be made very many times over.
const CALLS: &[(&str, fn() -> u64)] = {
    use justjson::doc::GenericDocument;
    use justjson::parser::{ParseConfig, Parser};
    fn ok<T, E: std::fmt::Debug>(r: Result<T, justjson::Error<E>>, f: impl FnOnce(T) -> u64) -> u64 {
        match r {
            Ok(v) => f(v),
            Err(e) => 1 << 40 | (e.offset() as u64) << 20 | text(&format!("{:?}", e.kind())) >> 44,
        }
    }
    fn text(s: &str) -> u64 {
        s.bytes().fold(7, |h: u64, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
    }
    const FREE: ParseConfig = ParseConfig::new().without_recursion_limit();
    &[
        ("validate unlimited", || ok(Parser::validate_json_with_config("[[1],{}]", FREE), |k| k as u64)),
        ("validate default", || ok(Parser::validate_json("[[1],{}]"), |k| k as u64)),
        ("validate bytes strict", || ok(Parser::validate_json_bytes_with_config(b"{\"a\":[]}", ParseConfig::strict()), |k| k as u64)),
        ("validate limited", || ok(Parser::validate_json_with_config("[[1],{}]", ParseConfig::new().with_recursion_limit(2)), |k| k as u64)),
        ("validate too deep", || ok(Parser::validate_json_with_config("[[1],[[]]]", ParseConfig::new().with_recursion_limit(2)), |k| k as u64)),
        ("validate unclosed", || ok(Parser::validate_json_with_config("[{\"a\":[", FREE), |k| k as u64)),
        ("validate bad UTF-8", || ok(Parser::validate_json_bytes(b"[[\"\xff\"]]"), |k| k as u64)),
        ("validate trailing", || ok(Parser::validate_json_with_config("[1,[2,],]", ParseConfig::new().allowing_trailing_commas()), |k| k as u64)),
        ("validate a scalar", || ok(Parser::validate_json_with_config("1", ParseConfig::strict()), |k| k as u64)),
        ("value", || ok(Value::from_json("{\"a\":[1,\"\\u00e9\"],\"b\":{}}"), |v| text(&v.to_json()))),
        ("value unlimited", || ok(Value::from_json_with_config("[{},[[]]]", FREE), |v| text(&v.to_json_pretty()))),
        ("value rejected", || ok(Value::from_json("{\"a\":[1,{\"b\"}]}"), |v| text(&v.to_json()))),
        ("document", || ok(Document::from_json("[1,{\"a\":[]}]"), |d| d.iter().count() as u64)),
        ("document unlimited", || ok(Document::from_json_with_config("[[[]]]", FREE), |d| d.iter().count() as u64)),
        ("document too large", || ok(HeaplessDocument::<3>::from_json("[1,2,3]"), |d| d.iter().count() as u64)),
        ("document heapless", || ok(HeaplessDocument::<8>::from_json_bytes_with_config(b"[[1],2]", FREE), |d| d.iter().count() as u64)),
        ("document own storage", || ok(GenericDocument::<'_, Vec<Node<'_>>>::from_json("[{},1]"), |d| d.iter().count() as u64)),
        ("tokens", || Tokenizer::for_json("[1,\"a\",{}] x").map(|t| ok(t, |_| 1)).fold(1, |a, b| a * 31 + b)),
        ("peek", || {
            let mut t = Tokenizer::for_json_bytes(b" [1]");
            let p = t.peek();
            t.next();
            text(&format!("{p:?} {:?}", t.peek()))
        }),
        ("string", || ok(JsonString::from_json("\"a\\n\\ud83d\\ude00\""), |j| text(&j.decoded().collect::<String>()) ^ j.decoded_len() as u64)),
        ("string rejected", || ok(JsonString::from_json("\"a\\ud83d\""), |j| j.decoded_len() as u64)),
        ("encode", || {
            let j = JsonString::from("a\n\u{1}\"");
            text(&j.as_json().to_string()) ^ j.len() as u64 ^ text(j.escape_if_needed().as_str())
        }),
        ("compare", || {
            let (a, b) = (JsonString::from_json("\"a\\u0062\"").unwrap(), JsonString::from("ab"));
            (a == b) as u64 + 2 * (a.cmp(&b) as i8 as u64) + 4 * (b == *"ab") as u64
        }),
        ("number", || ok(JsonNumber::from_json("-12.5e1"), |n| n.as_f64().map_or(9, f64::to_bits) ^ n.as_i64().map_or(3, |x| x as u64))),
        ("numbers", || ok(JsonNumber::from_json("200"), |n| n.as_u8().map_or(9, u64::from) + n.as_i8().map_or(1000, |x| x as u64))),
        ("lookup", || {
            let v = Value::from_json("{\"a\":1,\"\\u0062\":2,\"b\":3}").unwrap();
            v.get("b").map_or(1, |x| text(&x.to_json())) ^ v.get("c").is_some() as u64 ^ v.get_index(0).is_some() as u64
        }),
        ("edit", || {
            let mut v = Value::from_json("{\"a\":1,\"b\":2}").unwrap();
            if let Some(x) = v.get_mut("b") {
                *x = Value::from("new");
            }
            text(&v.to_json())
        }),
        ("text", || (AnyStr::from("ab") == AnyStr::from("ab".to_string())) as u64 + 2 * (AnyStr::from("a") < AnyStr::from("b")) as u64),
    ]
};
/// One call again and again, then every other call once. What those give is
/// printed, to be compared with what they give as the first call of a process.
fn repeat(s: &mut Seen, k: usize, times: u64) {
    let Some((name, f)) = CALLS.get(k) else { return };
    let first = f();
    for n in 1..times {
        let x = f();
        if x != first {
            s.diff(0, "repeat", format!("{name} gives {x:x} at call {n} and {first:x} at first"));
            break;
        }
    }
    s.add("repeated_calls", times);
    println!("FIRST {k} {first:x} {name}");
    for (j, (name, f)) in CALLS.iter().enumerate() {
        println!("LATER {j} {:x} {name}", f());
    }
}

struct P<T>(PhantomData<T>);
trait NoSend {
    fn send(&self) -> bool {
        false
    }
}
trait NoSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T> NoSend for &P<T> {}
impl<T> NoSync for &P<T> {}
trait YesSend {
    fn send(&self) -> bool {
        true
    }
}
trait YesSync {
    fn sync(&self) -> bool {
        true
    }
}
impl<T: Send> YesSend for P<T> {}
impl<T: Sync> YesSync for P<T> {}
/// The marker traits, asked so that a missing one is an answer and no error.
fn traits(s: &mut Seen) {
    macro_rules! ask {
        ($($t:ty),*) => { $(
            let p = P::<$t>(PhantomData);
            let (a, b) = ((&p).send(), (&p).sync());
            s.add("marker_traits_checked", 2);
            if !a || !b {
                s.diff(0, stringify!($t), format!("is {}sendable and {}shareable between threads", if a { "" } else { "not " }, if b { "" } else { "not " }));
            }
        )* };
    }
    ask!(Value<'static>, Object<'static>, Entry<'static>, JsonString<'static>, JsonNumber<'static>, AnyStr<'static>, Document<'static>, Node<'static>, HeaplessDocument<'static, 8>);
    struct NotSync(#[allow(dead_code)] std::cell::Cell<u8>, #[allow(dead_code)] *const u8);
    let p = P::<NotSync>(PhantomData);
    assert!(!(&p).send() && !(&p).sync(), "the question itself works");
}
