//! Run-time support: PRNG, counting allocator, case context, panic capture.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};

// ---------------------------------------------------------------- allocator
pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static ALLOC_BYTES: Cell<u64> = const { Cell::new(0) };
}
static TOTAL: AtomicUsize = AtomicUsize::new(0);
/// A single process never legitimately needs this much; beyond it allocations
/// fail, which aborts the worker and is seen by the driver.
const CAP: usize = 3 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if TOTAL.fetch_add(l.size(), Ordering::Relaxed) + l.size() > CAP {
            return std::ptr::null_mut();
        }
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + l.size() as i64));
        let _ = ALLOC_BYTES.try_with(|c| c.set(c.get() + l.size() as u64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        TOTAL.fetch_sub(l.size(), Ordering::Relaxed);
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && TOTAL.fetch_add(n - l.size(), Ordering::Relaxed) + n > CAP {
            return std::ptr::null_mut();
        }
        if n < l.size() {
            TOTAL.fetch_sub(l.size() - n, Ordering::Relaxed);
        }
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        let _ = LIVE_BYTES.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        let _ = ALLOC_BYTES.try_with(|c| c.set(c.get() + n as u64));
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Mem {
    pub allocs: u64,
    pub live: i64,
    pub live_bytes: i64,
    pub bytes: u64,
}
pub fn mem() -> Mem {
    Mem {
        allocs: ALLOCS.with(|c| c.get()),
        live: LIVE.with(|c| c.get()),
        live_bytes: LIVE_BYTES.with(|c| c.get()),
        bytes: ALLOC_BYTES.with(|c| c.get()),
    }
}

// --------------------------------------------------------------------- PRNG
#[derive(Clone)]
pub struct Rng(u64, u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let a = mix(seed);
        Rng(a, mix(a) | 1)
    }
    pub fn next(&mut self) -> u64 {
        let (mut s1, s0) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub fn hash64(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    for c in b.chunks(8) {
        let mut x = 0u64;
        for (i, v) in c.iter().enumerate() {
            x |= (*v as u64) << (8 * i);
        }
        h = mix(h ^ x);
    }
    h
}

// ------------------------------------------------------------------ staging
thread_local! {
    static STAGE: Cell<Vec<u8>> = const { Cell::new(Vec::new()) };
}
/// Runs `f` on a copy of `s` that lies at an address of any alignment, between
/// bytes that would change its meaning if they were read.
pub fn staged<T>(s: &[u8], f: impl FnOnce(&[u8]) -> T) -> T {
    // the sanitizers need exact bounds
    if cfg!(miri) || cfg!(exact) {
        return f(s);
    }
    const AROUND: [u8; 16] = *b"\"\\0]}e ,9\x80\xbfu[:.\n";
    let h = mix(s.len() as u64 ^ hash64(&s[..s.len().min(24)]));
    let mut b = STAGE.take();
    b.clear();
    b.reserve(s.len() + 96);
    let base = b.as_ptr() as usize;
    let to = 16 + if h & 1 == 0 { (h >> 1) as usize % 16 } else { 0 };
    let pad = (to + 16 - base % 16) % 16 + 16;
    b.resize(pad, AROUND[(h >> 8) as usize % 16]);
    b.extend_from_slice(s);
    b.resize(pad + s.len() + 24, AROUND[(h >> 12) as usize % 16]);
    let r = f(&b[pad..pad + s.len()]);
    STAGE.set(b);
    r
}
/// The same for text.
pub fn staged_str<T>(s: &str, f: impl FnOnce(&str) -> T) -> T {
    staged(s.as_bytes(), |b| f(unsafe { std::str::from_utf8_unchecked(b) }))
}

// ------------------------------------------------------------------ context
pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Literals found in the crate's source: a workload dictionary.
#[derive(Default, Clone)]
pub struct Dict {
    pub ints: Vec<usize>,
    pub strs: Vec<Vec<u8>>,
    /// payload corpus (files)
    pub corpus: Vec<Vec<u8>>,
    /// payloads grown by the guide for the coverage they reach
    pub guided: Vec<Vec<u8>>,
}

pub fn load_env(path: &str, seed: u64, tier: Tier) -> Env {
    let mut dict = Dict::default();
    let unhex = |h: &str| (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect::<Vec<u8>>();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        match l.split_at_checked(2) {
            Some(("i ", n)) => dict.ints.extend(n.parse::<usize>().ok()),
            Some(("s ", h)) => dict.strs.push(unhex(h)),
            Some(("c ", h)) => dict.corpus.push(unhex(h)),
            Some(("g ", h)) => dict.guided.push(unhex(h)),
            _ => {}
        }
    }
    Env { seed, tier, dict }
}

pub struct Env {
    pub seed: u64,
    pub tier: Tier,
    pub dict: Dict,
}
impl Env {
    /// quick / thorough amount
    pub fn amt(&self, q: u64, t: u64) -> u64 {
        if self.tier == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub struct Ctx<'e> {
    pub env: &'e Env,
    pub rng: Rng,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub distinct_overflow: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub sample_tick: u64,
    pub known: BTreeMap<String, (u64, String)>,
    pub verbose: bool,
}
const DISTINCT_CAP: usize = 1_500_000;
impl<'e> Ctx<'e> {
    pub fn new(env: &'e Env) -> Self {
        Ctx {
            env,
            rng: Rng::new(env.seed),
            evals: 0,
            distinct: HashSet::new(),
            distinct_overflow: 0,
            counters: BTreeMap::new(),
            maxima: BTreeMap::new(),
            samples: vec![],
            sample_tick: 0,
            known: BTreeMap::new(),
            verbose: false,
        }
    }
    /// One executed case whose identity is `h`.
    pub fn case(&mut self, h: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            if self.distinct.len() < DISTINCT_CAP {
                self.distinct.insert(h);
            } else if !self.distinct.contains(&h) {
                self.distinct_overflow += 1;
            }
        }
    }
    pub fn case_bytes(&mut self, b: &[u8], nontrivial: bool) {
        self.case(hash64(b), nontrivial)
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_default();
        *e = (*e).max(n);
    }
    /// Keeps a few spread-out samples.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        self.sample_tick += 1;
        if self.sample_tick.is_power_of_two() && self.samples.len() < 24 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn known(&mut self, id: &str, what: impl FnOnce() -> String) {
        let e = self.known.entry(id.to_string()).or_insert_with(|| (0, what()));
        e.0 += 1;
    }
}

pub struct Workload {
    pub name: &'static str,
    pub total: fn(&Env) -> u64,
    pub run: fn(&mut Ctx, u64) -> R,
}
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub stack: usize,
    pub workloads: &'static [Workload],
}

/// Printable form of bytes, shortened.
pub fn show(b: &[u8]) -> String {
    let mut o = String::new();
    let esc = |o: &mut String, b: &[u8]| {
        for &c in b {
            match c {
                b'\\' => o.push_str("\\\\"),
                0x20..=0x7e => o.push(c as char),
                _ => {
                    let _ = write!(o, "\\x{c:02x}");
                }
            }
        }
    };
    if b.len() <= 300 {
        esc(&mut o, b);
    } else {
        esc(&mut o, &b[..160]);
        let _ = write!(o, " ...[{} bytes in all]... ", b.len());
        esc(&mut o, &b[b.len() - 100..]);
    }
    o
}

/// `x` displayed under one of several width, fill, precision and sign flags.
pub fn flagged(x: &dyn std::fmt::Display, which: usize) -> (&'static str, String) {
    macro_rules! f {
        ($($l:literal)*) => {{
            const N: usize = [$($l),*].len();
            let mut k = which % N;
            $(if k == 0 { return ($l, format!($l, x)); } k = k.wrapping_sub(1);)*
            let _ = k;
            unreachable!()
        }};
    }
    f!("{:1}" "{:.0}" "{:40}" "{:.1}" "{:<9}" "{:>9}" "{:.3}" "{:^9}" "{:*^12.2}" "{:+}" "{:08}" "{:1.9}" "{:-<5}" "{:.64}")
}
/// The same with the alternate flag.
pub fn flagged_alt(x: &dyn std::fmt::Display, which: usize) -> (&'static str, String) {
    let w = which / 6;
    match which % 6 {
        0 => ("{:#w$}", format!("{x:#0$}", w % 13)),
        1 => ("{:#.p$}", format!("{x:#.0$}", w % 13)),
        2 => ("{:#40}", format!("{x:#40}")),
        3 => ("{:<#w$.p$}", format!("{x:<#0$.1$}", w % 13, w / 13 % 7)),
        4 => ("{:*^#9}", format!("{x:*^#9}")),
        _ => ("{:+#0w$}", format!("{x:+#00$}", w % 13)),
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! bail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
