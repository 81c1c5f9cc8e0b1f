//! Grows payloads that reach new code or come closer to satisfying comparisons
//! of the crate under test. It judges nothing: what it finds becomes part of
//! the workload of the monitors. Deterministic for a given tree and seed.
#[allow(dead_code)]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../harness/src/rt.rs"]
mod rt;
mod cov;
use cov::Cov;
use probe::ops;
use rt::*;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

const MAX_LEN: usize = 5000;

fn exec(c: &mut Cov, d: &[u8]) -> (u32, u32) {
    c.begin();
    let mut g = ops::Log::new(false);
    let _ = catch_unwind(AssertUnwindSafe(|| ops::lean(d, &mut g)));
    c.end()
}

/// A balanced piece of `d`: a value, or a run of bytes.
fn piece(r: &mut Rng, d: &[u8]) -> (usize, usize) {
    if d.is_empty() {
        return (0, 0);
    }
    let at = r.below(d.len());
    let start = (at..d.len()).find(|i| matches!(d[*i], b'[' | b'{' | b'"' | b'0'..=b'9' | b'-' | b't' | b'n' | b'f')).unwrap_or(at);
    match d[start] {
        b'[' | b'{' => {
            let (mut n, mut q) = (0, false);
            let mut i = start;
            while i < d.len() {
                match d[i] {
                    b'\\' if q => i += 1,
                    b'"' => q = !q,
                    b'[' | b'{' if !q => n += 1,
                    b']' | b'}' if !q => {
                        n -= 1;
                        if n == 0 {
                            return (start, i + 1);
                        }
                    }
                    _ => {}
                }
                i += 1;
            }
            (start, d.len())
        }
        b'"' => {
            let mut i = start + 1;
            while i < d.len() && d[i] != b'"' {
                i += 1 + (d[i] == b'\\') as usize;
            }
            (start, (i + 1).min(d.len()))
        }
        _ => {
            let e = (start..d.len()).find(|i| b",:]}{[\" \n\r\t".contains(&d[*i])).unwrap_or(d.len());
            (start, e.max(start + 1).min(d.len()))
        }
    }
}

fn mutated(r: &mut Rng, env: &Env, d: &mut Vec<u8>, corpus: &[Vec<u8>], c: &Cov) {
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        let n = d.len();
        match r.below(14) {
            0..=3 => gen::mutate(r, env, d),
            4 | 5 => {
                // a piece of another payload, in place of one here or beside it
                let o = r.pick(corpus).clone();
                let (a, b) = piece(r, &o);
                let (x, y) = piece(r, d);
                let p = o[a..b].to_vec();
                match r.below(3) {
                    0 => drop(d.splice(x..y, p)),
                    1 => drop(d.splice(y..y, [b",", &p[..]].concat())),
                    _ => drop(d.splice(x..x, [&p[..], if r.chance(1, 3) { b":" } else { b"," }].concat())),
                }
            }
            6 => {
                let (x, y) = piece(r, d);
                let p = d[x..y].to_vec();
                let w: &[&[u8]] = match r.below(4) {
                    0 => &[b"[", b"]"],
                    1 => &[b"{\"k\":", b"}"],
                    2 => &[b"[0,", b"]"],
                    _ => &[b"{\"\\n\":1,\"k\":", b"}"],
                };
                d.splice(x..y, [w[0], &p, w[1]].concat());
            }
            7 => {
                // repeat a piece
                let (x, y) = piece(r, d);
                let k = gen::len(r, env, 2000).min(MAX_LEN / (y - x + 1));
                let p = [b",", &d[x..y]].concat().repeat(k);
                d.splice(y..y, p);
            }
            8 if n > 0 => {
                // repeat a few bytes
                let a = r.below(n);
                let b = (a + *r.pick(&[1, 1, 1, 2, 2, 6, 12])).min(n);
                let k = gen::len(r, env, 2000).min(MAX_LEN / (b - a));
                let p = d[a..b].repeat(k);
                d.splice(a..a, p);
            }
            9 | 10 | 11 => {
                // towards satisfying a comparison
                let Some((want, had)) = c.compared(r) else { continue };
                match r.below(5) {
                    0 if want < 256 && had < 256 => {
                        let at: Vec<usize> = (0..n).filter(|i| d[*i] as u64 == had).take(200).collect();
                        if !at.is_empty() {
                            d[*r.pick(&at)] = want as u8;
                        }
                    }
                    1 | 2 if want < 4096 => {
                        // make something this long
                        let k = (if want > had && r.chance(2, 3) { want - had } else { want }) as usize + r.below(3);
                        let k = k.saturating_sub(1);
                        if n > 0 && k > 0 {
                            let a = r.below(n);
                            if r.chance(1, 2) {
                                let p = vec![if r.chance(1, 2) { d[a] } else { b'a' }; k];
                                d.splice(a..a, p);
                            } else {
                                let (x, y) = piece(r, d);
                                let p = [b",", &d[x..y]].concat().repeat(k.min(MAX_LEN / (y - x + 1)));
                                d.splice(y..y, p);
                            }
                        }
                    }
                    3 => {
                        if let Some(ch) = char::from_u32(want as u32) {
                            let mut o = vec![];
                            if r.chance(1, 2) {
                                gen::push_u(&mut o, ch, r, 2);
                            } else {
                                o.extend_from_slice(ch.encode_utf8(&mut [0; 4]).as_bytes());
                            }
                            let i = r.below(n + 1);
                            d.splice(i..i, o);
                        }
                    }
                    _ => {
                        let (x, y) = piece(r, d);
                        let s = if r.chance(1, 4) { format!("-{want}") } else { format!("{want}") };
                        d.splice(x..y, s.into_bytes());
                    }
                }
            }
            12 => {
                // a string of some text
                let l = gen::len(r, env, 300);
                let t = gen::text(r, env, l);
                let st = gen::EscStyle::random(r).b(r);
                let s = [b"\"", &gen::encode(r, &t, st)[..], b"\""].concat();
                let (x, y) = piece(r, d);
                d.splice(x..y, s);
            }
            _ => {
                let s = gen::number(r, env);
                let (x, y) = piece(r, d);
                d.splice(x..y, s);
            }
        }
        d.truncate(MAX_LEN);
    }
}

trait B {
    fn b(self, r: &mut Rng) -> Self;
}
impl B for gen::EscStyle {
    fn b(mut self, r: &mut Rng) -> Self {
        self.allow_b = r.chance(1, 2);
        self
    }
}

fn grow(env: &Env, shard: u64, quota: u64, out: &str) {
    let mut r = Rng::new(mix(env.seed ^ 0x9001de) ^ mix(shard + 1));
    let mut c = Cov::new();
    let mut corpus: Vec<Vec<u8>> = vec![];
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).expect("out"));
    let cur = std::fs::File::create(format!("{out}.cur")).expect("cur");
    let (mut spent, mut execs) = (0u64, 0u64);
    let seeds: Vec<&Vec<u8>> = env.dict.corpus.iter().filter(|d| d.len() < 2000).collect();
    let mut next_seed = shard as usize;
    while spent < quota {
        let d = if corpus.len() < 8 || next_seed < seeds.len() && execs % 4 == 0 {
            next_seed += 3;
            if next_seed < seeds.len() { seeds[next_seed].clone() } else { gen::payload(&mut r, env) }
        } else if r.chance(1, 12) {
            gen::payload(&mut r, env)
        } else {
            let k = corpus.len();
            let i = if r.chance(1, 2) { k - 1 - r.below(k.min(40)) } else { r.below(k) };
            let j = r.below(k);
            let i = if corpus[j].len() < corpus[i].len() && r.chance(2, 3) { j } else { i };
            let mut d = corpus[i].clone();
            mutated(&mut r, env, &mut d, &corpus, &c);
            d
        };
        if d.len() > MAX_LEN {
            continue;
        }
        let _ = cur.write_all_at(&[&(d.len() as u64).to_le_bytes()[..], &d].concat(), 0);
        let (edges, values) = exec(&mut c, &d);
        execs += 1;
        spent += 400 + d.len() as u64 * 3;
        if edges > 0 || values > 0 {
            let mut h = String::new();
            for b in &d {
                use std::fmt::Write;
                let _ = write!(h, "{b:02x}");
            }
            let _ = writeln!(f, "{h}");
            let _ = f.flush();
            corpus.push(d);
        }
    }
    let (hit, all) = c.edges();
    println!("{execs} {} {hit} {all}", corpus.len());
    let _ = std::fs::remove_file(format!("{out}.cur"));
}

/// Keeps, smallest first, what adds coverage to what was kept before.
fn merge(out: &str, files: &[String], most: usize) {
    let mut all: Vec<Vec<u8>> = vec![];
    for f in files {
        for l in std::fs::read_to_string(f).unwrap_or_default().lines() {
            all.push((0..l.len() / 2).filter_map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).ok()).collect());
        }
    }
    all.sort_by(|a, b| a.len().cmp(&b.len()).then_with(|| a.cmp(b)));
    all.dedup();
    let mut c = Cov::new();
    let (mut edges, mut values) = (vec![], vec![]);
    for d in all {
        let (e, v) = exec(&mut c, &d);
        if e > 0 {
            edges.push(d);
        } else if v > 0 {
            values.push(d);
        }
    }
    let mut o = String::new();
    let room = most.saturating_sub(edges.len()).min(values.len());
    let spread = (0..room).map(|i| &values[i * values.len() / room.max(1)]);
    for d in edges.iter().take(most).chain(spread) {
        for b in d {
            use std::fmt::Write;
            let _ = write!(o, "{b:02x}");
        }
        o.push('\n');
    }
    std::fs::write(out, o).expect("out");
    let (hit, all) = c.edges();
    println!("{} {} {hit} {all}", edges.len(), room);
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let t = std::thread::Builder::new().stack_size(256 << 20);
    t.spawn(move || match a[1].as_str() {
        // guide grow DICT SEED SHARD QUOTA OUT
        "grow" => grow(&load_env(&a[2], a[3].parse().unwrap_or(1), Tier::Quick), a[4].parse().unwrap(), a[5].parse().unwrap(), &a[6]),
        // guide merge OUT MOST FILES
        "merge" => merge(&a[2], &a[4..], a[3].parse().unwrap()),
        _ => panic!(),
    })
    .expect("thread")
    .join()
    .unwrap_or_else(|_| std::process::exit(3));
}
