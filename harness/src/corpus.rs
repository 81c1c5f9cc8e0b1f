//! Writes the corpus that the probe runs in every configuration.
use crate::gen;
use crate::props::c01;
use crate::rt::*;

const LONG: u32 = 2;

struct Out {
    b: Vec<u8>,
    small: Vec<Vec<u8>>,
    seen: std::collections::HashSet<u64>,
}
impl Out {
    fn raw(&mut self, flags: u32, p: &[u8], u: &[u8], n: usize, s: &[u8]) {
        let b = &mut self.b;
        for w in [flags, p.len() as u32, u.len() as u32, n as u32, s.len() as u32] {
            b.extend_from_slice(&w.to_le_bytes());
        }
        b.extend_from_slice(p);
        b.extend_from_slice(u);
        b.extend_from_slice(s);
    }
    /// One payload; `chance` in 1000 that interpreters may run it too.
    fn put(&mut self, d: &[u8], chance: u64) {
        let h = hash64(d);
        // recursion depth is bounded: stacks differ between targets
        let deep = d.iter().filter(|c| **c == b'[' || **c == b'{').count();
        if !self.seen.insert(h) || deep > 400 && depth(d) > 400 {
            return;
        }
        if d.len() <= 70 && mix(h) % 1000 < chance {
            self.small.push(d.to_vec());
        }
        self.raw(0, d, b"", 0, b"");
    }
}
fn depth(d: &[u8]) -> usize {
    let (mut n, mut m) = (0usize, 0);
    for c in d {
        match c {
            b'[' | b'{' => n += 1,
            b']' | b'}' => n = n.saturating_sub(1),
            _ => {}
        }
        m = m.max(n);
    }
    m
}

pub fn emit(env: &Env, path: &str, small: u64) {
    let mut o = Out { b: vec![], small: vec![], seen: Default::default() };
    let mut r = Rng::new(mix(env.seed) ^ 0x22);
    // long payloads first
    let str_units: &[&[u8]] = &[b"a", "\u{e9}".as_bytes(), b"\\n", b"\\u00e9", b"\\ud83d\\ude00", b"ab\\/"];
    for (k, u) in str_units.iter().enumerate() {
        for n in [32_767usize, 32_768, 65_535, 65_536, 65_537, 131_073, 1 << 20] {
            let reps = n / u.len() + 1;
            o.raw(LONG, b"\"", u, reps, b"\\t\"");
            if k < 2 {
                o.raw(LONG, b"{\"", u, reps, b"\":0}");
                o.raw(LONG, b"\"", u, reps, b"");
            }
        }
    }
    for n in [(1usize << 24) - 3, 1 << 24] {
        o.raw(LONG, b"\"", b"abcdefghijklmno\\n", n / 16, b"\"");
        o.raw(LONG, b"\"\\u0041", b"abcdefghijklmnop", n / 16, b"\"");
    }
    for n in [65_535usize, 65_537, 300_000] {
        o.raw(LONG, b"[", b"1,", n, b"1]");
        o.raw(LONG, b"[", b"\"\\u0061\",", n / 4, b"1,]");
        o.raw(LONG, b"", b"7", n, b"");
        o.raw(LONG, b"0.", b"3", n, b"e-5");
        o.raw(LONG, b"{", b"\"k\":[],", n / 4, b"\"k\":{}}");
        o.raw(LONG, b"", b" ", n, b"[]");
    }
    for d in c01::SMALL_DOCS {
        o.put(d.as_bytes(), 1000);
    }
    for s in &env.dict.corpus {
        if s.len() < 20_000 {
            o.put(s, 150);
        }
    }
    for s in &env.dict.guided {
        if s.len() < 6000 {
            o.put(s, 60);
        }
    }
    for &i in &env.dict.ints {
        o.put(format!("[{i},-{i},{i}.5,\"{}\"]", "x".repeat((i % 300) as usize)).as_bytes(), 0);
    }
    for f in 0..gen::FAMILIES {
        for n in [1usize, 2, 7, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096] {
            let d = gen::family(f, n);
            if d.len() < 30_000 {
                o.put(&d, 60);
            }
            if n < 300 {
                o.put(&gen::family_variant(1 + (f + n) % 3, gen::family(f, n)), 10);
            }
        }
    }
    let k = env.amt(1, 12);
    // numbers beside the boundaries of the binary formats
    for i in 0..1500 * k as usize {
        let d = crate::props::c13::near_boundary(&mut r, (i < 64).then_some(i % 8));
        o.put(d.as_bytes(), 20);
    }
    for i in 0..600 * k {
        let d = gen::payload(&mut r, env);
        if d.len() < 6000 {
            o.put(&d, 60);
        }
        if i % 2 == 0 {
            let d = gen::valid_doc(&mut r, env);
            if d.len() < 6000 {
                o.put(&d, 60);
            }
        }
        let n = gen::number(&mut r, env);
        o.put(&n, 100);
        let l = gen::len(&mut r, env, 300);
        let t = gen::text(&mut r, env, l);
        let mut d = vec![b'"'];
        let st = gen::EscStyle::random(&mut r);
        d.extend(gen::encode(&mut r, &t, st));
        d.push(b'"');
        o.put(&d, 100);
        if i % 4 == 0 {
            gen::mutate(&mut r, env, &mut d);
            o.put(&d, 100);
            o.put(t.as_bytes(), 100);
        }
    }
    std::fs::write(path, &o.b).expect("corpus file");
    // an even choice of small payloads for the interpreters
    let v = std::mem::take(&mut o.small);
    let mut c = Out { b: vec![], small: vec![], seen: Default::default() };
    for i in 0..small as usize {
        if let Some(d) = v.get(i * v.len() / small as usize) {
            c.put(d, 0);
        }
    }
    std::fs::write(format!("{path}.small"), &c.b).expect("corpus file");
}

type Seg = (bool, Vec<u8>);

/// One piece of string body.
fn piece(r: &mut Rng) -> Vec<u8> {
    let run = |r: &mut Rng| *r.pick(&[1usize, 1, 2, 3, 7, 15, 16, 31, 63, 200]);
    match r.below(13) {
        0..=2 => b"abcdefghijklmnopqrstuvwxyz012345".iter().cycle().take(run(r)).copied().collect(),
        3 => "\u{e9}".repeat(*r.pick(&[1, 1, 2, 5])).into_bytes(),
        4 => "\u{20ac}".repeat(*r.pick(&[1, 1, 3])).into_bytes(),
        5 => "\u{1f600}".repeat(*r.pick(&[1, 1, 3])).into_bytes(),
        6 => b"\\n".to_vec(),
        7 => b"\\\"".to_vec(),
        8 => b"\\u0041".to_vec(),
        9 => b"\\u20AC".to_vec(),
        10 => b"\\ud83d\\ude00".to_vec(),
        11 => b"\\/\\\\".to_vec(),
        _ => b"\x02".to_vec(),
    }
}
fn body(r: &mut Rng) -> Vec<u8> {
    (0..r.range(1, 4)).flat_map(|_| piece(r)).collect()
}
fn ws(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 0, 0, 1, 2, 9]);
    (0..n).map(|_| *r.pick(b" \n\t\r")).collect()
}
fn small_value(r: &mut Rng, d: usize) -> Vec<u8> {
    match r.below(if d > 0 { 10 } else { 7 }) {
        0 => b"null".to_vec(),
        1 => r.pick(&[&b"true"[..], b"false"]).to_vec(),
        2 | 3 => r.pick(&[&b"0"[..], b"-1", b"12345678901234567890", b"1.5", b"1e5", b"-0.25E-3", b"1\x02"]).to_vec(),
        4..=6 => [b"\"".to_vec(), body(r), b"\"".to_vec()].concat(),
        7 => b"[]".to_vec(),
        8 => {
            let mut o = b"[".to_vec();
            for i in 0..r.range(1, 3) {
                if i > 0 {
                    o.push(b',');
                }
                o.extend(small_value(r, d - 1));
            }
            o.push(b']');
            o
        }
        _ => {
            let mut o = b"{\"".to_vec();
            o.extend(body(r));
            o.extend(b"\":");
            o.extend(small_value(r, d - 1));
            o.push(b'}');
            o
        }
    }
}
/// A payload family for cost measurements: fixed and repeated segments.
fn spec(r: &mut Rng) -> Vec<Seg> {
    let mut v: Vec<Seg> = match r.below(12) {
        // one long string, of one or two phases
        0..=3 => {
            let mut v = vec![(false, [b"\"".to_vec(), if r.chance(1, 2) { body(r) } else { vec![] }].concat()), (true, body(r))];
            if r.chance(1, 2) {
                v.push((true, body(r)));
            }
            v.push((false, [if r.chance(1, 2) { body(r) } else { vec![] }, b"\"".to_vec()].concat()));
            v
        }
        // a long key
        4 => vec![(false, b"{\"".to_vec()), (true, body(r)), (false, [b"\":".to_vec(), small_value(r, 1), b"}".to_vec()].concat())],
        // many items
        5 | 6 => {
            let mut v = vec![(false, b"[".to_vec())];
            for _ in 0..r.range(1, 2) {
                v.push((true, [small_value(r, 2), ws(r), b",".to_vec(), ws(r)].concat()));
            }
            v.push((false, [small_value(r, 1), b"]".to_vec()].concat()));
            v
        }
        // many entries, with distinct or equal keys
        7 | 8 => {
            let key = if r.chance(1, 2) { [b"\x02".to_vec(), body(r)].concat() } else { body(r) };
            vec![
                (false, b"{".to_vec()),
                (true, [b"\"".to_vec(), key, b"\"".to_vec(), ws(r), b":".to_vec(), small_value(r, 1), b",".to_vec(), ws(r)].concat()),
                (false, [b"\"last\":".to_vec(), small_value(r, 1), b"}".to_vec()].concat()),
            ]
        }
        // whitespace
        9 => {
            let t = *r.pick(&[&b"[|]"[..], b"{|}", b"|[1", b"[1|", b"[1|]", b"{}|"]);
            let at = t.iter().position(|c| *c == b'|').unwrap_or(0);
            let mut w = ws(r);
            w.push(*r.pick(b" \n\t\r"));
            let mut tail = t[at + 1..].to_vec();
            if t == b"|[1" {
                tail.push(b']');
            }
            if t == b"[1|" {
                tail.extend(b",2]");
            }
            vec![(false, t[..at].to_vec()), (true, w), (false, tail)]
        }
        // a long number
        10 => {
            let (a, z): (&[u8], &[u8]) = *r.pick(&[(&b"1"[..], &b""[..]), (b"-7", b""), (b"0.", b""), (b"0.", b"e5"), (b"3.5e", b""), (b"1E-", b""), (b"9", b".5")]);
            let u = r.pick(&[&b"0"[..], b"3", b"1234567890"]).to_vec();
            vec![(false, a.to_vec()), (true, u), (false, [b"1", z].concat())]
        }
        // nested blocks side by side, of bounded depth
        _ => {
            let d = r.range(2, 100);
            let mut u = vec![];
            let obj = r.chance(1, 2);
            u.extend(if obj { b"{\"k\":".repeat(d) } else { b"[".repeat(d) });
            u.extend(small_value(r, 1));
            u.extend(if obj { b"}".repeat(d) } else { b"]".repeat(d) });
            u.push(b',');
            vec![(false, b"[".to_vec()), (true, u), (false, b"0]".to_vec())]
        }
    };
    // hostile endings and beginnings
    if r.chance(1, 4) {
        let l = v.len() - 1;
        match r.below(5) {
            0 => {
                v[l].1.pop();
            }
            1 => v[l].1.push(0xff),
            2 => v[l].1.extend(b" x"),
            3 => v[l].1.insert(0, 0x01),
            _ => v[l].1.insert(0, 0xe2),
        }
    }
    if r.chance(1, 6) {
        v[0].1.insert(0, *r.pick(b" \t\n"));
    }
    v
}
pub fn emit_specs(env: &Env, path: &str, count: u64) {
    let mut r = Rng::new(mix(env.seed) ^ 0x24);
    let one = |p: &[u8], u: &[u8], s: &[u8]| vec![(false, p.to_vec()), (true, u.to_vec()), (false, s.to_vec())];
    let q: &[u8] = b"\"";
    let mut all: Vec<Vec<Seg>> = vec![
        one(q, b"a", q),
        one(q, "\u{e9}".as_bytes(), q),
        one(q, "a\u{e9}".as_bytes(), q),
        one(q, "abcdefgh\u{20ac}".as_bytes(), q),
        one(q, "\u{1f600}x".as_bytes(), q),
        one(q, b"\\n", q),
        one(q, b"\\u0041", q),
        one(q, b"\\ud83d\\ude00", q),
        one(q, b"a\\u20ac", q),
        one(b"\"\\t", b"a", q),
        one(q, b"a", b"\\t\""),
        one(q, b"a\"b", b""),
        one(b"[", b"1,", b"1]"),
        one(b"[", b"\"a\",", b"1]"),
        one(b"[", b"\"\\n\",", b"1]"),
        one(b"[", b"[],", b"{}]"),
        one(b"[", b"{\"a\":{}},", b"{}]"),
        one(b"{", b"\"k\x02\":1,", b"\"x\":1}"),
        one(b"{", b"\"\\u0041\x02\":[\"b\"],", b"\"x\":1}"),
        one(b"{", b"\"a\":1,", b"\"x\":1}"),
        one(b"[", b"1,", b"1,]"),
        one(b"[", b"1,", b""),
        one(b"[", b"\"a\",", b"}"),
        one(b"", b" ", b"[]"),
        one(b"[]", b"\n", b""),
        one(b"[1", b"\t", b",2]"),
        one(b"{\"a\"", b" ", b":1}"),
        one(b"{\"a\":", b" ", b"1}"),
        one(b"1", b"0", b""),
        one(b"0.", b"1", b"e5"),
        one(b"1e", b"0", b"1"),
        one(b"[", b"1 , 2\n,", b"3]"),
        one(b"{\"", b"k", b"\":1}"),
        one(q, b"abc", b"\x01\""),
        one(q, b"abc", b"\xff\""),
        one(q, "\u{e9}".as_bytes(), b"\xc3"),
        one(b"[", b"null,true,false,", b"nul]"),
    ];
    while (all.len() as u64) < count {
        all.push(spec(&mut r));
    }
    let mut b = vec![];
    for s in &all {
        b.extend_from_slice(&(s.len() as u32).to_le_bytes());
        for (rep, d) in s {
            b.extend_from_slice(&(*rep as u32).to_le_bytes());
            b.extend_from_slice(&(d.len() as u32).to_le_bytes());
            b.extend_from_slice(d);
        }
    }
    std::fs::write(path, b).expect("spec file");
}
