//! C01 Parsing accepts exactly the JSON grammar (and C19-style inputs reuse
//! the enumerators below).
use crate::common::*;
use crate::gen;
use crate::model::{self, Cfg, Outcome, NK};
use crate::rt::*;
use crate::ensure;
use justjson::doc::{Document, HeaplessDocument};
use justjson::parser::Parser;
use justjson::{JsonNumber, JsonString, Value};

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let o = model::parse(s, Cfg::DEFAULT);
    routes_accept(s, Cfg::DEFAULT, &o)?;
    defaults(s, &o)?;
    cx.count(if o.ok() { "accepted" } else { "rejected" }, 1);
    cx.case_bytes(s, o.nodes.len() > 0);
    Ok(())
}

/// The routes without an explicit configuration.
fn defaults(s: &[u8], o: &Outcome) -> R {
    let want = o.ok();
    let say = |n: &str, ok: bool| -> R {
        ensure!(ok == want, "{n} {} a payload that is {}: {}", if ok { "accepts" } else { "rejects" }, if want { "valid" } else { "invalid" }, show(s));
        Ok(())
    };
    say("Parser::validate_json_bytes", Parser::validate_json_bytes(s).is_ok())?;
    say("Value::from_json_bytes", Value::from_json_bytes(s).is_ok())?;
    say("Document::from_json_bytes", Document::from_json_bytes(s).is_ok())?;
    if o.nodes.len() <= 48 {
        say("HeaplessDocument::from_json_bytes", HeaplessDocument::<48>::from_json_bytes(s).is_ok())?;
    }
    if let Some(t) = as_str(s) {
        say("Parser::validate_json", Parser::validate_json(t).is_ok())?;
        say("Value::from_json", Value::from_json(t).is_ok())?;
        say("Document::from_json", Document::from_json(t).is_ok())?;
        if o.nodes.len() <= 48 {
            say("HeaplessDocument::from_json", HeaplessDocument::<48>::from_json(t).is_ok())?;
        }
        // lone strings and numbers
        let root = o.nodes.first().map(|n| n.k);
        let js = JsonString::from_json(t).is_ok();
        ensure!(js == (want && root == Some(NK::Str)), "JsonString::from_json accepts={js}: {}", show(s));
        let jn = JsonNumber::from_json(t).is_ok();
        ensure!(jn == (want && root == Some(NK::Num)), "JsonNumber::from_json accepts={jn}: {}", show(s));
    }
    Ok(())
}

/// cheap variant for the big enumerations: three routes
fn check_fast(cx: &mut Ctx, s: &[u8]) -> R {
    let o = model::parse(s, Cfg::DEFAULT);
    let want = o.ok();
    let a = Parser::validate_json_bytes(s).is_ok();
    let b = Value::from_json_bytes(s).is_ok();
    let mut c = want;
    let mut d = want;
    if let Some(t) = as_str(s) {
        c = Parser::validate_json(t).is_ok();
        d = Document::from_json(t).is_ok();
    }
    if a != want || b != want || c != want || d != want {
        return check(cx, s);
    }
    cx.case_bytes(s, !o.nodes.is_empty());
    cx.count(if want { "accepted" } else { "rejected" }, 1);
    Ok(())
}

fn bytes3(cx: &mut Ctx, idx: u64) -> R {
    let b0 = idx as u8;
    if idx == 0 {
        check(cx, b"")?;
    }
    check(cx, &[b0])?;
    for b1 in 0..=255u8 {
        check(cx, &[b0, b1])?;
        for b2 in 0..=255u8 {
            check_fast(cx, &[b0, b1, b2])?;
        }
    }
    Ok(())
}

pub const ALPHA: &[u8] = b"{}[],:\"01-.e tfu\\n\xc3\xa9";
fn alpha(cx: &mut Ctx, idx: u64) -> R {
    // all strings over ALPHA of length 4 (quick) or 5 (thorough); idx fixes the first two
    let n = ALPHA.len();
    let (a, b) = (idx as usize / n, idx as usize % n);
    let mut s = vec![ALPHA[a], ALPHA[b]];
    for c in 0..n {
        s.truncate(2);
        s.push(ALPHA[c]);
        for d in 0..n {
            s.truncate(3);
            s.push(ALPHA[d]);
            check_fast(cx, &s)?;
            if cx.env.tier == Tier::Thorough {
                for e in 0..n {
                    s.truncate(4);
                    s.push(ALPHA[e]);
                    check_fast(cx, &s)?;
                }
            }
        }
    }
    Ok(())
}

pub const TOKENS: &[&[u8]] = &[b"{", b"}", b"[", b"]", b",", b":", b"\"a\"", b"1", b"true", b"null", b"\"\"", b"-"];
/// All token sequences up to length `max`; idx fixes the first two tokens.
pub fn token_seqs(max: usize, idx: u64, mut f: impl FnMut(&[u8]) -> R) -> R {
    let mut f = |s: &[u8]| staged(s, &mut f);
    let n = TOKENS.len() as u64;
    let mut stack: Vec<(Vec<u8>, usize)> = vec![];
    let mut s0 = TOKENS[(idx / n) as usize].to_vec();
    if idx % n == 0 {
        f(&s0)?;
    }
    s0.extend_from_slice(TOKENS[(idx % n) as usize]);
    stack.push((s0, 2));
    while let Some((s, d)) = stack.pop() {
        f(&s)?;
        if d < max {
            for t in TOKENS {
                let mut x = s.clone();
                x.extend_from_slice(t);
                stack.push((x, d + 1));
            }
        }
    }
    Ok(())
}
fn tokens(cx: &mut Ctx, idx: u64) -> R {
    token_seqs(cx.env.amt(6, 8) as usize, idx, |s| check_fast(cx, s))
}

pub const NUMCH: &[u8] = b"019-+.eE";
/// All strings over NUMCH of length <= max; idx fixes the first two.
pub fn number_seqs(max: usize, idx: u64, mut f: impl FnMut(&[u8]) -> R) -> R {
    let mut f = |s: &[u8]| staged(s, &mut f);
    let n = NUMCH.len() as u64;
    let mut st = vec![vec![NUMCH[(idx / n) as usize], NUMCH[(idx % n) as usize]]];
    if idx % n == 0 {
        f(&[NUMCH[(idx / n) as usize]])?;
    }
    while let Some(s) = st.pop() {
        f(&s)?;
        if s.len() < max {
            for c in NUMCH {
                let mut x = s.clone();
                x.push(*c);
                st.push(x);
            }
        }
    }
    Ok(())
}
fn numbers(cx: &mut Ctx, idx: u64) -> R {
    let mut buf = Vec::new();
    number_seqs(cx.env.amt(7, 8) as usize, idx, |s| {
        check_fast(cx, s)?;
        buf.clear();
        buf.push(b'[');
        buf.extend_from_slice(s);
        buf.push(b']');
        check_fast(cx, &buf)?;
        if s.len() <= 4 {
            check(cx, &[b"{\"a\":", s, b" }"].concat())?;
            check(cx, &[b"[1,", s, b",2]"].concat())?;
        }
        Ok(())
    })
}

/// String bodies: idx = first byte.
pub fn string_bodies(env: &Env, idx: u64, mut f: impl FnMut(&[u8]) -> R) -> R {
    let mut f = |s: &[u8]| staged(s, &mut f);
    let b0 = idx as u8;
    let mut go = |b: &[u8]| -> R {
        let mut s = Vec::with_capacity(b.len() + 3);
        s.push(b'"');
        s.extend_from_slice(b);
        s.push(b'"');
        f(&s)
    };
    go(&[b0])?;
    for b1 in 0..=255u8 {
        go(&[b0, b1])?;
        go(&[b'a', b0, b1])?;
        go(&[0xc3, 0xa9, b0, b1])?;
        if b0 >= 0xC0 || b0 == b'\\' || env.tier == Tier::Thorough {
            for b2 in 0..=255u8 {
                go(&[b0, b1, b2])?;
                if b0 >= 0xF0 {
                    for b3 in [0u8, 0x22, 0x61, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xe0, 0xff] {
                        go(&[b0, b1, b2, b3])?;
                    }
                }
            }
        }
    }
    Ok(())
}
fn strings(cx: &mut Ctx, idx: u64) -> R {
    let env = cx.env;
    string_bodies(env, idx, |s| check_fast(cx, s))
}

/// Escapes: idx = high byte of the code unit; all 65536 units alone, before a
/// low surrogate, before other things; invalid hex digits.
pub fn escapes(idx: u64, mut f: impl FnMut(&[u8]) -> R) -> R {
    let mut f = |s: &[u8]| staged(s, &mut f);
    for lo in 0..256u32 {
        let u = (idx as u32) << 8 | lo;
        f(format!("\"\\u{u:04x}\"").as_bytes())?;
        f(format!("\"\\u{u:04X}\"").as_bytes())?;
        f(format!("\"x\\u{u:04x}\\udc00y\"").as_bytes())?;
        f(format!("\"\\uD83d\\u{u:04X}\"").as_bytes())?;
        if (0xD700..0xE100).contains(&u) {
            for tail in ["\\udfff", "\\uDBFF\\uDFFF", "\\n", "\\ud800", "\\u0041", "a", "\\", "\\u", "\\udc0", "\\udc0g", "\\Udc00", "\\ue000", " \\udc00"] {
                f(format!("\"\\u{u:04x}{tail}\"").as_bytes())?;
                f(format!("\"\\u{u:04x}{tail}").as_bytes())?;
            }
        }
    }
    // every byte in each hex position
    let b = idx as u8;
    for p in 0..4 {
        for base in [*b"0041", *b"d83D", *b"FFff"] {
            let mut h = base;
            h[p] = b;
            f(&[b"\"\\u", &h[..], b"\""].concat())?;
            f(&[b"\"\\ud83d\\u", &h[..], b"\""].concat())?;
            f(&[b"[\"\\u", &h[..], b"\"]"].concat())?;
        }
    }
    f(&[b"\"\\", &[b][..], b"\""].concat())?;
    f(&[b"\"\\", &[b][..], b"0041\""].concat())?;
    f(&[b"\"a", &[b][..], b"b\""].concat())
}
fn escape_units(cx: &mut Ctx, idx: u64) -> R {
    escapes(idx, |s| check_fast(cx, s))
}

pub const SMALL_DOCS: &[&str] = &[
    "null", "true", "false", "0", "-0", "12", "-1.5e+10", "1E5", "\"\"", "\"ab\"", "\"\\n\\u00e9\"", "\"\\ud83d\\ude39\"", "\"é\"", "\"😀\"",
    "[]", "{}", "[1]", "[1,2]", "[[],{}]", "{\"a\":1}", "{\"a\":1,\"b\":2}", "{\"a\":[true,false,null]}", " [ 1 , 2 ] ", "\t{ \"a\" : \"b\" }\r\n",
    "[\"a\",\"b\"]", "{\"a\":{\"b\":{}}}", "[[[[]]]]", "[1.0,-2,3e4]", "{\"\":\"\"}", "[\"\\\\\",\"\\\"\",\"\\/\"]", "[{}]", "[{\"k\":[0]}]",
    "[null,null]", "{\"a\":null,\"a\":true}", "[\"\\b\\f\\n\\r\\t\"]",
];
/// Every single-byte replacement, insertion, deletion and truncation of a doc.
pub fn single_edits(d: &[u8], mut f: impl FnMut(&[u8]) -> R) -> R {
    let mut f = |s: &[u8]| staged(s, &mut f);
    f(d)?;
    for i in 0..=d.len() {
        f(&d[..i])?;
        let mut x = d.to_vec();
        x.insert(i, 0);
        for b in 0..=255u8 {
            x[i] = b;
            f(&x)?;
        }
        if i < d.len() {
            let mut x = d.to_vec();
            for b in 0..=255u8 {
                x[i] = b;
                f(&x)?;
            }
            x.remove(i);
            f(&x)?;
            if i + 1 < d.len() {
                let mut x = d.to_vec();
                x.swap(i, i + 1);
                f(&x)?;
            }
        }
    }
    Ok(())
}
fn edits(cx: &mut Ctx, idx: u64) -> R {
    single_edits(SMALL_DOCS[idx as usize].as_bytes(), |s| check(cx, s))
}
fn edits_random(cx: &mut Ctx, _idx: u64) -> R {
    let mut d = gen::valid_doc(&mut cx.rng.clone(), cx.env);
    let mut r = cx.rng.clone();
    while d.len() > 120 {
        r.next();
        d = gen::valid_doc(&mut r, cx.env);
    }
    single_edits(&d, |s| check_fast(cx, s))
}

pub fn family_cases(env: &Env, idx: u64, max: usize, mut f: impl FnMut(&[u8], usize, usize) -> R) -> R {
    let fam = idx as usize % gen::FAMILIES;
    let sz = gen::sizes(env, max);
    let n = sz[idx as usize / gen::FAMILIES];
    for v in 0..10 {
        let d = gen::family_variant(v, gen::family(fam, n));
        staged(&d, |s| f(s, fam, n))?;
        if d.len() < 300 {
            // at the other alignments
            let mut x = [&d[..], b" "].concat();
            for _ in 0..3 {
                staged(&x, |s| f(s, fam, n))?;
                x.push(b' ');
            }
        }
    }
    Ok(())
}
pub fn family_total(env: &Env, max: usize) -> u64 {
    (gen::FAMILIES * gen::sizes(env, max).len()) as u64
}
fn families(cx: &mut Ctx, idx: u64) -> R {
    let env = cx.env;
    let max = fam_max(env);
    family_cases(env, idx, max, |s, _, n| {
        cx.max("largest_size", n as u64);
        check(cx, s)
    })
}
pub fn fam_max(env: &Env) -> usize {
    if env.tier == Tier::Thorough {
        131_073
    } else {
        9_000
    }
}

fn random(cx: &mut Ctx, _idx: u64) -> R {
    for _ in 0..100 {
        let mut r = cx.rng.clone();
        let s = gen::payload(&mut r, cx.env);
        cx.rng = r;
        cx.sample(|| show(&s));
        staged(&s, |s| check(cx, s))?;
    }
    Ok(())
}
fn corpus(cx: &mut Ctx, idx: u64) -> R {
    let s = cx.env.dict.corpus[idx as usize].clone();
    staged(&s, |s| check(cx, s))?;
    // every prefix of small files
    if s.len() < 2000 {
        for i in 0..s.len() {
            staged(&s[..i], |s| check(cx, s))?;
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C01",
    rule: "payloads: all byte strings of length <=3; all strings of length 4 (thorough: 5) over a 21-byte JSON alphabet; all token sequences up to length 6 (8) over 12 tokens; all number-like strings up to 7 (8) characters bare and in containers; all 1-2 byte (3 byte for multi-byte leads and escapes) string bodies; all 65536 \\u escapes in both cases, alone and as either half of a pair; every single-byte edit of small documents; 40 size families at boundary sizes with invalid variants; repository corpus with all prefixes; swarm-generated, mutated and random payloads. Oracle: accept/reject of 14 entry points equals an independent RFC 8259 recogniser. Non-trivial: distinct payloads (by content hash) in which the recogniser read at least one complete value, key or opening bracket.",
    stack: 0,
    workloads: &[
        Workload { name: "bytes", total: |_| 256, run: bytes3 },
        Workload { name: "alphabet", total: |_| (ALPHA.len() * ALPHA.len()) as u64, run: alpha },
        Workload { name: "token-sequences", total: |_| (TOKENS.len() * TOKENS.len()) as u64, run: tokens },
        Workload { name: "numbers", total: |_| 64, run: numbers },
        Workload { name: "string-bodies", total: |_| 256, run: strings },
        Workload { name: "escapes", total: |_| 256, run: escape_units },
        Workload { name: "single-edits", total: |_| SMALL_DOCS.len() as u64, run: edits },
        Workload { name: "single-edits-random", total: |e| e.amt(64, 2000), run: edits_random },
        Workload { name: "families", total: |e| family_total(e, fam_max(e)), run: families },
        Workload { name: "entry-counts", total: |e| e.amt(16, 24), run: |cx, i| super::payloads::wide(cx, i, check) },
        Workload { name: "deep", total: |e| e.amt(96, 2400), run: |cx, i| super::payloads::deep(cx, i, check) },
        Workload { name: "guided", total: |e| e.dict.guided.len() as u64, run: |cx, i| super::payloads::guided(cx, i, check) },
        Workload { name: "corpus", total: |e| e.dict.corpus.len() as u64, run: corpus },
        Workload { name: "random", total: |e| e.amt(4000, 60000), run: random },
    ],
};
