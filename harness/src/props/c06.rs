//! C06 Strings decode to exactly the text their JSON denotes.
use super::c01;
use crate::common::*;
use crate::gen::{self, EscStyle};
use crate::huge::{Huge, LENS};
use crate::model;
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::{Document, HeaplessDocument, Node};
use justjson::parser::{Token, Tokenizer};
use justjson::{JsonString, Value};

/// All decoded views of a parsed string whose source body is `body`.
pub fn views(cx: &mut Ctx, j: &JsonString<'_>, body: &str, route: &'static str) -> R {
    let want = model::decode(body);
    let got: String = j.decoded().collect();
    if got != want {
        if model::has_b_escape(body) && got == model::decode_quirk(body) {
            cx.known("KF1", || format!("{route}: the string \"{}\" decodes to {got:?}", show(body.as_bytes())));
        } else {
            bail!("{route}: decodes to {} instead of {}: source \"{}\"", show(got.as_bytes()), show(want.as_bytes()), show(body.as_bytes()));
        }
    }
    let say = |what: &str, g: &str| format!("{route}: {what} gives {} but the decoded text is {}: source \"{}\"", show(g.as_bytes()), show(got.as_bytes()), show(body.as_bytes()));
    let t = j.to_string();
    ensure!(t == got, "{}", say("Display", &t));
    let t = j.decoded().to_string();
    ensure!(t == got, "{}", say("Display of decoded()", &t));
    let k = cx.rng.below(400);
    if k < 100 {
        let (n, t) = if k % 5 == 0 { flagged_alt(j, k / 5) } else { flagged(j, k) };
        ensure!(t == got, "{}", say(n, &t));
    }
    let t = j.decode_if_needed();
    ensure!(t.as_str() == got, "{}", say("decode_if_needed", t.as_str()));
    let e = model::has_escape(body);
    ensure!(j.decoded_len() == got.len(), "{route}: decoded_len is {} instead of {}: source \"{}\"", j.decoded_len(), got.len(), show(body.as_bytes()));
    match j.as_str() {
        Some(t) => {
            ensure!(!e, "{route}: as_str is available for a string with escapes: \"{}\"", show(body.as_bytes()));
            ensure!(t == got, "{}", say("as_str", t));
        }
        None => ensure!(e, "{route}: as_str is not available though there are no escapes: \"{}\"", show(body.as_bytes())),
    }
    Ok(())
}

/// `lit`: a string literal with its quotes. All routes.
pub fn check(cx: &mut Ctx, lit: &[u8]) -> R {
    all_routes(cx, lit, true)
}
fn check_few(cx: &mut Ctx, lit: &[u8]) -> R {
    all_routes(cx, lit, false)
}

fn all_routes(cx: &mut Ctx, lit: &[u8], all: bool) -> R {
    staged(lit, |l| all_routes_here(cx, l, all))
}
fn all_routes_here(cx: &mut Ctx, lit: &[u8], all: bool) -> R {
    let ok = matches!(model::lex(lit, 0), Ok(t) if t.t == model::T::Str && t.start == 0 && t.end == lit.len());
    if !ok {
        cx.case_bytes(lit, false);
        return Ok(());
    }
    let text = std::str::from_utf8(lit).map_err(|e| e.to_string())?;
    let body = &text[1..text.len() - 1];
    cx.case_bytes(lit, model::has_escape(body));
    cx.count("strings_decoded", 1);
    let rej = |r: &str| format!("{r} rejects the valid string {}", show(lit));
    let j = JsonString::from_json(text).map_err(|_| rej("JsonString::from_json"))?;
    views(cx, &j, body, "JsonString::from_json")?;
    if !all {
        return Ok(());
    }
    views(cx, &j.clone(), body, "clone")?;
    match Value::from_json_bytes(lit) {
        Ok(Value::String(j)) => views(cx, &j, body, "Value::from_json_bytes")?,
        _ => return Err(rej("Value::from_json_bytes")),
    }
    // as a key and as an element, next to other tokens
    let mut d = Vec::with_capacity(2 * lit.len() + 20);
    d.extend_from_slice(b"[{");
    d.extend_from_slice(lit);
    d.extend_from_slice(b":1,\"\\n\":2} ,");
    d.extend_from_slice(lit);
    d.extend_from_slice(b",3]");
    let mut check_value = |v: &Value<'_>, r: &'static str| -> R {
        let key = v.get_index(0).and_then(|o| o.as_object()).and_then(|o| o.first()).map(|e| &e.key);
        let Some(key) = key else { bail!("{r}: key missing") };
        views(cx, key, body, r)?;
        let Some(j) = v.get_index(1).and_then(|j| j.as_string()) else { bail!("{r}: element missing") };
        views(cx, j, body, r)
    };
    match Value::from_json_bytes(&d) {
        Ok(v) => check_value(&v, "key or element of a bytes payload")?,
        Err(_) => return Err(rej("Value::from_json_bytes (embedded)")),
    }
    let ds = std::str::from_utf8(&d).map_err(|e| e.to_string())?;
    match Value::from_json(ds) {
        Ok(v) => check_value(&v, "key or element of a str payload")?,
        Err(_) => return Err(rej("Value::from_json (embedded)")),
    }
    match Document::from_json_bytes(&d) {
        Ok(doc) => {
            check_value(&Value::from(doc), "value converted from a document")?;
        }
        Err(_) => return Err(rej("Document::from_json_bytes")),
    }
    match HeaplessDocument::<8>::from_json(ds) {
        Ok(doc) => {
            for (i, n) in doc.iter().enumerate() {
                if let (2 | 6, Node::String(j)) = (i, &n) {
                    views(cx, j, body, "document node")?;
                }
            }
        }
        Err(_) => return Err(rej("HeaplessDocument::from_json")),
    }
    for (i, t) in Tokenizer::for_json_bytes(&d).enumerate() {
        if let (2 | 10, Ok(Token::String(j))) = (i, &t) {
            views(cx, j, body, "bytes token")?;
        }
    }
    for (i, t) in Tokenizer::for_json(ds).enumerate() {
        if let (2 | 10, Ok(Token::String(j))) = (i, &t) {
            views(cx, j, body, "str token")?;
        }
    }
    Ok(())
}

/// Every surrogate pair; idx = high surrogate.
fn pairs(cx: &mut Ctx, idx: u64) -> R {
    let hi = 0xD800 + idx as u32;
    for lo in 0xDC00..0xE000u32 {
        let s = match (hi ^ lo) & 3 {
            0 => format!("\"\\u{hi:04x}\\u{lo:04x}\""),
            1 => format!("\"\\u{hi:04X}\\u{lo:04X}z\""),
            2 => format!("\"é\\u{hi:04x}\\u{lo:04X}\""),
            _ => format!("\"\\u{hi:04X}\\u{lo:04x}\\n\\u{hi:04x}\\u{lo:04x}\""),
        };
        check_few(cx, s.as_bytes())?;
        cx.count("surrogate_pairs", 1);
    }
    Ok(())
}

/// Every code unit in every mix of hex case; idx = high byte.
fn units(cx: &mut Ctx, idx: u64) -> R {
    for lo in 0..256u32 {
        let u = (idx as u32) << 8 | lo;
        if (0xD800..0xE000).contains(&u) {
            continue;
        }
        for m in 0..16u32 {
            let mut h = format!("{u:04x}").into_bytes();
            for (k, b) in h.iter_mut().enumerate() {
                if m >> k & 1 == 1 {
                    b.make_ascii_uppercase();
                }
            }
            let h = String::from_utf8_lossy(&h).into_owned();
            let s = if m % 2 == 0 { format!("\"\\u{h}\"") } else { format!("\"a\\u{h}1é\\u{h}\"") };
            check_few(cx, s.as_bytes())?;
        }
    }
    c01::escapes(idx, |s| check_few(cx, s))
}

/// Every scalar value: alone, next to itself, after an escape, before its own escape.
fn scalars(cx: &mut Ctx, idx: u64) -> R {
    let mut u = Vec::new();
    for k in 0..256u32 {
        let Some(c) = char::from_u32(idx as u32 * 256 + k) else { continue };
        let mut b = [0; 4];
        let (lit, esc) = {
            u.clear();
            let mut r = cx.rng.clone();
            gen::push_u(&mut u, c, &mut r, 2);
            cx.rng = r;
            let esc = std::str::from_utf8(&u).map_err(|e| e.to_string())?;
            let plain = c >= ' ' && c != '"' && c != '\\';
            (if plain { &*c.encode_utf8(&mut b) } else { esc }, esc)
        };
        check_few(cx, format!("\"{lit}{lit}\"").as_bytes())?;
        check_few(cx, format!("\"\\n{lit}{lit}{lit}z{esc}{esc}{lit}\"").as_bytes())?;
        if c < '\u{800}' {
            check(cx, format!("\"{lit}\"").as_bytes())?;
        }
        cx.count("scalars", 1);
    }
    Ok(())
}

const FR: [&str; 16] = [
    "a", "é", "€", "😀", "\\n", "\\b", "\\\\", "\\\"", "\\/", "\\u0041", "\\u00e9", "\\u20AC", "\\ud83d\\ude39", "\\u0000", "\\f", "\u{7f}",
];
fn classes(cx: &mut Ctx, idx: u64) -> R {
    let (a, b) = (FR[idx as usize / 16], FR[idx as usize % 16]);
    let mut go = |p: &[&str]| check(cx, format!("\"{}\"", p.concat()).as_bytes());
    if idx == 0 {
        go(&[])?;
    }
    if idx < 16 {
        go(&[b])?;
    }
    go(&[a, b])?;
    for c in FR {
        go(&[a, b, c])?;
        for d in FR {
            go(&[a, b, c, d])?;
        }
    }
    if cx.env.tier == Tier::Thorough {
        for i in 0..4096usize {
            check_few(cx, format!("\"{a}{b}{}{}{}\"", FR[i / 256], FR[i / 16 % 16], FR[i % 16]).as_bytes())?;
        }
    }
    Ok(())
}

/// Sizes: long runs with one escape or multi-byte character at start, middle, end.
fn sized(cx: &mut Ctx, idx: u64) -> R {
    let sz = gen::sizes(cx.env, cx.env.amt(70_000, 1_200_000) as usize);
    let n = sz[idx as usize];
    for x in ["", "\\n", "\\u00e9", "\\ud83d\\ude00", "é", "€", "😀", "\\\\", "\\u0000"] {
        for base in ["a", "é", "\\t", "😀", "\\u20ac"] {
            let n = n / base.len().max(1);
            for at in [0, n / 2, n] {
                let s = format!("\"{}{}{}\"", base.repeat(at), x, base.repeat(n - at));
                if n < 300 {
                    check(cx, s.as_bytes())?;
                } else {
                    check_few(cx, s.as_bytes())?;
                }
                cx.max("longest_string", s.len() as u64);
            }
        }
    }
    Ok(())
}

fn random(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..40 {
        let mut r = cx.rng.clone();
        let n = gen::len(&mut r, cx.env, 5000);
        let t = gen::text(&mut r, cx.env, n);
        let mut st = EscStyle::random(&mut r);
        st.allow_b = r.chance(1, 4);
        let mut lit = vec![b'"'];
        lit.extend(gen::encode(&mut r, &t, st));
        lit.push(b'"');
        cx.rng = r;
        cx.sample(|| show(&lit));
        check(cx, &lit)?;
    }
    Ok(())
}

/// Every string and key of an arbitrary accepted payload.
fn payload(cx: &mut Ctx, s: &[u8]) -> R {
    let o = model::parse(s, model::Cfg::DEFAULT);
    if !o.ok() {
        return Ok(());
    }
    cx.case_bytes(s, true);
    for v in [Value::from_json_bytes(s).ok(), Document::from_json_bytes(s).ok().map(Value::from)] {
        let Some(v) = v else { bail!("valid payload rejected: {}", show(s)) };
        let i = std::cell::Cell::new(0usize);
        let cxc = std::cell::RefCell::new(&mut *cx);
        let one = |j: &JsonString<'_>| -> R {
            let Some(n) = o.nodes.get(i.get() - 1) else { return Ok(()) };
            let body = std::str::from_utf8(&s[n.start..n.end]).map_err(|e| e.to_string())?;
            views(*cxc.borrow_mut(), j, body, "payload")
        };
        walk(
            &v,
            |k| {
                i.set(i.get() + 1);
                one(k)
            },
            |x, _| {
                i.set(i.get() + 1);
                match x {
                    Value::String(j) => one(j),
                    _ => Ok(()),
                }
            },
        )
        .map_err(|e| format!("{e} in {}", show(s)))?;
    }
    Ok(())
}
fn docs(cx: &mut Ctx, _: u64) -> R {
    super::payloads::valid(cx, payload)
}
fn corpus(cx: &mut Ctx, i: u64) -> R {
    let s = cx.env.dict.corpus[i as usize].clone();
    payload(cx, &s)
}

/// String literals of more than 2 and 4 GiB: without escapes, and with one at either end.
fn huge(cx: &mut Ctx, idx: u64) -> R {
    let n = LENS[idx as usize / 2];
    let escapes = idx % 2 == 1;
    let unit: &[u8] = if (idx / 2) % 2 == 1 { b"a" } else { "é".as_bytes() };
    let head: &[u8] = if escapes { b"\"\\u00e9a" } else { b"\"aaa" };
    let tail: &[u8] = if escapes { b"zz\\ud83d\\ude00\"" } else { b"zz\"" };
    // the body between head and tail holds whole units
    let middle = (n - head.len() - tail.len()) / unit.len() * unit.len();
    let n = head.len() + middle + tail.len();
    let Some(h) = Huge::new(n, unit, &[(0, head), (n - tail.len(), tail)]) else {
        cx.count("huge_unavailable", 1);
        return Ok(());
    };
    let t = h.text();
    let (want_len, want_chars) = if escapes { (2 + 1 + middle + 2 + 4, 1 + 1 + middle / unit.len() + 2 + 1) } else { (n - 2, 3 + middle / unit.len() + 2) };
    cx.case(mix(n as u64 + escapes as u64), escapes);
    let what = format!("a string of {} bytes{}", n - 2, if escapes { " with escapes" } else { "" });
    let Ok(j) = JsonString::from_json(t) else { bail!("JsonString::from_json rejects {what}") };
    ensure!(j.len() == n - 2, "{what}: len is {}", j.len());
    ensure!(j.decoded_len() == want_len, "{what}: decoded_len is {} instead of {want_len}", j.decoded_len());
    ensure!(!j.is_empty(), "{what} is empty");
    ensure!(j.as_str().is_some() != escapes, "{what}: as_str gives {}", if escapes { "something" } else { "nothing" });
    if let Some(x) = j.as_str() {
        ensure!(x.as_ptr() == t[1..].as_ptr() && x.len() == n - 2, "{what}: as_str gives {} bytes", x.len());
    }
    if idx == 0 {
        return Ok(());
    }
    let mut d = j.decoded();
    let (lo, hi) = d.size_hint();
    ensure!(lo <= want_chars && hi.map_or(true, |h| h >= want_chars), "{what}: the size hint {lo}, {hi:?} excludes {want_chars}");
    let (mut chars, mut bytes, mut last) = (0usize, 0usize, [' '; 3]);
    for c in &mut d {
        chars += 1;
        bytes += c.len_utf8();
        last = [last[1], last[2], c];
    }
    ensure!(chars == want_chars && bytes == want_len, "{what} decodes to {chars} characters, {bytes} bytes, instead of {want_chars}, {want_len}");
    let end = if escapes { ['z', 'z', '😀'] } else { [last[0], 'z', 'z'] };
    ensure!(last == end, "{what} decodes to a text ending in {last:?}");
    cx.max("longest_string", n as u64);
    Ok(())
}

/// The facts kept about a string: a flag and any length a string can have.
fn infos(cx: &mut Ctx, idx: u64) -> R {
    use justjson::JsonStringInfo as I;
    let hash = |i: I| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        i.hash(&mut h);
        h.finish()
    };
    let mut ns: Vec<usize> = (idx as usize * 64..idx as usize * 64 + 64).collect();
    let top = isize::MAX as usize;
    let bit = 1usize.checked_shl(idx as u32).unwrap_or(0);
    ns.extend([bit, bit.wrapping_sub(1), bit.wrapping_add(1), bit.wrapping_mul(3), top - bit / 2, top]);
    ns.extend((0..16).map(|_| cx.rng.next() as usize));
    for n in ns {
        let n = n & top;
        for e in [false, true] {
            let i = I::new(e, n);
            ensure!(i.has_escapes() == e && i.expected_length() == n, "JsonStringInfo::new({e}, {n}) has the flag {} and the length {}", i.has_escapes(), i.expected_length());
            let c = i.clone();
            ensure!(c == i && hash(c) == hash(i), "a copy of JsonStringInfo::new({e}, {n}) differs from it");
            for m in [n, n ^ 1, n ^ (bit & top)] {
                ensure!((i == I::new(e, m)) == (n == m) && i != I::new(!e, m), "equality of JsonStringInfo::new({e}, {n}) with length {m}");
            }
            ensure!((i == I::NONE) == (!e && n == 0), "JsonStringInfo::new({e}, {n}) against NONE");
            cx.case(mix(n as u64 * 2 + e as u64), true);
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C06",
    rule: "string literals: every \\u code unit in all 16 hex-case mixes, all 2^20 surrogate pairs, every scalar value repeated as itself and as its escape, every byte body of length 1-3 with all neighbours, sequences of 16 character/escape classes up to length 4 (5), runs up to 70 KB (1.2 MB) with one odd element at start, middle and end, random texts with random spellings, and every string and key of random documents and the corpus; obtained through JsonString, Value (str, bytes), key, document node, converted document and token. Oracle: an independent RFC 8259 decoder. Non-trivial: distinct literals containing an escape.",
    stack: 0,
    workloads: &[
        Workload { name: "infos", total: |_| 64, run: infos },
        Workload { name: "huge", total: |e| e.amt(2, 4), run: huge },
        Workload { name: "classes", total: |_| 256, run: classes },
        Workload { name: "units", total: |_| 256, run: units },
        Workload { name: "scalars", total: |_| 0x1100, run: scalars },
        Workload { name: "pairs", total: |_| 1024, run: pairs },
        Workload { name: "bodies", total: |_| 256, run: |cx, i| { let env = cx.env; c01::string_bodies(env, i, |s| check_few(cx, s)) } },
        Workload { name: "sized", total: |e| gen::sizes(e, e.amt(70_000, 1_200_000) as usize).len() as u64, run: sized },
        Workload { name: "corpus", total: |e| e.dict.corpus.len() as u64, run: corpus },
        Workload { name: "random", total: |e| e.amt(2500, 60000), run: random },
        Workload { name: "documents", total: |e| e.amt(600, 12000), run: docs },
    ],
};
