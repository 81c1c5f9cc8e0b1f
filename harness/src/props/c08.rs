//! C08 Equality, order and hash depend only on content.
use crate::common::*;
use crate::gen::{self, EscStyle};
use crate::huge::{Huge, LENS};
use crate::model::{self, MV};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::{Document, GenericDocument, HeaplessDocument, Node};
use justjson::{AnyStr, JsonString, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hash, Hasher};

/// Records every call.
#[derive(Default, PartialEq, Eq, Clone, Debug)]
pub struct Rec(pub Vec<(u8, Vec<u8>)>);
macro_rules! rec {
    ($($n:ident $t:ty, $k:expr;)*) => { $(fn $n(&mut self, x: $t) { self.0.push(($k, x.to_le_bytes().to_vec())); })* };
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push((0, b.to_vec()));
    }
    rec! { write_u8 u8, 1; write_u16 u16, 2; write_u32 u32, 3; write_u64 u64, 4; write_u128 u128, 5; write_usize usize, 6;
           write_i8 i8, 7; write_i16 i16, 8; write_i32 i32, 9; write_i64 i64, 10; write_i128 i128, 11; write_isize isize, 12; }
}
impl Rec {
    pub fn of<T: Hash + ?Sized>(t: &T) -> Rec {
        let mut r = Rec::default();
        t.hash(&mut r);
        r
    }
    pub fn flat(&self) -> Vec<u8> {
        self.0.iter().flat_map(|x| x.1.iter().copied()).collect()
    }
    /// Only `write` boundaries differ.
    fn normal(&self) -> Vec<(u8, Vec<u8>)> {
        let mut o: Vec<(u8, Vec<u8>)> = vec![];
        for (k, b) in &self.0 {
            match o.last_mut() {
                Some((0, x)) if *k == 0 => x.extend_from_slice(b),
                _ if *k == 0 && b.is_empty() => {}
                _ => o.push((*k, b.clone())),
            }
        }
        o
    }
}
#[derive(Default)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}
fn sip<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Spellings of a text as JSON literals (never using `\b`).
fn spellings(r: &mut Rng, t: &str) -> Vec<String> {
    let mut v = vec![];
    for (extra, long, hex) in [(0, 0, 0), (16, 16, 0), (16, 0, 1), (5, 8, 2)] {
        let st = EscStyle { extra, long, hex, allow_b: false };
        let mut l = vec![b'"'];
        l.extend(gen::encode(r, t, st));
        l.push(b'"');
        v.push(String::from_utf8_lossy(&l).into_owned());
    }
    v.dedup();
    v
}

pub struct Rep<'a> {
    j: JsonString<'a>,
    how: &'static str,
    /// parsed, with escapes in the source
    esc: bool,
}
fn reps<'a>(t: &'a str, sp: &'a [String]) -> Result<Vec<Rep<'a>>, String> {
    let mut v = vec![
        Rep { j: JsonString::from(t), how: "From<&str>", esc: false },
        Rep { j: JsonString::from(t.to_string()), how: "From<String>", esc: false },
        Rep { j: JsonString::from(t.to_string()).clone(), how: "clone of From<String>", esc: false },
    ];
    for (i, s) in sp.iter().enumerate() {
        let esc = model::has_escape(&s[1..s.len() - 1]);
        let j = if i % 2 == 0 {
            JsonString::from_json(s).map_err(|e| format!("{} does not parse: {e:?}", show(s.as_bytes())))?
        } else {
            match Value::from_json_bytes(s.as_bytes()) {
                Ok(Value::String(j)) => j,
                o => bail!("{} parses as {o:?}", show(s.as_bytes())),
            }
        };
        v.push(Rep { j, how: if esc { "parsed with escapes" } else { "parsed without escapes" }, esc });
    }
    Ok(v)
}

fn pair(cx: &mut Ctx, a: &str, b: &str) -> R {
    staged_str(a, |a| staged_str(b, |b| pair_here(cx, a, b)))
}
fn pair_here(cx: &mut Ctx, a: &str, b: &str) -> R {
    let mut r = cx.rng.clone();
    let (sa, sb) = (spellings(&mut r, a), spellings(&mut r, b));
    cx.rng = r;
    let (ra, rb) = (reps(a, &sa)?, reps(b, &sb)?);
    let eq = a == b;
    let ord = a.cmp(b);
    for x in &ra {
        for y in &rb {
            cx.count("comparisons", 1);
            let w = || format!("{} ({}) against {} ({})", show(a.as_bytes()), x.how, show(b.as_bytes()), y.how);
            ensure!((x.j == y.j) == eq, "{}: == gives {}", w(), x.j == y.j);
            ensure!((x.j != y.j) != eq, "{}: != gives {}", w(), x.j != y.j);
            ensure!((y.j == x.j) == eq, "{}: reversed == gives {}", w(), y.j == x.j);
            ensure!(x.j.cmp(&y.j) == ord, "{}: cmp gives {:?} instead of {ord:?}", w(), x.j.cmp(&y.j));
            ensure!(y.j.cmp(&x.j) == ord.reverse(), "{}: reversed cmp gives {:?}", w(), y.j.cmp(&x.j));
            ensure!(x.j.partial_cmp(&y.j) == Some(ord), "{}: partial_cmp gives {:?} instead of {ord:?}", w(), x.j.partial_cmp(&y.j));
            ensure!((x.j < y.j) == ord.is_lt() && (x.j <= y.j) == ord.is_le() && (x.j > y.j) == ord.is_gt() && (x.j >= y.j) == ord.is_ge(), "{}: comparison operators disagree with {ord:?}", w());
            // hashes
            let (hx, hy) = (Rec::of(&x.j), Rec::of(&y.j));
            if eq {
                ensure!(sip(&x.j) == sip(&y.j), "{}: equal, but the standard hashes differ", w());
                if hx != hy {
                    if hx.normal() == hy.normal() && (x.esc || y.esc) {
                        cx.known("KF3", || format!("{}: hashing writes {:?} against {:?}", w(), hx.0.iter().map(|c| show(&c.1)).collect::<Vec<_>>(), hy.0.iter().map(|c| show(&c.1)).collect::<Vec<_>>()));
                    } else {
                        bail!("{}: equal, but a hasher receives {} against {}", w(), show(&hx.flat()), show(&hy.flat()));
                    }
                }
            } else {
                ensure!(hx.flat() != hy.flat(), "{}: different, but every hasher receives the same bytes {}", w(), show(&hx.flat()));
            }
        }
        // with str
        let w = || format!("{} ({}) against the str {}", show(a.as_bytes()), x.how, show(b.as_bytes()));
        ensure!((x.j == *b) == eq && (x.j == b) == eq, "{}: == gives {}/{}", w(), x.j == *b, x.j == b);
        ensure!((x.j != *b) != eq && (x.j != b) != eq, "{}: != gives {}/{}", w(), x.j != *b, x.j != b);
        ensure!(PartialOrd::<str>::partial_cmp(&x.j, b) == Some(ord), "{}: partial_cmp gives {:?} instead of {ord:?}", w(), PartialOrd::<str>::partial_cmp(&x.j, b));
        ensure!(PartialOrd::<&str>::partial_cmp(&x.j, &b) == Some(ord), "{}: partial_cmp with &str gives {:?} instead of {ord:?}", w(), PartialOrd::<&str>::partial_cmp(&x.j, &b));
    }
    cx.case(mix(hash64(a.as_bytes()) ^ hash64(b.as_bytes()).rotate_left(1)), true);
    cx.count(if eq { "equal_pairs" } else { "different_pairs" }, 1);
    Ok(())
}

const CL: [char; 16] =
    ['a', 'b', '"', '\\', '/', '\n', '\0', '\u{1f}', '\u{7f}', 'é', '€', '\u{d7ff}', '\u{e000}', '\u{ffff}', '😀', '\u{10ffff}'];
/// all texts of length <= 2 over 16 classes (273)
fn small_text(i: usize) -> String {
    match i {
        0 => String::new(),
        1..=16 => CL[i - 1].to_string(),
        _ => String::from_iter([CL[(i - 17) / 16], CL[(i - 17) % 16]]),
    }
}
/// idx: left text; all right texts
fn small_pairs(cx: &mut Ctx, idx: u64) -> R {
    let a = small_text(idx as usize);
    for k in 0..273 {
        let b = small_text(k);
        pair(cx, &a, &b)?;
    }
    // common prefix
    let p = "xé😀\n";
    for k in (idx as usize % 7..273).step_by(7) {
        let b = small_text(k);
        pair(cx, &format!("{p}{a}"), &format!("{p}{b}"))?;
        pair(cx, &format!("{a}{p}"), &format!("{b}{p}"))?;
    }
    Ok(())
}

/// Every scalar value against its neighbour, its other case and its double.
fn scalars(cx: &mut Ctx, idx: u64) -> R {
    for k in 0..256u32 {
        let n = idx as u32 * 256 + k;
        let Some(c) = char::from_u32(n) else { continue };
        if n >= 0x3000 && cx.env.tier != Tier::Thorough && n % 8 != cx.env.seed as u32 % 8 && c.to_lowercase().eq([c]) && c.to_uppercase().eq([c]) {
            continue;
        }
        let t = c.to_string();
        pair(cx, &t, &format!("{c}{c}"))?;
        if let Some(d) = char::from_u32(n + 1) {
            pair(cx, &format!("x{c}"), &format!("x{d}"))?;
        }
        for other in [c.to_lowercase().collect::<String>(), c.to_uppercase().collect()] {
            if other != t {
                pair(cx, &t, &other)?;
            }
        }
        cx.count("scalars", 1);
    }
    Ok(())
}

fn mutate_text(r: &mut Rng, env: &Env, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..r.range(1, 2) {
        let n = c.len();
        match r.below(6) {
            0 if n > 0 => {
                c.pop();
            }
            1 => c.push(gen::rand_char(r, env, 2)),
            2 if n > 0 => {
                let i = r.below(n);
                c[i] = gen::rand_char(r, env, 2);
            }
            3 if n > 0 => {
                let i = r.below(n);
                c.remove(i);
            }
            4 if n > 1 => {
                let i = r.below(n - 1);
                c.swap(i, i + 1);
            }
            _ => {
                // same UTF-8 length, other character
                if n > 0 {
                    let i = r.below(n);
                    c[i] = char::from_u32(c[i] as u32 ^ (1 << r.below(6))).unwrap_or(c[i]);
                }
            }
        }
    }
    c.into_iter().collect()
}
fn random_pairs(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..30 {
        let mut r = cx.rng.clone();
        let n = gen::len(&mut r, cx.env, 3000);
        let a = gen::text(&mut r, cx.env, n);
        let b = match r.below(4) {
            0 => a.clone(),
            1 => gen::text(&mut r, cx.env, n),
            _ => mutate_text(&mut r, cx.env, &a),
        };
        cx.rng = r;
        pair(cx, &a, &b)?;
    }
    Ok(())
}
fn sized(cx: &mut Ctx, idx: u64) -> R {
    let sz = gen::sizes(cx.env, cx.env.amt(20_000, 300_000) as usize);
    let n = sz[idx as usize];
    for base in ["a", "é", "\n", "😀"] {
        let n = n / base.len();
        let t = base.repeat(n);
        pair(cx, &t, &t.clone())?;
        for at in [0, n / 2, n.saturating_sub(1)] {
            let mut c: Vec<char> = t.chars().collect();
            if at < c.len() {
                c[at] = 'b';
                pair(cx, &t, &String::from_iter(&c))?;
                c[at] = '\u{10ffff}';
                pair(cx, &String::from_iter(&c), &t)?;
            }
        }
        pair(cx, &t, &format!("{t}a"))?;
        pair(cx, &format!("{t}\u{1}"), &t)?;
    }
    Ok(())
}

/// Maps keyed by strings: inserted in one representation, looked up in others.
fn maps(cx: &mut Ctx, _: u64) -> R {
    let mut r = cx.rng.clone();
    let texts: Vec<String> = (0..r.range(1, 40))
        .map(|_| {
            let n = gen::len(&mut r, cx.env, 40);
            gen::text(&mut r, cx.env, n)
        })
        .collect();
    let sp: Vec<Vec<String>> = texts.iter().map(|t| spellings(&mut r, t)).collect();
    let all: Vec<Vec<Rep<'_>>> = texts.iter().zip(&sp).map(|(t, s)| reps(t, s)).collect::<Result<_, _>>()?;
    let mut std_map: HashMap<JsonString<'_>, usize> = HashMap::new();
    let mut fnv: HashMap<JsonString<'_>, usize, BuildHasherDefault<Fnv>> = HashMap::default();
    let mut tree: BTreeMap<JsonString<'_>, usize> = BTreeMap::new();
    let mut want: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, v) in all.iter().enumerate() {
        let k = &v[r.below(v.len())].j;
        std_map.insert(k.clone(), i);
        fnv.insert(k.clone(), i);
        tree.insert(k.clone(), i);
        want.insert(&texts[i], i);
    }
    ensure!(std_map.len() == want.len() && fnv.len() == want.len() && tree.len() == want.len(), "maps of {} keys hold {}/{}/{}", want.len(), std_map.len(), fnv.len(), tree.len());
    for (i, v) in all.iter().enumerate() {
        let w = want.get(texts[i].as_str());
        for x in v {
            ensure!(
                std_map.get(&x.j) == w && fnv.get(&x.j) == w && tree.get(&x.j) == w,
                "lookup of {} ({}) finds {:?}/{:?}/{:?} instead of {w:?}",
                show(texts[i].as_bytes()), x.how, std_map.get(&x.j), fnv.get(&x.j), tree.get(&x.j)
            );
            cx.count("map_lookups", 3);
        }
    }
    ensure!(tree.values().eq(want.values()), "BTreeMap iterates in another order than str keys");
    cx.case(hash64(texts.concat().as_bytes()), true);
    cx.rng = r;
    Ok(())
}

fn order(cx: &mut Ctx, x: &JsonString<'_>, y: &JsonString<'_>, a: &str, b: &str, how: &str) -> R {
    let (eq, ord) = (a == b, a.cmp(b));
    let w = || format!("{how}: {} against {}", show(a.as_bytes()), show(b.as_bytes()));
    ensure!((x == y) == eq && (x != y) != eq, "{}: == gives {}", w(), x == y);
    ensure!(x.cmp(y) == ord && x.partial_cmp(y) == Some(ord), "{}: cmp gives {:?}, partial_cmp {:?}", w(), x.cmp(y), x.partial_cmp(y));
    ensure!((*x == *b) == eq && (*x == b) == eq, "{}: == with str gives {}/{}", w(), *x == *b, *x == b);
    ensure!(PartialOrd::<str>::partial_cmp(x, b) == Some(ord) && PartialOrd::<&str>::partial_cmp(x, &b) == Some(ord), "{}: partial_cmp with str gives {:?}/{:?}", w(), PartialOrd::<str>::partial_cmp(x, b), PartialOrd::<&str>::partial_cmp(x, &b));
    if eq {
        ensure!(sip(x) == sip(y), "{}: equal, but the standard hashes differ", w());
    }
    cx.count("pairs_sharing_a_buffer", 1);
    Ok(())
}
/// Strings, numbers and values lying in one buffer.
fn shared(cx: &mut Ctx, _: u64) -> R {
    let mut r = cx.rng.clone();
    let k = r.range(1, 9);
    let buf = if r.chance(1, 3) { small_text(r.below(273)).repeat(k) } else { gen::text(&mut r, cx.env, k) };
    let cut: Vec<usize> = buf.char_indices().map(|c| c.0).chain([buf.len()]).collect();
    let mut ts = vec![];
    for i in 0..cut.len() {
        for j in i..cut.len() {
            ts.push(&buf[cut[i]..cut[j]]);
        }
    }
    for a in &ts {
        for b in &ts {
            order(cx, &JsonString::from(*a), &JsonString::from(*b), a, b, "made from slices of one buffer")?;
        }
    }
    // one payload holding them all, each spelled some way
    let mut p = vec![b'['];
    for t in &ts {
        if p.len() > 1 {
            p.push(b',');
        }
        p.push(b'"');
        let st = EscStyle { allow_b: false, ..EscStyle::random(&mut r) };
        p.extend(gen::encode(&mut r, t, st));
        p.push(b'"');
    }
    p.push(b']');
    let Ok(Value::Array(v)) = Value::from_json_bytes(&p) else { bail!("{} does not parse as an array", show(&p)) };
    ensure!(v.len() == ts.len(), "{} has {} elements", show(&p), v.len());
    for (x, a) in v.iter().zip(&ts) {
        for (y, b) in v.iter().zip(&ts) {
            let (Value::String(j), Value::String(k)) = (x, y) else { bail!("{} holds no strings", show(&p)) };
            order(cx, j, k, a, b, "parsed from one payload")?;
            ensure!((x == y) == (a == b), "values {} and {} of one payload compare {}", show(a.as_bytes()), show(b.as_bytes()), x == y);
            // against text in the payload itself, and in the other buffer
            order(cx, j, &JsonString::from(*b), a, b, "parsed against made")?;
            order(cx, &JsonString::from(*a), k, a, b, "made against parsed")?;
            if let Some(AnyStr::Borrowed(raw)) = k.as_json_str() {
                order(cx, j, &JsonString::from(*raw), a, raw, "parsed against a view of the payload")?;
            }
        }
    }
    // literals that overlap: "a"b"c" holds "a", "b" as well as "c"
    let lit: String = ts.iter().take(5).filter(|t| model::valid_body(t) && !model::has_escape(t)).map(|t| format!("\"{t}")).collect::<String>() + "\"";
    let q: Vec<usize> = lit.match_indices('"').map(|m| m.0).collect();
    let mut js = vec![];
    for w in q.windows(2) {
        let s = &lit[w[0]..=w[1]];
        let Ok(j) = JsonString::from_json(s) else { bail!("{} does not parse", show(s.as_bytes())) };
        js.push((j, &s[1..s.len() - 1]));
    }
    for (x, a) in &js {
        for (y, b) in &js {
            order(cx, x, y, a, b, "overlapping literals")?;
        }
    }
    // numbers: equality is by source text
    let n = String::from_utf8_lossy(&gen::number(&mut r, cx.env)).into_owned();
    let n = &n[..n.len().min(24)];
    let mut ns = vec![];
    for i in 0..n.len() {
        for j in i + 1..=n.len() {
            if num(&n[i..j]).is_some() {
                if let Ok(x) = justjson::JsonNumber::from_json(&n[i..j]) {
                    ns.push((x, &n[i..j]));
                }
            }
        }
    }
    for (x, a) in &ns {
        for (y, b) in &ns {
            ensure!((x == y) == (a == b) && (Value::Number(x.clone()) == Value::Number(y.clone())) == (a == b), "numbers {a} and {b} of one buffer compare {}", x == y);
            ensure!(a == b || x.source() != y.source(), "numbers {a} and {b} give the same source");
        }
    }
    cx.count("numbers_sharing_a_buffer", (ns.len() * ns.len()) as u64);
    cx.rng = r;
    cx.case(mix(hash64(&p) ^ hash64(buf.as_bytes())), true);
    Ok(())
}

/// Random model value (no U+0007/U+0008 in strings).
pub fn mv(r: &mut Rng, env: &Env, depth: usize, budget: &mut usize) -> MV {
    let str_ = |r: &mut Rng| {
        let n = gen::len(r, env, 60);
        gen::text(r, env, n).replace(['\u{7}', '\u{8}'], "\u{9}")
    };
    let k = if depth >= 6 || *budget == 0 { r.below(6) } else { r.below(12) };
    *budget = budget.saturating_sub(1);
    match k {
        0 => MV::Null,
        1 => MV::Bool(r.chance(1, 2)),
        2 | 3 => MV::Num(String::from_utf8_lossy(&gen::number(r, env)).into_owned()),
        4 | 5 => MV::Str(str_(r)),
        6..=8 => {
            let n = r.below(6);
            MV::Arr((0..n).map(|_| mv(r, env, depth + 1, budget)).collect())
        }
        _ => {
            let n = r.below(6);
            let mut o: Vec<(String, MV)> = vec![];
            for _ in 0..n {
                let k = if !o.is_empty() && r.chance(1, 5) { o[0].0.clone() } else { str_(r) };
                o.push((k, mv(r, env, depth + 1, budget)));
            }
            MV::Obj(o)
        }
    }
}
/// JSON text of a model value with random spellings and whitespace.
pub fn render(r: &mut Rng, m: &MV, out: &mut Vec<u8>, ws: usize) {
    let sp = |r: &mut Rng, out: &mut Vec<u8>| {
        if ws > 0 && r.chance(ws, 8) {
            out.push(*r.pick(b" \n\t\r"));
        }
    };
    let s = |r: &mut Rng, out: &mut Vec<u8>, t: &str| {
        out.push(b'"');
        let st = EscStyle { allow_b: false, ..EscStyle::random(r) };
        out.extend(gen::encode(r, t, st));
        out.push(b'"');
    };
    sp(r, out);
    match m {
        MV::Null => out.extend_from_slice(b"null"),
        MV::Bool(b) => out.extend_from_slice(if *b { b"true" } else { b"false" }),
        MV::Num(n) => out.extend_from_slice(n.as_bytes()),
        MV::Str(t) => s(r, out, t),
        MV::Arr(a) => {
            out.push(b'[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(b',');
                }
                render(r, x, out, ws);
            }
            sp(r, out);
            out.push(b']');
        }
        MV::Obj(o) => {
            out.push(b'{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(b',');
                }
                sp(r, out);
                s(r, out, k);
                sp(r, out);
                out.push(b':');
                render(r, x, out, ws);
            }
            sp(r, out);
            out.push(b'}');
        }
    }
    sp(r, out);
}
/// A small structural change.
pub fn mutate_mv(r: &mut Rng, env: &Env, m: &mut MV) {
    let into = r.chance(3, 4);
    match m {
        MV::Arr(a) if !a.is_empty() && into => {
            let i = r.below(a.len());
            match r.below(6) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let j = r.below(a.len());
                    a.swap(i, j);
                }
                2 => a.push(MV::Null),
                _ => mutate_mv(r, env, &mut a[i]),
            }
        }
        MV::Obj(o) if !o.is_empty() && into => {
            let i = r.below(o.len());
            match r.below(8) {
                0 => {
                    o.remove(i);
                }
                1 | 2 => {
                    let j = r.below(o.len());
                    o.swap(i, j);
                }
                3 => o.push(("k".into(), MV::Null)),
                4 => o[i].0 = mutate_text(r, env, &o[i].0).replace(['\u{7}', '\u{8}'], "\u{9}"),
                _ => mutate_mv(r, env, &mut o[i].1),
            }
        }
        MV::Str(t) => *t = mutate_text(r, env, t).replace(['\u{7}', '\u{8}'], "\u{9}"),
        MV::Num(n) => {
            *n = match r.below(5) {
                0 => format!("{n}0"),
                1 if n.contains('e') => n.replace('e', "E"),
                2 if n.starts_with('-') => n[1..].to_string(),
                3 => "-0".into(),
                _ => String::from_utf8_lossy(&gen::number(r, env)).into_owned(),
            };
            if num(n).is_none() {
                *n = "1".into();
            }
        }
        MV::Bool(b) => *b = !*b,
        MV::Null => *m = MV::Bool(false),
        _ => *m = if matches!(m, MV::Arr(_)) { MV::Obj(vec![]) } else { MV::Arr(vec![]) },
    }
}

fn value_pair(cx: &mut Ctx, a: &MV, b: &MV) -> R {
    let mut r = cx.rng.clone();
    let (mut sa, mut sb) = (vec![], vec![]);
    let w = r.below(3);
    render(&mut r, a, &mut sa, w);
    render(&mut r, b, &mut sb, 1);
    cx.rng = r;
    let eq = a == b;
    let w = || format!("{} against {}", show(&sa), show(&sb));
    let (Ok(va), Ok(vb)) = (Value::from_json_bytes(&sa), Value::from_json_bytes(&sb)) else { bail!("valid payload rejected: {}", w()) };
    ensure!((va == vb) == eq && (vb == va) == eq && (va != vb) != eq, "values compare {} and {} (swapped) though they are {}: {}", va == vb, vb == va, eq, w());
    let (Ok(da), Ok(db)) = (Document::from_json_bytes(&sa), Document::from_json_bytes(&sb)) else { bail!("valid payload rejected: {}", w()) };
    ensure!((da == db) == eq && (db == da) == eq && (da != db) != eq, "documents compare {} and {} (swapped) though they are {}: {}", da == db, db == da, eq, w());
    let (na, nb): (Vec<Node<'_>>, Vec<Node<'_>>) = (da.iter().collect(), db.iter().collect());
    ensure!((na == nb) == eq, "node lists compare {} though they are {}: {}", na == nb, eq, w());
    if na.len() <= 64 && nb.len() <= 64 {
        if let (Ok(ha), Ok(hb)) = (HeaplessDocument::<64>::from_json_bytes(&sa), HeaplessDocument::<64>::from_json_bytes(&sb)) {
            ensure!((ha == hb) == eq, "fixed documents compare {} though they are {}: {}", ha == hb, eq, w());
        }
    }
    let vd = Value::from(da);
    ensure!((vd == vb) == eq, "a value from a document compares {} though it is {}: {}", vd == vb, eq, w());
    let _: fn(&GenericDocument<'_, Vec<Node<'_>>>) = |_| {};
    cx.case(mix(hash64(&sa) ^ hash64(&sb).rotate_left(9)), true);
    cx.count(if eq { "equal_values" } else { "different_values" }, 1);
    Ok(())
}
fn values(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..30 {
        let mut r = cx.rng.clone();
        let a = mv(&mut r, cx.env, 0, &mut 40);
        let mut b = a.clone();
        for _ in 0..r.below(3) {
            mutate_mv(&mut r, cx.env, &mut b);
        }
        cx.rng = r;
        value_pair(cx, &a, &b)?;
    }
    Ok(())
}
/// All pairs of small values.
fn small_values(cx: &mut Ctx, idx: u64) -> R {
    let n = |s: &str| MV::Num(s.into());
    let s = |t: &str| MV::Str(t.into());
    let o = |v: &[(&str, MV)]| MV::Obj(v.iter().map(|(k, x)| (k.to_string(), x.clone())).collect());
    let v = vec![
        MV::Null, MV::Bool(true), MV::Bool(false), n("0"), n("-0"), n("1"), n("1.0"), n("1e0"), n("1E0"), n("10e-1"), s(""), s("a"), s("1"), s("null"), s("é"), s("\n"),
        MV::Arr(vec![]), MV::Obj(vec![]), MV::Arr(vec![MV::Null]), MV::Arr(vec![MV::Null, MV::Null]), MV::Arr(vec![MV::Arr(vec![])]), MV::Arr(vec![MV::Obj(vec![])]),
        MV::Arr(vec![n("1"), n("2")]), MV::Arr(vec![n("2"), n("1")]), MV::Arr(vec![MV::Arr(vec![n("1")]), n("2")]), MV::Arr(vec![MV::Arr(vec![n("1"), n("2")])]),
        MV::Arr(vec![s("a"), MV::Null]), o(&[("a", MV::Null)]), o(&[("b", MV::Null)]), o(&[("a", n("1"))]), o(&[("a", n("1")), ("b", n("2"))]), o(&[("b", n("2")), ("a", n("1"))]),
        o(&[("a", n("1")), ("a", n("1"))]), o(&[("a", n("1")), ("a", n("2"))]), o(&[("a", n("2")), ("a", n("1"))]), o(&[("", MV::Null)]), o(&[("a", o(&[("b", MV::Null)]))]),
        o(&[("a", MV::Arr(vec![]))]), o(&[("a", MV::Obj(vec![]))]), o(&[("a\n", MV::Null)]), o(&[("a", s("a"))]), o(&[("1", MV::Null)]),
    ];
    let Some(a) = v.get(idx as usize) else { return Ok(()) };
    for b in &v {
        for _ in 0..3 {
            value_pair(cx, a, b)?;
        }
    }
    Ok(())
}

/// Texts of more than 4 GiB that are equal, or differ only behind the first 4 GiB.
fn huge(cx: &mut Ctx, idx: u64) -> R {
    let n = LENS[idx as usize / 2];
    let (Some(a), Some(b)) = (Huge::new(n, b"abcd", &[]), Huge::new(n, b"abcd", &[(n - 2, b"z")])) else {
        cx.count("huge_unavailable", 1);
        return Ok(());
    };
    cx.case(mix(n as u64 + idx), true);
    let (ta, tb) = (a.text(), b.text());
    if idx % 2 == 0 {
        let (x, y) = (AnyStr::from(ta), AnyStr::from(tb));
        ensure!(x == AnyStr::from(&ta[..]) && x == *ta, "an AnyStr of {n} bytes differs from itself");
        ensure!(x != y && y != *ta && x != *tb, "AnyStr: texts of {n} bytes that differ in the last byte but one are equal");
        ensure!(x < y && x.cmp(&y) == ta.cmp(tb), "AnyStr: order of texts of {n} bytes");
        ensure!(x != AnyStr::from(&ta[..n % (1 << 31)]), "AnyStr: a text of {n} bytes equals its first {} bytes", n % (1 << 31));
        return Ok(());
    }
    let Some(q) = Huge::new(n + 2, b"cdab", &[(0, b"\"b"), (n + 1, b"\"")]) else { return Ok(()) };
    let Ok(x) = JsonString::from_json(q.text()) else { bail!("JsonString::from_json rejects a string of {n} bytes") };
    let ta = &q.text()[1..n + 1];
    let short = JsonString::from(&ta[..n % (1 << 31)]);
    ensure!(x != short && short != x && short != *ta && x != ta[..n % (1 << 31)], "JsonString: a text of {n} bytes equals its first {} bytes", n % (1 << 31));
    ensure!(x > short, "JsonString: a text of {n} bytes does not follow its first {} bytes", n % (1 << 31));
    cx.max("longest_string", n as u64);
    if cx.env.tier == Tier::Quick {
        return Ok(());
    }
    let x = JsonString::from(a.text());
    let (ta, y) = (a.text(), JsonString::from(tb));
    ensure!(x == *ta && x == x.clone(), "a JsonString of {n} bytes differs from its text");
    ensure!(x != y && y != *ta && x != *tb, "JsonString: texts of {n} bytes that differ in the last byte but one are equal");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C08",
    rule: "pairs of texts (all 273x273 texts of length <= 2 over 16 character classes, with common prefixes and suffixes; scalar values (above U+3000 one in 8 in quick, and all that have case) against their neighbour, double, lower and upper case; runs up to 20 KB (300 KB) differing at start, middle, end or length; random pairs and near-duplicates; slices of one buffer, strings and overlapping literals of one payload, number prefixes), each held in 4-7 representations (borrowed, owned, cloned, parsed with different escapes from str and bytes) on both sides; maps; pairs of values and documents (all pairs of 42 small values, random values against edited copies, spelled randomly). Oracle: str comparison and model trees; hashing observed by a recording Hasher. Non-trivial: every pair.",
    stack: 0,
    workloads: &[
        Workload { name: "huge", total: |e| e.amt(2, 4), run: huge },
        Workload { name: "small-pairs", total: |_| 273, run: small_pairs },
        Workload { name: "scalars", total: |_| 0x1100, run: scalars },
        Workload { name: "small-values", total: |_| 42, run: small_values },
        Workload { name: "sized", total: |e| gen::sizes(e, e.amt(20_000, 300_000) as usize).len() as u64, run: sized },
        Workload { name: "random-pairs", total: |e| e.amt(1200, 40000), run: random_pairs },
        Workload { name: "shared-buffer", total: |e| e.amt(1500, 40_000), run: shared },
        Workload { name: "maps", total: |e| e.amt(2000, 40000), run: maps },
        Workload { name: "values", total: |e| e.amt(2500, 60000), run: values },
    ],
};
