//! C13 Number conversions are exact.
use crate::common::*;
use crate::gen;
use crate::model::{self, Big};
use crate::props::c01;
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::{Document, HeaplessDocument, Node};
use justjson::parser::{Token, Tokenizer};
use justjson::{JsonNumber, Value};

/// The valid number tokens only.
fn is_number(s: &[u8]) -> bool {
    matches!(model::lex(s, 0), Ok(t) if t.t == model::T::Num && t.start == 0 && t.end == s.len())
}

/// The integer this source denotes, if it is written as a plain integer with a
/// magnitude below 2^128.
fn plain_int(src: &str) -> Option<(bool, u128)> {
    let n = model::split_num(src);
    if !n.plain || src.len() > 60 {
        return None;
    }
    let mut b = Big::from_dec(&n.digits);
    if !b.is_zero() {
        b.mul_pow10(n.exp as usize);
    }
    Some((n.neg, b.to_u128()?))
}

macro_rules! ints {
    ($want:expr, $x:expr, $f:expr; $($t:ident $m:ident),*) => {{
        $(
            let (lo, hi): (Option<u128>, u128) = {
                // magnitude of the minimum; None for unsigned types
                let lo = if $t::MIN == 0 { None } else { Some(($t::MAX as u128) + 1) };
                (lo, $t::MAX as u128)
            };
            let want: Option<$t> = match $want {
                Some((false, m)) if m <= hi => Some(m as $t),
                Some((true, m)) => match lo {
                    Some(l) if m <= l => Some((m as $t).wrapping_neg()),
                    _ => None,
                },
                _ => None,
            };
            let got: Option<$t> = $x.$m();
            if got != want {
                $f(stringify!($m), format!("{got:?}"), format!("{want:?}"))?;
            }
        )*
    }};
}

macro_rules! conversions {
    ($name:ident, $t:ty) => {
        fn $name(x: $t, src: &str, route: &str) -> R {
            let want = plain_int(src);
            let bad = |m: &str, g: String, w: String| -> R { Err(format!("{m} gives {g} instead of {w}: {} ({route})", show(src.as_bytes()))) };
            ints!(want, x, bad; u8 as_u8, u16 as_u16, u32 as_u32, u64 as_u64, u128 as_u128, usize as_usize,
                i8 as_i8, i16 as_i16, i32 as_i32, i64 as_i64, i128 as_i128, isize as_isize);
            match x.as_f64() {
                Some(f) => {
                    if !model::float_ok(src, f.to_bits(), 52, 11) {
                        bad("as_f64", format!("{f:e} ({:#x})", f.to_bits()), "the nearest".to_string())?
                    }
                }
                None => bad("as_f64", "nothing".into(), "a value".into())?,
            }
            match x.as_f32() {
                Some(f) => {
                    if !model::float_ok(src, f.to_bits() as u64, 23, 8) {
                        bad("as_f32", format!("{f:e} ({:#x})", f.to_bits()), "the nearest".to_string())?
                    }
                }
                None => bad("as_f32", "nothing".into(), "a value".into())?,
            }
            Ok(())
        }
    };
}
conversions!(number, &JsonNumber<'_>);
conversions!(value, &Value<'_>);

/// Everything two handles of one number say, for comparing routes cheaply.
macro_rules! all {
    ($x:expr) => {
        format!(
            "{:?}",
            (
                ($x.as_u8(), $x.as_u16(), $x.as_u32(), $x.as_u64(), $x.as_u128(), $x.as_usize()),
                ($x.as_i8(), $x.as_i16(), $x.as_i32(), $x.as_i64(), $x.as_i128(), $x.as_isize()),
                $x.as_f64().map(f64::to_bits),
                $x.as_f32().map(f32::to_bits)
            )
        )
    };
}

fn check(cx: &mut Ctx, src: &str) -> R {
    staged_str(src, |s| check_here(cx, s))
}
fn check_here(cx: &mut Ctx, src: &str) -> R {
    if !is_number(src.as_bytes()) {
        cx.case_bytes(src.as_bytes(), false);
        return Ok(());
    }
    cx.case_bytes(src.as_bytes(), true);
    cx.max("longest", src.len() as u64);
    if plain_int(src).is_some() {
        cx.count("plain_integers", 1);
    } else {
        cx.count("other_numbers", 1);
    }
    let w = || show(src.as_bytes());
    let Ok(n) = JsonNumber::from_json(src) else { bail!("JsonNumber::from_json rejects {}", w()) };
    ensure!(n.source() == src, "source {} instead of {}", n.source(), w());
    number(&n, src, "JsonNumber::from_json")?;
    ensure!(n.parse::<String>().as_deref() == Ok(src), "parse::<String> is not the source: {}", w());
    let a = all!(n);
    let same = |x: String, route: &str| -> R {
        ensure!(x == a, "{route} converts to {x} but the number itself to {a}: {}", w());
        Ok(())
    };
    let Ok(v) = Value::from_json(src) else { bail!("Value::from_json rejects {}", w()) };
    if src.len() < 400 {
        value(&v, src, "Value::from_json")?;
    } else {
        same(all!(v), "Value::from_json")?;
    }
    let n2 = n.clone();
    same(all!(n2), "a clone")?;
    let nv = Value::Number(n2);
    same(all!(nv), "Value::Number")?;
    // inside containers, from bytes, through documents and tokens
    let s = format!("[ {src},{{\"k\":{src}\n}}]\t");
    let Ok(v) = Value::from_json_bytes(s.as_bytes()) else { bail!("an array holding it is rejected: {}", w()) };
    same(all!(v[0]), "an array element")?;
    same(all!(v[1]["k"]), "an object entry")?;
    match v[1]["k"].as_number() {
        Some(x) => same(all!(x), "as_number of an object entry")?,
        None => bail!("as_number gives nothing on a number: {}", w()),
    }
    let Ok(d) = Document::from_json(&s) else { bail!("an array holding it is rejected: {}", w()) };
    let mut seen = 0;
    for x in &d {
        if let Node::Number(x) = x {
            seen += 1;
            same(all!(x), "a document node")?;
        }
    }
    ensure!(seen == 2, "{seen} number nodes instead of 2: {}", w());
    let Ok(d) = HeaplessDocument::<8>::from_json_bytes(s.as_bytes()) else { bail!("a fixed document rejects {}", w()) };
    let fv = Value::from(d);
    same(all!(fv[0]), "a fixed document's value")?;
    for t in Tokenizer::for_json_bytes(s.as_bytes()) {
        if let Ok(Token::Number(x)) = t {
            same(all!(x), "a token")?;
        }
    }
    Ok(())
}

const SUFFIXES: &[&str] = &["", ".0", ".00", ".5", ".4999", "e0", "E0", "e+0", "e-0", "e1", "e-1", "0", "00", "0e-1", "0e-2", ".0e0", ".0e1"];

/// Boundaries of every integer width and power of ten.
fn integers(cx: &mut Ctx, idx: u64) -> R {
    // 0..=130: powers of two; then powers of ten
    let b = if idx <= 130 {
        let mut b = Big::from_u128(1);
        b.shl(idx as usize);
        b
    } else {
        let mut b = Big::from_u128(1);
        b.mul_pow10(idx as usize - 131);
        b
    };
    let base = b.to_dec();
    let mut forms = vec![base.clone()];
    for d in 1..=3u32 {
        let mut up = b.clone();
        up.mul_add(1, d);
        forms.push(up.to_dec());
    }
    // base - d by string decrement
    let mut x = base;
    for _ in 0..3 {
        if x == "0" {
            break;
        }
        x = decrement(&x);
        forms.push(x.clone());
    }
    for m in forms {
        for sfx in SUFFIXES {
            for sign in ["", "-"] {
                let s = format!("{sign}{m}{sfx}");
                cx.sample(|| s.clone());
                check(cx, &s)?;
            }
        }
    }
    Ok(())
}

/// Decimal string minus one (not for "0").
fn decrement(s: &str) -> String {
    let mut v = s.as_bytes().to_vec();
    for c in v.iter_mut().rev() {
        if *c == b'0' {
            *c = b'9';
        } else {
            *c -= 1;
            break;
        }
    }
    let s = String::from_utf8(v).expect("digits");
    let t = s.trim_start_matches('0');
    if t.is_empty() {
        "0".into()
    } else {
        t.into()
    }
}

/// Writes digits × 10^-k in one of several notations.
fn notation(r: &mut Rng, digits: &str, k: i64) -> String {
    let neg = if r.chance(1, 4) { "-" } else { "" };
    let digits = if digits.trim_start_matches('0').is_empty() { "0" } else { digits.trim_start_matches('0') };
    let n = digits.len() as i64;
    match r.below(4) {
        0 if k <= 0 && k > -400 => format!("{neg}{digits}{}", "0".repeat((-k) as usize)),
        0 | 1 if k > 0 && k < 1300 => {
            if n > k {
                format!("{neg}{}.{}", &digits[..(n - k) as usize], &digits[(n - k) as usize..])
            } else {
                format!("{neg}0.{}{digits}", "0".repeat((k - n) as usize))
            }
        }
        2 if n > 1 => {
            let e = if r.chance(1, 2) { "e" } else { "E" };
            let x = n - 1 - k;
            let plus = if x >= 0 && r.chance(1, 3) { "+" } else { "" };
            let z = if x >= 0 && r.chance(1, 6) { "00" } else { "" };
            format!("{neg}{}.{}{}{e}{plus}{z}{x}", &digits[..1], &digits[1..], "0".repeat(if r.chance(1, 5) { r.below(30) } else { 0 }))
        }
        _ => {
            // the point moved to an arbitrary place
            let p = 1 + r.below(digits.len());
            if p < digits.len() {
                format!("{neg}{}.{}e{}", &digits[..p], &digits[p..], n - p as i64 - k)
            } else {
                format!("{neg}{digits}e{}", -k)
            }
        }
    }
}

/// Exact values and midpoints of neighbouring floats, and their closest
/// surroundings.
pub fn near_boundary(r: &mut Rng, kind: Option<usize>) -> String {
    let (mant, ebits) = if r.chance(1, 2) { (23u32, 8u32) } else { (52, 11) };
    let inf = ((1u64 << ebits) - 1) << mant;
    let m = match kind.unwrap_or_else(|| r.below(8)) {
        0 => r.below(40) as u64,
        1 => inf - 1 - r.below(40) as u64,
        2 => ((1u64 << mant) as i64 + r.below(41) as i64 - 20) as u64,
        3 => ((r.next() % ((1 << ebits) - 1)) << mant) + r.below(3) as u64,
        4 => (((r.next() % ((1 << ebits) - 1)) + 1) << mant) - 1 - r.below(3) as u64,
        5 => {
            // integers around 2^53 and 2^24
            let e = ((1u64 << (ebits - 1)) - 1) + mant as u64 + r.below(4) as u64;
            (e << mant) | (r.next() & ((1 << mant) - 1))
        }
        _ => r.next() % inf,
    };
    let bias = (1i64 << (ebits - 1)) - 1;
    let (e, f) = ((m >> mant) as i64, m & ((1u64 << mant) - 1));
    let (a, e2) = if e == 0 { (f, 1 - bias - mant as i64) } else { (f | (1 << mant), e - bias - mant as i64) };
    let (a, e2) = if r.chance(2, 3) { (2 * a + 1, e2 - 1) } else { (a, e2) };
    let mut b = Big::from_u128(a as u128);
    let mut k = 0i64;
    if e2 >= 0 {
        b.shl(e2 as usize);
    } else {
        k = -e2;
        for _ in 0..k {
            b.mul_add(5, 0);
        }
    }
    let d = b.to_dec();
    let (digits, k) = match r.below(5) {
        0 | 1 => (d, k),
        2 => {
            let z = *r.pick(&[0usize, 1, 5, 20, 60, 300]);
            (format!("{d}{}1", "0".repeat(z)), k + z as i64 + 1)
        }
        3 if d != "0" => {
            let z = *r.pick(&[1usize, 5, 20, 60, 300]);
            (format!("{}{}", decrement(&d), "9".repeat(z)), k + z as i64)
        }
        _ => {
            // cut or rounded near 17..25 digits
            let n = r.range(1, 25).min(d.len());
            let cut = (d.len() - n) as i64;
            (d[..n].to_string(), k - cut)
        }
    };
    notation(r, &digits, k)
}

fn halves(cx: &mut Ctx, idx: u64) -> R {
    let mut r = cx.rng.clone();
    for _ in 0..12 {
        let s = near_boundary(&mut r, (idx < 64).then_some(idx as usize % 8));
        cx.sample(|| s.clone());
        ensure!(is_number(s.as_bytes()), "harness: not a number: {s}");
        check(cx, &s)?;
    }
    cx.rng = r;
    Ok(())
}

fn long(cx: &mut Ctx, idx: u64) -> R {
    let sz = gen::sizes(cx.env, cx.env.amt(3_000, 40_000) as usize);
    let n = sz[idx as usize / 10].max(1);
    let s = match idx % 10 {
        0 => "9".repeat(n),
        1 => format!("-1{}", "0".repeat(n)),
        2 => format!("0.{}1", "0".repeat(n)),
        3 => format!("1.{}", "0".repeat(n)),
        4 => format!("1e{}", "0".repeat(n)),
        5 => format!("1E-{}1", "0".repeat(n)),
        6 => format!("0.{}1e{}", "0".repeat(n), n + 1),
        7 => format!("1{}e-{}", "0".repeat(n), n),
        8 => format!("{}e-{}", "3".repeat(n), n),
        _ => format!("1e{}{}", if n % 2 == 0 { "-" } else { "" }, "9".repeat(n)),
    };
    check(cx, &s)
}

fn short(cx: &mut Ctx, idx: u64) -> R {
    let max = cx.env.amt(5, 6) as usize;
    c01::number_seqs(max, idx, |s| match as_str(s) {
        Some(t) if is_number(s) => check(cx, t),
        _ => Ok(()),
    })
}

fn random(cx: &mut Ctx, _: u64) -> R {
    let mut r = cx.rng.clone();
    for _ in 0..50 {
        let s = gen::number(&mut r, cx.env);
        let s = String::from_utf8_lossy(&s).into_owned();
        check(cx, &s)?;
    }
    // random integers of every digit count
    for _ in 0..50 {
        let n = r.range(1, 42);
        let mut s: String = (0..n).map(|i| (b'0' + if i == 0 { 1 + r.below(9) } else { r.below(10) } as u8) as char).collect();
        if r.chance(1, 2) {
            s.insert(0, '-');
        }
        check(cx, &s)?;
    }
    cx.rng = r;
    Ok(())
}

/// Values of other kinds give nothing, whatever text they hold.
fn others(cx: &mut Ctx, _: u64) -> R {
    let mut r = cx.rng.clone();
    for _ in 0..50 {
        let n = String::from_utf8_lossy(&gen::number(&mut r, cx.env)).into_owned();
        for s in [format!("\"{n}\""), format!("[{n}]"), format!("{{\"{n}\":{n}}}"), "null".into(), "true".into(), "false".into(), "[]".into(), "{}".into(), "\"\"".into()] {
            let Ok(v) = Value::from_json(&s) else { continue };
            cx.case_bytes(s.as_bytes(), true);
            let none = format!("{:?}", ((None::<u8>, None::<u8>, None::<u8>, None::<u8>, None::<u8>, None::<u8>), (None::<u8>, None::<u8>, None::<u8>, None::<u8>, None::<u8>, None::<u8>), None::<u8>, None::<u8>));
            let got = all!(v);
            ensure!(got == none && v.as_number().is_none(), "a value that is not a number converts to {got}: {s}");
        }
    }
    cx.rng = r;
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C13",
    rule: "numbers: every power of two up to 2^130 and of ten up to 10^60 with their neighbours, both signs and 17 suffixes; all number-like strings up to a length bound; exact values and midpoints of neighbouring f32/f64 (random, subnormal, largest, powers) and their closest surroundings in several notations; long digit and exponent runs; random numbers; values of other kinds. A case is the number's source text; non-trivial if it is a valid number. Oracle: exact big-integer arithmetic. Each number is converted through JsonNumber, Value, array elements, object entries, document nodes and tokens.",
    stack: 0,
    workloads: &[
        Workload { name: "integer-boundaries", total: |_| 131 + 61, run: integers },
        Workload { name: "float-boundaries", total: |e| e.amt(4_000, 300_000), run: halves },
        Workload { name: "long", total: |e| gen::sizes(e, e.amt(3_000, 40_000) as usize).len() as u64 * 10, run: long },
        Workload { name: "short", total: |_| 64, run: short },
        Workload { name: "other-kinds", total: |e| e.amt(100, 2_000), run: others },
        Workload { name: "random", total: |e| e.amt(2_000, 200_000), run: random },
    ],
};
