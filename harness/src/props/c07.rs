//! C07 Any Rust string encodes to JSON text that denotes it.
use crate::gen;
use crate::huge::{Huge, LENS};
use crate::model;
use crate::rt::*;
use crate::{bail, ensure};
use justjson::{Entry, JsonString, Object, Value};

/// `body` is a valid JSON string body denoting `t`, up to KF2.
fn denotes(cx: &mut Ctx, body: &str, t: &str, route: &str) -> R {
    ensure!(model::valid_body(body), "{route}: \"{}\" is not a valid JSON string body (text {})", show(body.as_bytes()), show(t.as_bytes()));
    let d = model::decode(body);
    if d != t {
        if t.contains('\u{7}') && model::decode_with(body, '\u{7}') == t {
            cx.known("KF2", || format!("{route}: {t:?} is written as {body}"));
        } else {
            bail!("{route}: \"{}\" denotes {} instead of {}", show(body.as_bytes()), show(d.as_bytes()), show(t.as_bytes()));
        }
    }
    Ok(())
}

fn one(cx: &mut Ctx, j: &JsonString<'_>, t: &str, route: &str) -> Result<String, String> {
    let body: String = j.as_json().collect();
    denotes(cx, &body, t, route)?;
    let ctx = || format!("{route} (text {})", show(t.as_bytes()));
    let d = j.as_json().to_string();
    ensure!(d == body, "{}: displayed JSON form {} differs from the iterated {}", ctx(), show(d.as_bytes()), show(body.as_bytes()));
    let (n, t2) = flagged(&j.as_json(), cx.rng.below(100));
    ensure!(t2 == body, "{}: {n} of the JSON form gives {} instead of {}", ctx(), show(t2.as_bytes()), show(body.as_bytes()));
    let e = j.escape_if_needed();
    ensure!(e.as_str() == body, "{}: escape_if_needed gives {} instead of {}", ctx(), show(e.as_bytes()), show(body.as_bytes()));
    if let Some(s) = j.as_json_str() {
        ensure!(s.as_str() == body, "{}: as_json_str gives {} instead of {}", ctx(), show(s.as_bytes()), show(body.as_bytes()));
    } else {
        ensure!(body != t, "{}: as_json_str gives nothing though nothing needs escaping", ctx());
    }
    ensure!(j.len() == body.len(), "{}: len is {} but the JSON form has {} bytes", ctx(), j.len(), body.len());
    ensure!(j.decoded_len() == t.len(), "{}: decoded_len is {} but the text has {} bytes", ctx(), j.decoded_len(), t.len());
    ensure!(j.is_empty() == t.is_empty(), "{}: is_empty is {}", ctx(), j.is_empty());
    ensure!(j.decoded().eq(t.chars()), "{}: decoded gives {}", ctx(), show(j.decoded().collect::<String>().as_bytes()));
    ensure!(j.to_string() == t, "{}: Display gives {}", ctx(), show(j.to_string().as_bytes()));
    ensure!(j.decode_if_needed().as_str() == t, "{}: decode_if_needed gives {}", ctx(), show(j.decode_if_needed().as_bytes()));
    if let Some(s) = j.as_str() {
        ensure!(s == t, "{}: as_str gives {}", ctx(), show(s.as_bytes()));
    } else {
        bail!("{}: as_str gives nothing", ctx());
    }
    Ok(body)
}

pub fn check(cx: &mut Ctx, t: &str, all: bool) -> R {
    staged_str(t, |t| check_here(cx, t, all))
}
fn check_here(cx: &mut Ctx, t: &str, all: bool) -> R {
    let j = JsonString::from(t);
    let body = one(cx, &j, t, "From<&str>")?;
    cx.case_bytes(t.as_bytes(), body != t);
    cx.count("strings_encoded", 1);
    let k = JsonString::from(t.to_string());
    let b2 = one(cx, &k, t, "From<String>")?;
    ensure!(b2 == body, "owned and borrowed encode differently: {} and {}", show(b2.as_bytes()), show(body.as_bytes()));
    if !all {
        return Ok(());
    }
    one(cx, &j.clone(), t, "clone of From<&str>")?;
    one(cx, &k.clone(), t, "clone of From<String>")?;
    // serialized
    for (v, r) in [(Value::from(t), "Value::from(&str)"), (Value::from(t.to_string()), "Value::from(String)"), (Value::from(k.clone()), "Value::from(JsonString)")] {
        let o = v.to_json();
        ensure!(o.len() >= 2 && o.starts_with('"') && o.ends_with('"'), "{r}: to_json gives {}", show(o.as_bytes()));
        denotes(cx, &o[1..o.len() - 1], t, r)?;
        for p in [v.to_json_pretty(), v.to_string(), format!("{v:#}")] {
            ensure!(p == o, "{r}: output routes differ: {} and {}", show(p.as_bytes()), show(o.as_bytes()));
        }
    }
    let obj: Object<'_> = [Entry::new(t, t), Entry::new(t.to_string(), Value::Array(vec![Value::from(t)]))].into_iter().collect();
    let v = Value::Object(obj);
    let o = v.to_json();
    let want = format!("{{\"{body}\":\"{body}\",\"{body}\":[\"{body}\"]}}");
    if o != want {
        // another correct spelling is fine
        let p = model::parse(o.as_bytes(), model::Cfg::DEFAULT);
        ensure!(p.ok() && p.nodes.len() == 6, "serialized object is {}", show(o.as_bytes()));
        for i in [1, 2, 3, 5] {
            let n = p.nodes[i];
            denotes(cx, &o[n.start..n.end], t, "serialized object")?;
        }
    }
    // reading back
    let lit = format!("\"{body}\"");
    match JsonString::from_json(&lit) {
        Ok(r) => {
            if !t.contains(['\u{7}', '\u{8}']) {
                ensure!(r.decoded().eq(t.chars()), "reading {} back gives {}", show(lit.as_bytes()), show(r.to_string().as_bytes()));
                ensure!(r == j && j == r && r == k && k == r, "the string read back from {} is not equal to the original", show(lit.as_bytes()));
            }
        }
        Err(e) => bail!("the JSON form {} does not parse: {e:?}", show(lit.as_bytes())),
    }
    Ok(())
}

/// Every scalar value, alone and embedded; idx = cp / 256.
fn scalars(cx: &mut Ctx, idx: u64) -> R {
    for k in 0..256u32 {
        let Some(c) = char::from_u32(idx as u32 * 256 + k) else { continue };
        let mut b = [0; 4];
        check(cx, c.encode_utf8(&mut b), idx < 16 || idx % 16 == 0)?;
        check(cx, &format!("a{c}{c}\u{1f}{c}b"), false)?;
        cx.count("scalars", 1);
    }
    Ok(())
}
const CL: [char; 16] =
    ['a', '"', '\\', '/', '\n', '\u{7}', '\u{8}', '\0', '\u{1f}', '\u{7f}', '\u{80}', 'é', '€', '\u{ffff}', '😀', '\u{10ffff}'];
fn classes(cx: &mut Ctx, idx: u64) -> R {
    let (a, b) = (CL[idx as usize / 16], CL[idx as usize % 16]);
    if idx == 0 {
        check(cx, "", true)?;
    }
    check(cx, &String::from_iter([a, b]), true)?;
    for c in CL {
        check(cx, &String::from_iter([a, b, c]), true)?;
        for d in CL {
            check(cx, &String::from_iter([a, b, c, d]), true)?;
            if cx.env.tier == Tier::Thorough {
                for e in CL {
                    check(cx, &String::from_iter([a, b, c, d, e]), false)?;
                }
            }
        }
    }
    Ok(())
}
fn edge_pairs(cx: &mut Ctx, idx: u64) -> R {
    let Some(a) = char::from_u32(gen::EDGE_CPS[idx as usize]) else { return Ok(()) };
    for &b in gen::EDGE_CPS {
        let Some(b) = char::from_u32(b) else { continue };
        check(cx, &String::from_iter([a, b]), true)?;
        check(cx, &String::from_iter(['x', a, 'y', b, b, 'z']), true)?;
        check(cx, &String::from_iter([a, b, a]), false)?;
    }
    Ok(())
}
fn sized(cx: &mut Ctx, idx: u64) -> R {
    let sz = gen::sizes(cx.env, cx.env.amt(70_000, 1_200_000) as usize);
    let n = sz[idx as usize];
    for x in ["", "\n", "é", "€", "😀", "\\", "\0", "\u{7f}", "\u{80}", "\"", "\u{1f}"] {
        for base in ["a", "é", "\t", "😀", "\u{1}"] {
            let n = n / base.len();
            for at in [0, n / 2, n] {
                let s = format!("{}{}{}", base.repeat(at), x, base.repeat(n - at));
                check(cx, &s, n < 300)?;
                cx.max("longest_string", s.len() as u64);
            }
        }
    }
    Ok(())
}
fn random(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..40 {
        let mut r = cx.rng.clone();
        let n = gen::len(&mut r, cx.env, 5000);
        let t = gen::text(&mut r, cx.env, n);
        cx.rng = r;
        cx.sample(|| show(t.as_bytes()));
        check(cx, &t, true)?;
    }
    Ok(())
}

/// Texts of more than 4 (and 2) GiB, with and without something to escape at the far end.
fn huge(cx: &mut Ctx, idx: u64) -> R {
    let n = LENS[idx as usize / 2] / 2 * 2;
    let escapes = idx % 2 == 1;
    let tail = if escapes { "\u{1}\n" } else { "zz" };
    let Some(h) = Huge::new(n, "é".as_bytes(), &[(0, b"yy"), (n - 2, tail.as_bytes())]) else {
        cx.count("huge_unavailable", 1);
        return Ok(());
    };
    let t = h.text();
    cx.case(mix(n as u64 + escapes as u64), escapes);
    let what = format!("a text of {n} bytes ending in {tail:?}");
    let (body_len, chars) = if escapes { (n - 2 + 6 + 2, n / 2 + 1 - 2 + 2 + 8 - 1) } else { (n, n / 2 + 2) };
    let j = JsonString::from(t);
    ensure!(j.len() == body_len, "{what}: len is {} instead of {body_len}", j.len());
    ensure!(j.decoded_len() == n, "{what}: decoded_len is {}", j.decoded_len());
    ensure!(!j.is_empty(), "{what} is empty");
    ensure!(j.as_str().is_some_and(|x| x.len() == n && x.as_ptr() == t.as_ptr()), "{what}: as_str gives {:?} bytes", j.as_str().map(str::len));
    if cx.env.tier == Tier::Quick {
        return Ok(());
    }
    let (mut got, mut bytes, mut last) = (0usize, 0usize, [' '; 3]);
    for c in j.as_json() {
        got += 1;
        bytes += c.len_utf8();
        last = [last[1], last[2], c];
    }
    ensure!(got == chars && bytes == body_len, "{what} is written as {got} characters, {bytes} bytes, instead of {chars}, {body_len}");
    let end = if escapes { ['1', '\\', 'n'] } else { ['é', 'z', 'z'] };
    ensure!(last == end, "{what} is written as a text ending in {last:?}");
    cx.max("longest_string", n as u64);
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C07",
    rule: "Rust strings: every Unicode scalar alone, doubled and embedded, all sequences of 16 character classes up to length 4 (5), pairs of edge characters, runs up to 70 KB (1.2 MB) with one odd character at start, middle and end, random texts; as &str, String and clones, through as_json, Display, escape_if_needed, as_json_str, keys, values and every output route. Oracle: the independent lexer and decoder. Non-trivial: distinct strings that need escaping.",
    stack: 0,
    workloads: &[
        Workload { name: "huge", total: |e| e.amt(2, 4), run: huge },
        Workload { name: "classes", total: |_| 256, run: classes },
        Workload { name: "edge-pairs", total: |_| gen::EDGE_CPS.len() as u64, run: edge_pairs },
        Workload { name: "scalars", total: |_| 0x1100, run: scalars },
        Workload { name: "sized", total: |e| gen::sizes(e, e.amt(70_000, 1_200_000) as usize).len() as u64, run: sized },
        Workload { name: "random", total: |e| e.amt(3000, 80000), run: random },
    ],
};
