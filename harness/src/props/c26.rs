//! C26 String views obey the iterator contract.
use crate::gen::{self, EscStyle};
use crate::model;
use crate::rt::*;
use crate::{bail, ensure};
use justjson::{JsonString, Value};
use std::fmt::{self, Display, Write};

/// A writer that keeps everything, or fails after some bytes.
struct W {
    buf: String,
    left: usize,
}
impl fmt::Write for W {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.buf.push_str(s);
        Ok(())
    }
}

fn rest_is(it: impl Iterator<Item = char>, want: &[char]) -> bool {
    let mut n = 0;
    for c in it {
        if want.get(n) != Some(&c) {
            return false;
        }
        n += 1;
    }
    n == want.len()
}

/// The contract at every position (spread out over long strings); a plain
/// traversal defines what there is.
fn contract<I: Iterator<Item = char> + Clone + Display>(cx: &mut Ctx, it: I, what: &str, t: &str) -> R {
    let w = |e: String| format!("{what} of {}: {e}", show(t.as_bytes()));
    let all: Vec<char> = it.clone().collect();
    // a plain traversal with next
    let mut x = it.clone();
    let mut n = 0;
    while let Some(c) = x.next() {
        ensure!(all.get(n) == Some(&c), "{}", w(format!("next and collect differ at position {n}")));
        n += 1;
    }
    ensure!(n == all.len(), "{}", w(format!("next gives {n} characters, collect {}", all.len())));
    let mut r = cx.rng.clone();
    let stride = (all.len() / 48).max(1);
    let mut next_check = 0;
    let mut clones: Vec<(usize, I)> = vec![];
    let mut cur = it.clone();
    let mut buf = W { buf: String::new(), left: usize::MAX };
    for at in 0..=all.len() {
        let left = &all[at..];
        // size hint and clone at every position
        let (lo, hi) = cur.size_hint();
        ensure!(lo <= left.len(), "{}", w(format!("at position {at} size_hint promises at least {lo}, {} are left", left.len())));
        ensure!(hi.is_none_or(|h| h >= left.len()), "{}", w(format!("at position {at} size_hint promises at most {hi:?}, {} are left", left.len())));
        if at >= next_check || at == all.len() {
            next_check = at + 1 + if stride > 1 { r.below(2 * stride) } else { 0 };
            let c = cur.clone();
            ensure!(c.size_hint() == (lo, hi), "{}", w(format!("at position {at} a clone has another size hint")));
            ensure!(rest_is(c, left), "{}", w(format!("at position {at} a clone does not give the rest")));
            // Display, twice, with and without flags
            for round in 0..3 {
                buf.buf.clear();
                let res = match round {
                    0 | 2 => write!(buf, "{cur}"),
                    _ => write!(buf, "<{cur}>"),
                };
                ensure!(res.is_ok(), "{}", w(format!("at position {at} Display fails")));
                let s: &str = if round == 1 { buf.buf.get(1..buf.buf.len() - 1).unwrap_or("?") } else { &buf.buf };
                let ok = s.chars().eq(left.iter().copied());
                ensure!(ok, "{}", w(format!("at position {at} Display writes {} instead of the rest", show(buf.buf.as_bytes()))));
            }
            let (how, o) = if r.chance(1, 5) { flagged_alt(&cur, r.below(6)) } else { flagged(&cur, r.below(14)) };
            ensure!(o.chars().eq(left.iter().copied()), "{}", w(format!("at position {at} Display with {how} writes {} instead of the rest", show(o.as_bytes()))));
            // a failing display does not advance either
            let mut f = W { buf: String::new(), left: r.below(6) };
            let _ = write!(f, "{cur}");
            ensure!(cur.size_hint() == (lo, hi), "{}", w(format!("at position {at} displaying changes the size hint")));
            ensure!(rest_is(cur.clone(), left), "{}", w(format!("at position {at} displaying advances the iterator")));
            // adaptors built on next and size_hint
            match r.below(7) {
                0 => {
                    let k = r.below(left.len() + 2);
                    let mut c = cur.clone();
                    ensure!(c.nth(k) == left.get(k).copied(), "{}", w(format!("at position {at} nth({k}) is wrong")));
                    let m = (k + 1).min(left.len());
                    ensure!(rest_is(c, &left[m..]), "{}", w(format!("at position {at} nth({k}) leaves the wrong rest")));
                }
                1 => ensure!(cur.clone().last() == left.last().copied(), "{}", w(format!("at position {at} last() is wrong"))),
                2 => ensure!(cur.clone().count() == left.len(), "{}", w(format!("at position {at} count() is wrong"))),
                3 => ensure!(cur.clone().collect::<String>() == left.iter().collect::<String>(), "{}", w(format!("at position {at} collect() is wrong"))),
                4 => ensure!(cur.clone().eq(left.iter().copied()), "{}", w(format!("at position {at} eq() is wrong"))),
                5 => {
                    let mut c = cur.clone();
                    let k = r.below(left.len() + 2);
                    let got: Vec<char> = c.by_ref().take(k).collect();
                    let m = k.min(left.len());
                    ensure!(got == left[..m] && rest_is(c, &left[m..]), "{}", w(format!("at position {at} take({k}) is wrong")));
                }
                _ => {
                    let s: Vec<char> = cur.clone().step_by(2).collect();
                    ensure!(s.iter().copied().eq(left.iter().copied().step_by(2)), "{}", w(format!("at position {at} step_by(2) is wrong")));
                }
            }
            if r.chance(1, 3) && clones.len() < 6 {
                clones.push((at, cur.clone()));
            }
            cx.count("positions_checked", 1);
        }
        let got = cur.next();
        ensure!(got == all.get(at).copied(), "{}", w(format!("at position {at} next gives {got:?}")));
    }
    for k in 0..4 {
        ensure!(cur.next().is_none(), "{}", w(format!("gives a character after the end (call {k})")));
        ensure!(cur.size_hint().0 == 0, "{}", w("promises characters after the end".into()));
        ensure!(cur.to_string().is_empty(), "{}", w("displays something after the end".into()));
        ensure!(cur.clone().next().is_none(), "{}", w("a clone of the finished iterator goes on".into()));
    }
    // clones taken on the way were left alone
    for (at, c) in clones {
        ensure!(rest_is(c.clone(), &all[at..]), "{}", w(format!("the clone taken at position {at} moved")));
    }
    cx.rng = r;
    Ok(())
}

/// Both views; the decoded and JSON texts themselves are C06's and C07's.
fn string(cx: &mut Ctx, j: &JsonString<'_>, dec: Option<&str>, json: Option<&str>, how: &str, t: &str) -> R {
    contract(cx, j.decoded(), &format!("decoded() ({how})"), t)?;
    contract(cx, j.as_json(), &format!("as_json() ({how})"), t)?;
    if let Some(d) = dec {
        ensure!(j.decoded().eq(d.chars()), "decoded() ({how}) of {} does not give {}", show(t.as_bytes()), show(d.as_bytes()));
    }
    if let Some(d) = json {
        ensure!(j.as_json().eq(d.chars()), "as_json() ({how}) of {} does not give {}", show(t.as_bytes()), show(d.as_bytes()));
    }
    cx.count("iterators", 2);
    Ok(())
}

/// A text as Rust string, and a JSON string body as parsed.
fn from_text(cx: &mut Ctx, t: &str) -> R {
    staged_str(t, |t| from_text_here(cx, t))
}
fn from_text_here(cx: &mut Ctx, t: &str) -> R {
    string(cx, &JsonString::from(t), Some(t), None, "From<&str>", t)?;
    string(cx, &JsonString::from(t.to_string()), Some(t), None, "From<String>", t)?;
    cx.case(hash64(t.as_bytes()), !t.is_empty());
    Ok(())
}
fn from_body(cx: &mut Ctx, lit: &str) -> R {
    staged_str(lit, |t| from_body_here(cx, t))
}
fn from_body_here(cx: &mut Ctx, lit: &str) -> R {
    let body = &lit[1..lit.len() - 1];
    let d = if model::has_b_escape(body) { None } else { Some(model::decode(body)) };
    let a = match JsonString::from_json(lit) {
        Ok(a) => a,
        Err(e) => bail!("{} does not parse: {e:?}", show(lit.as_bytes())),
    };
    string(cx, &a, d.as_deref(), Some(body), "parsed", lit)?;
    if let Ok(Value::String(b)) = Value::from_json_bytes(lit.as_bytes()) {
        string(cx, &b, d.as_deref(), Some(body), "parsed from bytes", lit)?;
    }
    string(cx, &a.clone(), d.as_deref(), Some(body), "clone of parsed", lit)?;
    cx.case(hash64(lit.as_bytes()) ^ 1, !body.is_empty());
    Ok(())
}

fn every_char(cx: &mut Ctx, idx: u64) -> R {
    for c in (idx * 4352..(idx + 1) * 4352).filter_map(|c| char::from_u32(c as u32)) {
        let full = (c as u32) < 0x300 || cx.env.tier == Tier::Thorough || c as u32 % 16 == cx.env.seed as u32 % 16;
        if !full {
            continue;
        }
        from_text(cx, &format!("a{c}{c}b"))?;
        let mut l = vec![b'"', b'x'];
        let mut r = cx.rng.clone();
        gen::push_u(&mut l, c, &mut r, 2);
        cx.rng = r;
        if c >= ' ' && c != '"' && c != '\\' {
            l.extend(c.to_string().as_bytes());
        }
        l.extend(b"\"");
        from_body(cx, &String::from_utf8_lossy(&l))?;
    }
    Ok(())
}

const PIECES: [&str; 12] = ["\\n", "\\u0041", "\\ud83d\\ude00", "\\\\", "\\/", "\\\"", "a", "\u{e9}", "\u{1f600}", "\\u00e9", "\\b", "\\uFFFF"];
const RAW: [&str; 12] = ["\n", "\u{1}", "\u{1f600}", "\\", "/", "\"", "a", "\u{e9}", "\u{7f}", "\u{1f}", "\t", "\u{ffff}"];
/// All sequences of up to three (four) pieces.
fn pieces(cx: &mut Ctx, idx: u64) -> R {
    let (a, b) = (idx as usize / 12, idx as usize % 12);
    let k = if cx.env.tier == Tier::Thorough { 144 } else { 12 };
    let (pa, pb, ra, rb) = (PIECES[a], PIECES[b], RAW[a], RAW[b]);
    if b == 0 {
        from_body(cx, &format!("\"{pa}\""))?;
        from_text(cx, ra)?;
    }
    from_body(cx, &format!("\"{pa}{pb}\""))?;
    from_text(cx, &format!("{ra}{rb}"))?;
    for i in 0..k {
        let (x, y) = if k == 12 { (i, None) } else { (i / 12, Some(i % 12)) };
        from_body(cx, &format!("\"{pa}{pb}{}\"", PIECES[x]))?;
        from_text(cx, &format!("{ra}{rb}{}", RAW[x]))?;
        if let Some(y) = y {
            from_body(cx, &format!("\"{pa}{pb}{}{}\"", PIECES[x], PIECES[y]))?;
            from_text(cx, &format!("{ra}{rb}{}{}", RAW[x], RAW[y]))?;
        }
    }
    Ok(())
}

fn random(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..40 {
        let mut r = cx.rng.clone();
        let n = gen::len(&mut r, cx.env, 1500);
        let t = gen::text(&mut r, cx.env, n);
        let st = EscStyle::random(&mut r);
        let mut l = vec![b'"'];
        l.extend(gen::encode(&mut r, &t, st));
        l.push(b'"');
        cx.rng = r;
        let l = String::from_utf8_lossy(&l).into_owned();
        cx.sample(|| show(l.as_bytes()));
        from_text(cx, &t)?;
        from_body(cx, &l)?;
    }
    Ok(())
}

/// One piece over and over, at boundary sizes.
fn long(cx: &mut Ctx, idx: u64) -> R {
    let sizes = gen::sizes(cx.env, cx.env.amt(5_000, 70_000) as usize);
    let (n, k) = (sizes[idx as usize / 12], idx as usize % 12);
    let a = RAW[k].chars().count();
    from_text(cx, &RAW[k].repeat(n / a.max(1)))?;
    from_text(cx, &format!("{}{}", "a".repeat(n), RAW[k]))?;
    from_body(cx, &format!("\"{}{}\"", "a".repeat(n), PIECES[k]))?;
    from_body(cx, &format!("\"{}\"", PIECES[k].repeat(n / PIECES[k].len())))
}

/// Strings inside documents, and Display of whole strings.
fn displayed(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..40 {
        let mut r = cx.rng.clone();
        let n = gen::len(&mut r, cx.env, 300);
        let t = gen::text(&mut r, cx.env, n);
        cx.rng = r;
        for j in [JsonString::from(t.as_str()), JsonString::from(t.clone())] {
            // interleaved use of several views of one string
            let (mut a, mut b) = (j.decoded(), j.as_json());
            let (mut sa, mut sb) = (String::new(), String::new());
            loop {
                let (before_a, before_b) = (a.to_string(), b.to_string());
                let (x, y) = (a.next(), b.next());
                if let Some(c) = x {
                    sa.push(c);
                    ensure!(before_a.starts_with(c) && before_a.len() == c.len_utf8() + a.to_string().len(), "Display before and after next disagree: {}", show(t.as_bytes()));
                }
                if let Some(c) = y {
                    sb.push(c);
                    ensure!(before_b.starts_with(c) && before_b.len() == c.len_utf8() + b.to_string().len(), "Display before and after next disagree: {}", show(t.as_bytes()));
                }
                if x.is_none() && y.is_none() {
                    break;
                }
                if sb.len() > 400 {
                    sa.extend(a.by_ref());
                    sb.extend(b.by_ref());
                }
            }
            ensure!(sa == t, "decoded() interleaved with as_json() gives {}", show(sa.as_bytes()));
            ensure!(sb == j.as_json().to_string(), "as_json() interleaved with decoded() gives {}", show(sb.as_bytes()));
        }
        cx.case(hash64(t.as_bytes()) ^ 2, true);
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C26",
    rule: "strings: every char (one in 16 outside the first 768 in quick) raw and as \\u escapes; all sequences of up to 3 (4) of 12 escape and character pieces; one piece repeated at boundary sizes; random texts in random spellings; each as Rust string (borrowed, owned), parsed (str, bytes) and cloned. A case is the string and its representation class; non-trivial if not empty. On decoded() and as_json(), at every position (spread over long strings): size_hint against what is left, clone, Display (whole, repeated, failing writer), adaptors, and four calls after the end.",
    stack: 0,
    workloads: &[
        Workload { name: "every-char", total: |_| 256, run: every_char },
        Workload { name: "pieces", total: |_| 144, run: pieces },
        Workload { name: "random", total: |e| e.amt(300, 20_000), run: random },
        Workload { name: "long", total: |e| 12 * gen::sizes(e, e.amt(5_000, 70_000) as usize).len() as u64, run: long },
        Workload { name: "interleaved", total: |e| e.amt(300, 20_000), run: displayed },
    ],
};
