//! C25 The borrowed-or-owned string type behaves as the str it holds.
use super::c08::{Fnv, Rec};
use crate::ensure;
use crate::gen;
use crate::rt::*;
use justjson::{AnyStr, JsonString};
use std::borrow::Borrow;
use std::collections::hash_map::RandomState;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, BuildHasherDefault, Hash};
use std::ops::Deref;

/// The text in every representation.
fn reps<'a>(t: &'a str) -> Vec<(AnyStr<'a>, &'static str)> {
    let mut big = String::with_capacity(t.len() + 40);
    big.push_str(t);
    vec![
        (AnyStr::Borrowed(t), "Borrowed"),
        (AnyStr::Owned(t.to_string()), "Owned"),
        (AnyStr::from(big), "From<String>"),
        (AnyStr::from(t).clone(), "clone of From<&str>"),
        (AnyStr::Owned(t.to_string()).clone(), "clone of Owned"),
    ]
}

pub fn views(x: &AnyStr<'_>, t: &str, how: &str) -> R {
    let f = |n: &str, s: &str| -> R {
        ensure!(s.as_bytes() == t.as_bytes(), "{how}: {n} gives {} instead of {}", show(s.as_bytes()), show(t.as_bytes()));
        Ok(())
    };
    f("as_str", x.as_str())?;
    f("AsRef", x.as_ref())?;
    f("Borrow", <AnyStr<'_> as Borrow<str>>::borrow(x))?;
    f("Deref", x.deref())?;
    f("deref coercion", &x[..])?;
    let c = x.clone();
    f("clone", c.as_str())?;
    ensure!(matches!(x, AnyStr::Borrowed(_)) == matches!(c, AnyStr::Borrowed(_)), "{how}: clone changes between borrowed and owned");
    match x {
        AnyStr::Borrowed(s) => {
            f("the borrowed variant", s)?;
            ensure!(s.as_ptr() == x.as_str().as_ptr() && c.as_ptr() == s.as_ptr(), "{how}: a borrowed view is elsewhere");
        }
        AnyStr::Owned(s) => f("the owned variant", s)?,
    }
    ensure!(x.len() == t.len() && x.is_empty() == t.is_empty() && x.chars().eq(t.chars()), "{how}: str methods differ for {}", show(t.as_bytes()));
    // hash: the very same calls, so any hasher agrees
    ensure!(Rec::of(x) == Rec::of(t), "{how}: hash differs from str's for {}", show(t.as_bytes()));
    let pair = [x.clone(), x.clone()];
    ensure!(Rec::of(&pair[..]) == Rec::of(&[t, t][..]), "{how}: slice hash differs from str's for {}", show(t.as_bytes()));
    Ok(())
}

pub fn pair(x: &AnyStr<'_>, y: &AnyStr<'_>, a: &str, b: &str, how: (&str, &str)) -> R {
    let (eq, ord) = (a == b, a.cmp(b));
    let w = |n: &str| format!("{n}: {} ({}) against {} ({})", show(a.as_bytes()), how.0, show(b.as_bytes()), how.1);
    ensure!((x == y) == eq && (x != y) != eq, "== AnyStr {}", w("wrong"));
    ensure!((*x == *b) == eq && (*x != *b) != eq, "== str {}", w("wrong"));
    ensure!((*x == b) == eq && (*x != b) != eq, "== &str {}", w("wrong"));
    ensure!(x.partial_cmp(y) == Some(ord), "partial_cmp AnyStr {}", w("wrong"));
    ensure!(x.partial_cmp(b) == Some(ord), "partial_cmp str {}", w("wrong"));
    ensure!(x.partial_cmp(&b) == Some(ord), "partial_cmp &str {}", w("wrong"));
    ensure!(
        (x < y) == ord.is_lt() && (x <= y) == ord.is_le() && (x > y) == ord.is_gt() && (x >= y) == ord.is_ge(),
        "comparison operators with AnyStr {}",
        w("wrong")
    );
    ensure!((*x < b) == ord.is_lt() && (*x <= b) == ord.is_le() && (*x > b) == ord.is_gt() && (*x >= b) == ord.is_ge(), "comparison operators with &str {}", w("wrong"));
    ensure!((*x < *b) == ord.is_lt() && (*x <= *b) == ord.is_le() && (*x > *b) == ord.is_gt() && (*x >= *b) == ord.is_ge(), "comparison operators with str {}", w("wrong"));
    Ok(())
}

fn both(cx: &mut Ctx, a: &str, b: &str, few: bool) -> R {
    staged_str(a, |a| staged_str(b, |b| both_here(cx, a, b, few)))
}
fn both_here(cx: &mut Ctx, a: &str, b: &str, few: bool) -> R {
    let (mut ra, mut rb) = (reps(a), reps(b));
    if few {
        ra.truncate(2);
        rb.truncate(2);
    }
    for (x, hx) in &ra {
        for (y, hy) in &rb {
            pair(x, y, a, b, (hx, hy))?;
            pair(y, x, b, a, (hy, hx))?;
        }
    }
    cx.count("pairs_of_representations", 2 * (ra.len() * rb.len()) as u64);
    cx.case(hash64(a.as_bytes()) ^ mix(hash64(b.as_bytes())), true);
    Ok(())
}

const ALPHA: [&str; 9] = ["a", "b", "A", "\0", "\u{7f}", "\u{e9}", "\u{ffff}", "\u{10000}", "\n"];
fn small(i: usize) -> String {
    // 0: "", 1..=9: one, 10..=90: two, 91..=819: three
    match i {
        0 => String::new(),
        1..=9 => ALPHA[i - 1].into(),
        10..=90 => format!("{}{}", ALPHA[(i - 10) / 9], ALPHA[(i - 10) % 9]),
        _ => {
            let i = i - 91;
            format!("{}{}{}", ALPHA[i / 81], ALPHA[i / 9 % 9], ALPHA[i % 9])
        }
    }
}
fn all_small(cx: &mut Ctx, idx: u64) -> R {
    let a = small(idx as usize);
    for (x, how) in reps(&a) {
        views(&x, &a, how)?;
    }
    for k in 0..820 {
        let b = small(k);
        if cx.env.tier == Tier::Thorough || (k + idx as usize) % 3 == 0 || k <= 90 {
            both(cx, &a, &b, k > 90)?;
        }
    }
    Ok(())
}

fn chars(cx: &mut Ctx, idx: u64) -> R {
    let cs: Vec<char> = (idx * 4352..(idx + 1) * 4352).filter_map(|c| char::from_u32(c as u32)).collect();
    for (i, c) in cs.iter().enumerate() {
        let a = c.to_string();
        let x = AnyStr::Borrowed(&a);
        let o = AnyStr::Owned(a.clone());
        views(&x, &a, "Borrowed")?;
        views(&o, &a, "Owned")?;
        let b = cs[cx.rng.below(cs.len())].to_string();
        for b in [b, cs[(i + 1) % cs.len()].to_string()] {
            pair(&x, &AnyStr::from(b.clone()), &a, &b, ("Borrowed", "Owned"))?;
            pair(&o, &AnyStr::from(&*b), &a, &b, ("Owned", "Borrowed"))?;
        }
        cx.case(*c as u64, true);
    }
    Ok(())
}

/// Texts with long common prefixes, differing at one place.
fn random(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..60 {
        let mut r = cx.rng.clone();
        let n = gen::len(&mut r, cx.env, 3000);
        let a = gen::text(&mut r, cx.env, n);
        let mut cs: Vec<char> = a.chars().collect();
        match r.below(6) {
            0 => {}
            1 => {
                cs.pop();
            }
            2 => cs.push(gen::rand_char(&mut r, cx.env, 0)),
            3 if !cs.is_empty() => {
                let i = r.below(cs.len());
                let style = r.below(4);
                cs[i] = gen::rand_char(&mut r, cx.env, style);
            }
            4 if !cs.is_empty() => {
                let i = r.below(cs.len());
                cs.swap(0, i);
            }
            _ => {
                let k = r.below(9);
                cs = gen::text(&mut r, cx.env, k).chars().collect();
            }
        }
        let b: String = cs.into_iter().collect();
        cx.rng = r;
        for (x, how) in reps(&a) {
            views(&x, &a, how)?;
        }
        both(cx, &a, &b, false)?;
        // the ones the library makes
        let j = JsonString::from(a.as_str());
        let e = j.escape_if_needed();
        let et: String = j.as_json().collect();
        views(&j.decode_if_needed(), &a, "decode_if_needed")?;
        views(&e, &et, "escape_if_needed")?;
        pair(&j.decode_if_needed(), &e, &a, &et, ("decode_if_needed", "escape_if_needed"))?;
        if let Some(x) = j.as_json_str() {
            views(x, &et, "as_json_str")?;
        }
        cx.sample(|| format!("{} / {}", show(a.as_bytes()), show(b.as_bytes())));
    }
    Ok(())
}

/// Slices of one buffer: same start, same end, same place, overlapping,
/// adjacent, nested, empty at different places.
fn shared(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..12 {
        let mut r = cx.rng.clone();
        let k = r.range(1, 12);
        let mut buf = match r.below(4) {
            // repeated, so that slices at different places are equal
            0 => small(r.below(820)).repeat(k),
            1 => "ab".repeat(k),
            _ => gen::text(&mut r, cx.env, k),
        };
        if r.chance(1, 6) {
            let p = "x".repeat(*r.pick(&[7, 15, 16, 31, 63, 64, 255]));
            buf.insert_str(0, &p);
        }
        cx.rng = r;
        let mut cut: Vec<usize> = buf.char_indices().map(|c| c.0).chain([buf.len()]).collect();
        while cut.len() > 14 {
            let i = cx.rng.below(cut.len());
            cut.remove(i);
        }
        let mut rs = vec![];
        for i in 0..cut.len() {
            for j in i..cut.len() {
                rs.push(&buf[cut[i]..cut[j]]);
            }
        }
        let owned = AnyStr::Owned(buf.clone());
        for (i, a) in rs.iter().enumerate() {
            let x = AnyStr::Borrowed(a);
            views(&x, a, "slice of a shared buffer")?;
            for b in &rs {
                pair(&x, &AnyStr::from(*b), a, b, ("slice", "slice of the same buffer"))?;
                cx.count("pairs_sharing_a_buffer", 1);
            }
            // an owned string and views into that very string
            let at = a.as_ptr() as usize - buf.as_ptr() as usize;
            let own = &owned.as_str()[at..at + a.len()];
            pair(&owned, &AnyStr::Borrowed(own), &buf, own, ("Owned", "slice of it"))?;
            pair(&AnyStr::Borrowed(own), &owned, own, &buf, ("slice of it", "Owned"))?;
            pair(&x, &AnyStr::Borrowed(own), a, own, ("slice", "same slice of another buffer"))?;
            if i % 4 == 0 {
                let e = JsonString::from(*a);
                pair(&e.decode_if_needed(), &owned, a, &buf, ("decode_if_needed", "Owned"))?;
                pair(&e.decode_if_needed(), &AnyStr::Borrowed(&buf), a, &buf, ("decode_if_needed of a slice", "whole buffer"))?;
            }
        }
        let m: HashSet<AnyStr<'_>> = rs.iter().map(|a| AnyStr::Borrowed(a)).collect();
        let n: HashSet<&str> = rs.iter().copied().collect();
        ensure!(m.len() == n.len() && n.iter().all(|a| m.contains(*a)), "a set of slices of {} has {} members instead of {}", show(buf.as_bytes()), m.len(), n.len());
        cx.case(hash64(buf.as_bytes()), true);
    }
    Ok(())
}

fn map_with<S: BuildHasher + Default>(r: &mut Rng, env: &Env, n: usize) -> R {
    let pool: Vec<String> = (0..n)
        .map(|i| {
            if i % 3 == 0 {
                small(r.below(820))
            } else {
                let k = r.below(40);
                gen::text(r, env, k)
            }
        })
        .collect();
    let mut m: HashMap<AnyStr<'_>, usize, S> = HashMap::default();
    let mut s: HashSet<AnyStr<'_>, S> = HashSet::default();
    let mut model: HashMap<&str, usize> = HashMap::new();
    for step in 0..n * 3 {
        let t = pool[r.below(n)].as_str();
        let key = || if step % 2 == 0 { AnyStr::from(t) } else { AnyStr::from(t.to_string()) };
        match r.below(6) {
            0..=2 => {
                let a = m.insert(key(), step);
                let b = model.insert(t, step);
                ensure!(a == b, "insert of {} gives {a:?} instead of {b:?}", show(t.as_bytes()));
                let c = s.insert(key());
                ensure!(c == b.is_none(), "set insert of {} gives {c}", show(t.as_bytes()));
            }
            3 => {
                let a = m.remove(t);
                let b = model.remove(t);
                ensure!(a == b, "remove of {} by str gives {a:?} instead of {b:?}", show(t.as_bytes()));
                ensure!(s.remove(t) == b.is_some(), "set remove of {} by str is wrong", show(t.as_bytes()));
            }
            4 => {
                let k = key();
                ensure!(m.get(&k) == model.get(t) && s.contains(&k) == model.contains_key(t), "lookup of {} by AnyStr is wrong", show(t.as_bytes()));
            }
            _ => {
                let b = model.get_mut(t);
                match m.get_mut(t) {
                    Some(v) => {
                        *v += 1;
                        ensure!(b.is_some(), "lookup of {} by str finds something", show(t.as_bytes()));
                        *b.unwrap_or(&mut 0) += 1;
                    }
                    None => ensure!(b.is_none(), "lookup of {} by str finds nothing", show(t.as_bytes())),
                }
            }
        }
    }
    ensure!(m.len() == model.len() && s.len() == model.len(), "{} map keys, {} set members instead of {}", m.len(), s.len(), model.len());
    for t in &pool {
        let t = t.as_str();
        ensure!(m.get(t) == model.get(t) && s.contains(t) == model.contains_key(t) && m.contains_key(t) == model.contains_key(t), "lookup of {} by str is wrong", show(t.as_bytes()));
        if let Some((k, _)) = m.get_key_value(t) {
            ensure!(k.as_str() == t, "lookup of {} gives key {}", show(t.as_bytes()), show(k.as_bytes()));
        }
    }
    Ok(())
}
#[derive(Default)]
struct Sip(RandomState);
impl BuildHasher for Sip {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        self.0.build_hasher()
    }
}
/// Few hash values: equality decides.
#[derive(Default)]
struct Poor(u64);
impl std::hash::Hasher for Poor {
    fn finish(&self) -> u64 {
        self.0 % 4
    }
    fn write(&mut self, b: &[u8]) {
        self.0 += b.iter().map(|x| *x as u64).sum::<u64>();
    }
}

fn maps(cx: &mut Ctx, _: u64) -> R {
    let mut r = cx.rng.clone();
    for _ in 0..20 {
        let n = *r.pick(&[1, 3, 10, 40, 150]);
        map_with::<Sip>(&mut r, cx.env, n)?;
        map_with::<BuildHasherDefault<Fnv>>(&mut r, cx.env, n)?;
        map_with::<BuildHasherDefault<Poor>>(&mut r, cx.env, n)?;
        cx.case(r.clone().next(), true);
        cx.count("map_operations", 9 * n as u64);
    }
    cx.rng = r;
    Ok(())
}

#[allow(dead_code)]
fn bounds() {
    fn needs<T: Hash + Eq + PartialOrd + AsRef<str> + Borrow<str>>() {}
    needs::<AnyStr<'static>>();
}

pub const PROP: Prop = Prop {
    id: "C25",
    rule: "pairs of texts: all strings up to 3 characters over 9 characters of every UTF-8 length, every char with neighbours, random texts differing at one place; slices of one buffer with every overlap; each in 2 to 5 representations (borrowed, owned, with spare room, clones, and those the library returns). A case is the pair; every one is non-trivial. Oracle: str's own views, comparisons and recorded hash calls; maps and sets against one keyed by str, under three hashers.",
    stack: 0,
    workloads: &[
        Workload { name: "all-small", total: |_| 820, run: all_small },
        Workload { name: "every-char", total: |_| 256, run: chars },
        Workload { name: "random", total: |e| e.amt(5000, 100_000), run: random },
        Workload { name: "shared-buffer", total: |e| e.amt(2000, 60_000), run: shared },
        Workload { name: "maps", total: |e| e.amt(1500, 40_000), run: maps },
    ],
};
