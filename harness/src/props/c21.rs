//! C21 Key and index lookup and in-place edits act on the right entry.
use super::c08;
use super::c10::intern;
use crate::common::hinted;
use crate::gen::{self, EscStyle};
use crate::model::{self, MV};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::{Entry, JsonString, Object, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Keys that are easy to confuse with one another.
const KEYS: &[&str] = &[
    "", "a", "b", "aa", "ab", "A", "\\u0061", "\\n", "\n", "n", "\\", "\\\\", "\"", "\\\"", "/", "\\/", "a\0", "\0", "\u{e9}", "e\u{301}", "\u{c9}",
    "\\u00e9", "\u{1f600}", "\\ud83d\\ude00", "\u{1f601}", "\u{ffff}", "\u{7f}", "\u{7}", "\u{8}", "\\b", "key", "keys", "ke", " key", "key ", "KEY", "0", "1", "null",
    "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "caf\u{e9}\n", "caf\u{e9}\\n", "\u{80}", "\u{7ff}", "\u{800}", "\t", "\u{c}", "\r", "\u{1}",
    "k", "\u{212a}", "ss", "\u{df}", "\u{feff}key", "key\u{200b}", "key\u{fe0f}", "key\0", "00", "1.0", "1e0", "true", "Key", "k.a", "*", "\u{130}", "i\u{307}",
];

/// A key text in a random representation.
fn spell(r: &mut Rng, t: &str) -> (JsonString<'static>, &'static str) {
    match r.below(6) {
        0 => (JsonString::from(intern(t)), "&str"),
        1 => (JsonString::from(t.to_string()), "String"),
        k => {
            let st = match k {
                2 => EscStyle { extra: 0, long: 0, hex: 0, allow_b: false },
                3 => EscStyle { extra: 16, long: 16, hex: 0, allow_b: false },
                4 => EscStyle { extra: 16, long: 16, hex: 1, allow_b: false },
                _ => EscStyle { extra: 5, long: 8, hex: 2, allow_b: false },
            };
            let mut l = vec![b'"'];
            l.extend(gen::encode(r, t, st));
            l.push(b'"');
            match JsonString::from_json(intern(&String::from_utf8_lossy(&l))) {
                Ok(j) => (j, "parsed"),
                Err(_) => (JsonString::from(t.to_string()), "String"),
            }
        }
    }
}

/// Model of an object: decoded keys, the identity of each value and how each
/// key is spelled.
type Model = Vec<(String, u64, String)>;

/// A key the way it is written.
fn spelling(k: &JsonString<'_>) -> String {
    Value::String(k.clone()).to_json()
}

fn fresh(r: &mut Rng, id: u64) -> Value<'static> {
    // the identity is kept in a string, sometimes nested in an array
    let s = Value::from(format!("#{id}"));
    if r.chance(1, 4) {
        Value::Array(vec![s, Value::Null])
    } else {
        s
    }
}
fn id_of(v: &Value<'_>) -> Option<u64> {
    let s = match v {
        Value::Array(a) => a.first()?.as_string()?,
        v => v.as_string()?,
    };
    s.decode_if_needed().strip_prefix('#')?.parse().ok()
}

fn same(o: &Object<'_>, m: &Model) -> R {
    ensure!(o.len() == m.len(), "{} entries instead of {}", o.len(), m.len());
    for (i, (e, (k, id, sp))) in o.iter().zip(m).enumerate() {
        ensure!(e.key == *k.as_str(), "entry {i} has another key than {}", show(k.as_bytes()));
        let now = spelling(&e.key);
        ensure!(now == *sp, "the key of entry {i} is now written {} instead of {}", show(now.as_bytes()), show(sp.as_bytes()));
        ensure!(id_of(&e.value) == Some(*id), "entry {i} ({}) holds {:?} instead of #{id}", show(k.as_bytes()), e.value);
    }
    Ok(())
}

/// Every way of looking a key up gives the first entry that has it.
pub fn lookup(v: &mut Value<'_>, key: &str, want: Option<usize>) -> R {
    let w = |n: &str| format!("{n}({}) does not give {}", show(key.as_bytes()), want.map_or("nothing".to_string(), |i| format!("entry {i}")));
    let Some(o) = v.as_object() else {
        ensure!(v.get(key).is_none() && v.get_mut(key).is_none(), "a lookup in something that is no object finds a value");
        return Ok(());
    };
    let vp = want.map(|i| &o[i].value as *const Value<'_> as usize);
    let ep = want.map(|i| &o[i] as *const Entry<'_> as usize);
    let at = |x: Option<&Value<'_>>| x.map(|x| x as *const Value<'_> as usize);
    ensure!(at(o.get(key)) == vp, "{}", w("Object::get"));
    ensure!(at(v.get(key)) == vp, "{}", w("Value::get"));
    ensure!(at(v.get_mut(key).map(|x| &*x)) == vp, "{}", w("Value::get_mut"));
    let Some(o) = v.as_object_mut() else { bail!("as_object_mut gives nothing for an object") };
    ensure!(at(o.get_mut(key).map(|x| &*x)) == vp, "{}", w("Object::get_mut"));
    ensure!(o.get_entry_mut(key).map(|x| x as *const Entry<'_> as usize) == ep, "{}", w("Object::get_entry_mut"));
    if want.is_some() {
        ensure!(&v[key] as *const _ as usize == vp.unwrap_or(0), "{}", w("Index"));
        ensure!(&mut v[key] as *mut _ as usize == vp.unwrap_or(0), "{}", w("IndexMut"));
    } else {
        let a = catch_unwind(AssertUnwindSafe(|| &v[key] as *const _ as usize)).is_err();
        let b = catch_unwind(AssertUnwindSafe(|| &mut v[key] as *mut _ as usize)).is_err();
        crate::last_panic();
        ensure!(a && b, "{}", w("Index or IndexMut"));
    }
    Ok(())
}
pub fn index(v: &mut Value<'_>, i: usize) -> R {
    let n = v.as_array().map_or(0, |a| a.len());
    let want = v.as_array().and_then(|a| a.get(i)).map(|x| x as *const Value<'_> as usize);
    let w = |k: &str| format!("{k}({i}) of {n} elements is wrong");
    ensure!(v.get_index(i).map(|x| x as *const _ as usize) == want, "{}", w("get_index"));
    ensure!(v.get_index_mut(i).map(|x| x as *const _ as usize) == want, "{}", w("get_index_mut"));
    ensure!(v.as_array_mut().and_then(|a| a.get(i)).map(|x| x as *const _ as usize) == want, "{}", w("as_array_mut"));
    if want.is_some() {
        ensure!(Some(&v[i] as *const _ as usize) == want && Some(&mut v[i] as *mut _ as usize) == want, "{}", w("Index"));
    } else {
        let a = catch_unwind(AssertUnwindSafe(|| &v[i] as *const _ as usize)).is_err();
        let b = catch_unwind(AssertUnwindSafe(|| &mut v[i] as *mut _ as usize)).is_err();
        crate::last_panic();
        ensure!(a && b, "{}", w("Index or IndexMut"));
    }
    Ok(())
}

/// Looking something up writes nothing: neither a value nor the way a key is
/// spelled may differ afterwards.
fn unchanged(v: &Value<'_>, before: &str) -> R {
    let now = v.to_json();
    ensure!(now == before, "lookups alone turned {} into {}", show(before.as_bytes()), show(now.as_bytes()));
    Ok(())
}

fn first(m: &Model, k: &str) -> Option<usize> {
    m.iter().position(|e| e.0 == k)
}

/// One history on one object.
fn history(cx: &mut Ctx, r: &mut Rng) -> R {
    // a small pool makes duplicates and hits likely
    let pool: Vec<String> = (0..r.range(2, 12))
        .map(|_| {
            if r.chance(3, 4) {
                r.pick(KEYS).to_string()
            } else {
                let n = gen::len(r, cx.env, 50);
                gen::text(r, cx.env, n)
            }
        })
        .collect();
    let mut next = 0u64;
    let mut id = || {
        next += 1;
        next
    };
    let mut m: Model = vec![];
    // started empty, with capacity, collected, or parsed
    let n0 = *r.pick(&[0, 0, 1, 3, 8, 30]);
    let mut ents = vec![];
    for _ in 0..n0 {
        let k = pool[r.below(pool.len())].clone();
        let i = id();
        ents.push((k.clone(), i));
        m.push((k, i, String::new()));
    }
    let start = r.below(4);
    let mut v: Value<'static> = match start {
        0 => {
            let mut o = Object::with_capacity(r.below(9));
            for (k, i) in &ents {
                o.push(Entry::new(spell(r, k).0, fresh(r, *i)));
            }
            Value::Object(o)
        }
        1 => {
            let es: Vec<_> = ents.iter().map(|(k, i)| Entry { key: spell(r, k).0, value: Value::from(format!("#{i}")) }).collect();
            Value::Object(hinted(es, r).collect())
        }
        2 => {
            let es: Vec<_> = ents.iter().map(|(k, i)| (spell(r, k).0, Value::from(format!("#{i}")))).collect();
            Value::from(hinted(es, r).collect::<Object<'static>>())
        }
        _ => {
            let mv = MV::Obj(ents.iter().map(|(k, i)| (k.clone(), MV::Str(format!("#{i}")))).collect());
            let mut out = vec![];
            c08::render(r, &mv, &mut out, 1);
            let t = intern(&String::from_utf8_lossy(&out));
            match Value::from_json(t) {
                Ok(v) => v,
                Err(e) => bail!("{} does not parse: {e:?}", show(t.as_bytes())),
            }
        }
    };
    if let Some(o) = v.as_object() {
        for (e, x) in o.iter().zip(&mut m) {
            x.2 = spelling(&e.key);
        }
    }
    let mut log = format!("start{start}({n0})");
    let mut hits = 0u64;
    for _ in 0..r.range(3, 40) {
        let k = pool[r.below(pool.len())].clone();
        let want = first(&m, &k);
        hits += want.is_some() as u64;
        let op = r.below(20);
        log.push_str(&format!(" {op}"));
        let i = id();
        let nv = fresh(r, i);
        let n = m.len();
        let key = spell(r, &k).0;
        let sp = spelling(&key);
        {
            let Some(o) = v.as_object_mut() else { bail!("the value stopped being an object") };
            match op {
                0 | 1 => {
                    o.push(Entry::new(key, nv));
                    m.push((k.clone(), i, sp));
                }
                2 => {
                    let at = r.below(n + 1);
                    o.insert(at, Entry { key, value: nv });
                    m.insert(at, (k.clone(), i, sp));
                }
                3 if n > 0 => {
                    let at = r.below(n);
                    o.remove(at);
                    m.remove(at);
                }
                4 if n > 0 => {
                    let at = r.below(n);
                    o.swap_remove(at);
                    m.swap_remove(at);
                }
                5 => {
                    // replace through get_mut
                    if let Some(x) = o.get_mut(&k) {
                        *x = nv;
                        ensure!(want.is_some(), "get_mut finds a key that is not there");
                    }
                    if let Some(w) = want {
                        m[w].1 = i;
                    }
                }
                6 => {
                    // rename and replace through get_entry_mut
                    let k2 = pool[r.below(pool.len())].clone();
                    let key = spell(r, &k2).0;
                    let sp = spelling(&key);
                    if let Some(e) = o.get_entry_mut(&k) {
                        e.key = key;
                        e.value = nv;
                    }
                    if let Some(w) = want {
                        m[w] = (k2, i, sp);
                    }
                }
                7 => {
                    o.retain(|e| e.key != *k.as_str());
                    m.retain(|e| e.0 != k);
                }
                8 => {
                    o.sort_by(|a, b| a.key.cmp(&b.key));
                    m.sort_by(|a, b| a.0.cmp(&b.0));
                }
                9 => {
                    o.reverse();
                    m.reverse();
                }
                10 => {
                    o.dedup_by(|a, b| a.key == b.key);
                    m.dedup_by(|a, b| a.0 == b.0);
                }
                11 => {
                    let at = r.below(n + 1);
                    let tail: Vec<Entry<'static>> = o.drain(at..).collect();
                    let mt: Model = m.drain(at..).collect();
                    o.splice(0..0, tail);
                    m.splice(0..0, mt);
                }
                12 => {
                    for (e, x) in o.iter_mut().zip(m.iter_mut()) {
                        if e.key == *k.as_str() {
                            e.value = Value::from("#77");
                            ensure!(x.0 == k, "a key equals {} but should not", show(k.as_bytes()));
                        }
                    }
                    for x in m.iter_mut().filter(|x| x.0 == k) {
                        x.1 = 77;
                    }
                }
                13 if n > 1 => {
                    let (a, b) = (r.below(n), r.below(n));
                    o.swap(a, b);
                    m.swap(a, b);
                }
                14 => {
                    let es: Vec<Entry<'static>> = o.drain(..).collect();
                    *o = hinted(es, r).collect();
                }
                15 => {
                    let es: Vec<Entry<'static>> = o.drain(..).collect();
                    *o = hinted(es.into_iter().map(|e| (e.key, e.value)), r).collect();
                }
                16 => {
                    o.truncate(r.below(n + 1).max(n / 2));
                    m.truncate(o.len());
                }
                17 if n > 0 => {
                    // edit inside a value found by key
                    if let Some(x) = o.get_mut(&k) {
                        *x = Value::Array(vec![Value::Null, Value::Null]);
                        x[0] = Value::from(format!("#{i}"));
                        if let Some(y) = x.get_index_mut(1) {
                            *y = Value::from("tail");
                        }
                    }
                    if let Some(w) = want {
                        m[w].1 = i;
                    }
                }
                18 => {
                    if want.is_some() {
                        v[k.as_str()] = nv;
                    }
                    if let Some(w) = want {
                        m[w].1 = i;
                    }
                }
                _ => {
                    if let Some(x) = v.get_mut(&k) {
                        *x = nv;
                    }
                    if let Some(w) = want {
                        m[w].1 = i;
                    }
                }
            }
        }
        let Some(o) = v.as_object() else { bail!("the value stopped being an object") };
        same(o, &m).map_err(|e| format!("{e} (history {log})"))?;
        cx.count("operations", 1);
        if r.chance(1, 3) {
            let before = v.to_json();
            for k in &pool {
                lookup(&mut v, k, first(&m, k)).map_err(|e| format!("{e} (history {log})"))?;
                cx.count("keys_looked_up", 1);
            }
            unchanged(&v, &before).map_err(|e| format!("{e} (history {log})"))?;
        }
    }
    let before = v.to_json();
    for k in pool.iter().map(|s| s.as_str()).chain(KEYS.iter().copied()) {
        lookup(&mut v, k, first(&m, k)).map_err(|e| format!("{e} (history {log})"))?;
        cx.count("keys_looked_up", 1);
    }
    index(&mut v, 0)?;
    unchanged(&v, &before).map_err(|e| format!("{e} (history {log})"))?;
    if let Some(o) = v.as_object() {
        same(o, &m).map_err(|e| format!("{e} after lookups (history {log})"))?;
    }
    cx.sample(|| log.clone());
    cx.case(hash64(log.as_bytes()) ^ hash64(v.to_json().as_bytes()), hits > 0);
    Ok(())
}
fn histories(cx: &mut Ctx, _: u64) -> R {
    let mut r = cx.rng.clone();
    for _ in 0..20 {
        history(cx, &mut r)?;
    }
    cx.rng = r;
    Ok(())
}

/// Every pair of keys in an object of two, every third looked up.
fn key_pairs(cx: &mut Ctx, idx: u64) -> R {
    let mut r = cx.rng.clone();
    let a = KEYS[idx as usize];
    for b in KEYS {
        for round in 0..3 {
            let (ka, kb) = (spell(&mut r, a), spell(&mut r, b));
            let mut v = Value::Object([(ka.0, Value::from(true)), (kb.0, Value::from(false))].into_iter().collect());
            let before = v.to_json();
            for (i, k) in KEYS.iter().enumerate() {
                if round > 0 && i % 3 != round && k != &a && k != b {
                    continue;
                }
                let want = if k == &a { Some(0) } else if k == b { Some(1) } else { None };
                lookup(&mut v, k, want).map_err(|e| format!("{e} in {{{} ({}), {} ({})}}", show(a.as_bytes()), ka.1, show(b.as_bytes()), kb.1))?;
            }
            unchanged(&v, &before)?;
            cx.count("keys_looked_up", (KEYS.len() / if round > 0 { 3 } else { 1 }) as u64);
        }
        cx.case(hash64(a.as_bytes()) ^ mix(hash64(b.as_bytes())), true);
    }
    cx.rng = r;
    Ok(())
}

/// A mirror of the whole value: lookups at every container of parsed values.
fn everywhere(v: &mut Value<'_>, m: &MV, raws: &[&str], n: &mut u64) -> R {
    match m {
        MV::Obj(o) => {
            let probe: Vec<usize> = if o.len() <= 12 { (0..o.len()).collect() } else { vec![0, 1, o.len() / 2, o.len() - 2, o.len() - 1] };
            for i in probe {
                let k = &o[i].0;
                let want = o.iter().position(|e| e.0 == *k);
                lookup(v, k, want)?;
                *n += 1;
            }
            for k in ["", "a", "nothing like it", "\\"].iter().chain(raws) {
                lookup(v, k, o.iter().position(|e| e.0 == *k))?;
            }
            for k in paths(m) {
                lookup(v, &k, o.iter().position(|e| e.0 == k))?;
                *n += 1;
            }
            index(v, 0)?;
            index(v, o.len().saturating_sub(1))?;
            let Some(vo) = v.as_object_mut() else { bail!("not an object") };
            for (e, x) in vo.iter_mut().zip(o) {
                everywhere(&mut e.value, &x.1, raws, n)?;
            }
        }
        MV::Arr(a) => {
            let l = a.len();
            for i in [0, 1, l / 2, l.wrapping_sub(2), l.wrapping_sub(1), l, l + 1, usize::MAX] {
                index(v, i)?;
                *n += 1;
            }
            lookup(v, "", None)?;
            for k in paths(m) {
                lookup(v, &k, None)?;
                *n += 1;
            }
            for (i, x) in a.iter().enumerate() {
                everywhere(&mut v[i], x, raws, n)?;
            }
        }
        _ => {
            lookup(v, "", None)?;
            if let Some(t) = v.as_string().map(|j| j.to_string()) {
                lookup(v, &t, None)?;
            }
            lookup(v, "0", None)?;
            index(v, 0)?;
        }
    }
    Ok(())
}

/// Keys that would mean something if a key were a path, an index or a pattern.
fn paths(m: &MV) -> Vec<String> {
    let mut out = vec![];
    match m {
        MV::Arr(a) => {
            out.extend(["0".into(), "-1".into(), "length".into(), (a.len() - a.len().min(1)).to_string()]);
            for x in a.iter().take(2).chain(a.last()) {
                match x {
                    MV::Obj(o) => out.extend(o.iter().take(2).map(|e| e.0.clone())),
                    MV::Str(s) => out.push(s.clone()),
                    _ => {}
                }
            }
        }
        MV::Obj(o) => {
            out.extend(["0".into(), "*".into(), "$".into()]);
            for (k, x) in o.iter().take(2).chain(o.last()) {
                out.extend([format!("/{k}"), format!("{k} "), k.to_uppercase(), k.to_lowercase(), k.trim().to_string(), format!("$.{k}"), format!("\"{k}\"")]);
                match x {
                    MV::Obj(o) => {
                        for (l, _) in o.iter().take(2) {
                            out.extend([l.clone(), format!("{k}.{l}"), format!("{k}/{l}"), format!("/{k}/{l}")]);
                        }
                    }
                    MV::Arr(_) => out.extend([format!("{k}.0"), format!("{k}[0]"), format!("/{k}/0")]),
                    MV::Str(s) => out.push(s.clone()),
                    _ => {}
                }
            }
        }
        _ => {}
    }
    out
}
pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let o = model::parse(s, model::Cfg::DEFAULT);
    if !o.ok() || !o.nodes.iter().any(|n| n.len > 0) {
        cx.case_bytes(s, false);
        return Ok(());
    }
    // `\b` is a recorded finding of C06; its reading is not judged here
    let dec = |b: &str| if model::has_b_escape(b) { model::decode_quirk(b) } else { model::decode(b) };
    let m = model::tree(s, &o, dec);
    let quirk = o.nodes.iter().any(|n| n.is_key && model::has_b_escape(&String::from_utf8_lossy(&s[n.start..n.end])));
    let Ok(mut v) = Value::from_json_bytes(s) else { bail!("a valid payload is rejected: {}", show(s)) };
    let mut n = 0;
    if !quirk {
        // the payload's own text as keys: the source of a string, its start,
        // its end, and what lies at a key's place without its first byte
        let text = std::str::from_utf8(s).unwrap_or("");
        let mut raws = vec![];
        for n in o.nodes.iter().filter(|n| n.end - n.start > 1 && (n.is_key || s[n.start] == b'"')) {
            let t = text.get(n.start..n.end).unwrap_or("").trim_matches('"');
            let at = (raws.len() * 7 + t.len()) % 4;
            let cut = t.char_indices().map(|c| c.0).nth(1).unwrap_or(0);
            let last = t.char_indices().map(|c| c.0).last().unwrap_or(0);
            raws.push([t, &t[..last], &t[cut..], &t[..cut]][at]);
            if raws.len() == 6 {
                break;
            }
        }
        cx.count("keys_that_are_slices_of_the_payload", raws.len() as u64);
        let before = v.to_json();
        everywhere(&mut v, &m, &raws, &mut n).map_err(|e| format!("{e}: {}", show(s)))?;
        unchanged(&v, &before)?;
    }
    cx.count("keys_looked_up", n);
    cx.case_bytes(s, true);
    Ok(())
}

fn families(cx: &mut Ctx, idx: u64) -> R {
    let m = super::payloads::fam_max(cx.env, 4000, 40_000);
    super::payloads::families(cx, idx, m, check)
}
fn valid(cx: &mut Ctx, _: u64) -> R {
    super::payloads::valid(cx, check)
}

/// Large objects: every key findable, edits reach it and nothing else.
fn large(cx: &mut Ctx, idx: u64) -> R {
    let sizes = gen::sizes(cx.env, cx.env.amt(1100, 20_000) as usize);
    let n = sizes[idx as usize];
    let mut r = cx.rng.clone();
    let dup = r.chance(1, 2);
    let key = |i: usize| format!("k\u{e9}{}\n", if dup { i / 2 } else { i });
    let mut o = Object::new();
    for i in 0..n {
        o.push(Entry::new(spell(&mut r, &key(i)).0, Value::from(format!("#{i}"))));
    }
    let mut v = Value::from(o);
    let mut m: Model = v.as_object().into_iter().flat_map(|o| o.iter()).enumerate().map(|(i, e)| (key(i), i as u64, spelling(&e.key))).collect();
    for step in 0..n.min(60) {
        let i = if n <= 60 { step } else { *r.pick(&[0, 1, n / 2, n - 1, n - 2]) };
        let i = if r.chance(1, 2) { r.below(n) } else { i };
        let k = key(i);
        lookup(&mut v, &k, first(&m, &k)).map_err(|e| format!("{e} in an object of {n}"))?;
        let nid = 1_000_000 + step as u64;
        v[k.as_str()] = Value::from(format!("#{nid}"));
        if let Some(w) = first(&m, &k) {
            m[w].1 = nid;
        }
    }
    lookup(&mut v, "absent", None)?;
    if let Some(o) = v.as_object() {
        same(o, &m)?;
    }
    let mut a = Value::Array((0..n).map(|i| Value::from(format!("#{i}"))).collect());
    for i in [0, 1, n / 2, n.wrapping_sub(1), n, n + 1, usize::MAX, r.below(n + 1)] {
        index(&mut a, i)?;
    }
    for _ in 0..n.min(30) {
        let i = r.below(n);
        a[i] = Value::Null;
        ensure!(a.get_index(i).is_some_and(|x| x.is_null()), "an element assigned by index is unchanged");
        let b = a.as_array().map_or(0, |x| x.iter().filter(|y| y.is_null()).count());
        if let Some(x) = a.get_index_mut(i) {
            *x = Value::from("#0");
        }
        ensure!(b == 1, "assigning by index changes {b} elements");
    }
    cx.rng = r;
    cx.case(n as u64 ^ 0x5000_0000, n > 0);
    cx.max("largest_object", n as u64);
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C21",
    rule: "histories of 3 to 40 edits (20 kinds) on objects built, collected (from iterators with exact, loose and useless size hints) or parsed from 2 to 12 confusable keys, each key spelled raw, owned or parsed under four escape styles; all pairs of 67 such keys, with every key looked up; valid documents and size families, lookups at every container, of what would be found were a key a path, an index or a pattern as well; objects and arrays at boundary sizes. A case is the history, pair, payload or size; non-trivial if some lookup hits. Oracle: an association list; results compared by address.",
    stack: 0,
    workloads: &[
        Workload { name: "histories", total: |e| e.amt(6000, 200_000), run: histories },
        Workload { name: "key-pairs", total: |_| KEYS.len() as u64, run: key_pairs },
        Workload { name: "valid", total: |e| e.amt(500, 30_000), run: valid },
        Workload { name: "families", total: |e| super::payloads::fam_total(e, 4000, 40_000), run: families },
        Workload { name: "large", total: |e| gen::sizes(e, e.amt(1100, 20_000) as usize).len() as u64, run: large },
    ],
};
