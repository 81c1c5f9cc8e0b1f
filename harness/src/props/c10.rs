//! C10 Built or edited values serialize to JSON that reads back equal.
use super::c08::{mv, render};
use crate::common::*;
use crate::gen;
use crate::model::{self, Cfg, MV};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::{Entry, JsonNumber, JsonString, Object, Value};

fn number<'a>(n: &str) -> Value<'a> {
    // numbers can only come from parsing; leak-free storage is not needed for
    // the short texts used here
    let s: &'static str = intern(n);
    Value::Number(JsonNumber::from_json(s).expect("model number"))
}
/// Interned texts (number sources), so that values can live long.
pub fn intern(s: &str) -> &'static str {
    use std::collections::HashSet;
    use std::sync::{Mutex, OnceLock};
    static T: OnceLock<Mutex<HashSet<&'static str>>> = OnceLock::new();
    let mut t = T.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = t.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    t.insert(l);
    l
}

fn string(r: &mut Rng, t: &str) -> JsonString<'static> {
    match r.below(4) {
        0 if t.len() < 24 => JsonString::from(intern(t)),
        1 if t.len() < 24 && !t.contains(['\u{7}', '\u{8}']) => {
            let mut l = vec![];
            render(r, &MV::Str(t.into()), &mut l, 0);
            JsonString::from_json(intern(&String::from_utf8_lossy(&l))).expect("model string")
        }
        2 => JsonString::from(t.to_string()).clone(),
        _ => JsonString::from(t.to_string()),
    }
}
/// Builds a value through the public API, choosing among its constructors.
pub fn build(r: &mut Rng, m: &MV) -> Value<'static> {
    match m {
        MV::Null => Value::Null,
        MV::Bool(b) => {
            if r.chance(1, 2) {
                Value::from(*b)
            } else {
                Value::Boolean(*b)
            }
        }
        MV::Num(n) => number(n),
        MV::Str(t) => match r.below(3) {
            0 => Value::from(t.to_string()),
            1 => Value::String(string(r, t)),
            _ => Value::from(string(r, t)),
        },
        MV::Arr(a) => {
            let v: Vec<Value<'static>> = a.iter().map(|x| build(r, x)).collect();
            if r.chance(1, 2) {
                Value::from(v)
            } else {
                Value::Array(v)
            }
        }
        MV::Obj(o) => {
            let n = r.below(4);
            let e: Vec<Entry<'static>> = o
                .iter()
                .map(|(k, x)| {
                    let v = build(r, x);
                    if r.chance(1, 2) {
                        Entry::new(k.to_string(), v)
                    } else {
                        Entry { key: string(r, k), value: v }
                    }
                })
                .collect();
            let obj: Object<'static> = match n {
                0 => e.into_iter().collect(),
                1 => e.into_iter().map(|e| (e.key, e.value)).collect(),
                2 => {
                    let mut o = Object::with_capacity(r.below(8));
                    o.extend(e);
                    o
                }
                _ => {
                    let mut o = if r.chance(1, 2) { Object::new() } else { Object::default() };
                    for x in e {
                        o.push(x);
                    }
                    o
                }
            };
            Value::from(obj)
        }
    }
}

/// The properties of one built value.
pub fn judge(cx: &mut Ctx, v: &Value<'_>, m: &MV, log: &dyn Fn() -> String) -> R {
    tree_eq(v, m).map_err(|e| format!("the value does not have the contents put into it: {e}: {}", log()))?;
    let (c, p) = (v.to_json(), v.to_json_pretty());
    ensure!(v.to_json() == c && v.to_json_pretty() == p, "serializing twice gives different texts: {}", log());
    let custom = v.to_json_pretty_custom("\t", "\r\n");
    for (n, t) in [("to_json", &c), ("to_json_pretty", &p), ("to_json_pretty_custom", &custom)] {
        let o = model::parse(t.as_bytes(), Cfg::DEFAULT);
        if let Some(e) = &o.err {
            bail!("{n} writes invalid JSON ({e:?}): {}: {}", show(t.as_bytes()), log());
        }
        if model::tree(t.as_bytes(), &o, model::decode) != *m && model::tree(t.as_bytes(), &o, model::decode_quirk) != *m {
            bail!("{n} writes {} which denotes another value: {}", show(t.as_bytes()), log());
        }
        for bytes in [false, true] {
            let back = if bytes { Value::from_json_bytes(t.as_bytes()) } else { Value::from_json(t) };
            match back {
                Err(e) => bail!("{n} writes {} which does not parse back ({:?}): {}", show(t.as_bytes()), e2(&e), log()),
                Ok(b) => {
                    ensure!(b == *v && *v == b, "{n} writes {} which reads back as a different value: {}", show(t.as_bytes()), log());
                    ensure!(b.to_json() == c, "{n}: the value read back serializes to {} instead of {}: {}", show(b.to_json().as_bytes()), show(c.as_bytes()), log());
                    ensure!(b.to_json_pretty() == p, "{n}: the value read back serializes prettily to {} instead of {}: {}", show(b.to_json_pretty().as_bytes()), show(p.as_bytes()), log());
                }
            }
        }
    }
    cx.case_bytes(c.as_bytes(), true);
    cx.count("values_judged", 1);
    cx.max("largest_output", p.len() as u64);
    Ok(())
}

fn with_controls(r: &mut Rng, m: &mut MV) {
    if let MV::Str(t) = m {
        if r.chance(1, 3) {
            t.push(*r.pick(&['\u{7}', '\u{8}', '\0', '\u{1f}']));
        }
    }
    match m {
        MV::Arr(a) => a.iter_mut().for_each(|x| with_controls(r, x)),
        MV::Obj(o) => o.iter_mut().for_each(|(k, x)| {
            if r.chance(1, 10) {
                k.push('\u{7}');
            }
            with_controls(r, x)
        }),
        _ => {}
    }
}

fn built(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..10 {
        let mut r = cx.rng.clone();
        let mut m = mv(&mut r, cx.env, 0, &mut 60);
        if r.chance(1, 4) {
            with_controls(&mut r, &mut m);
        }
        let v = build(&mut r, &m);
        cx.rng = r;
        cx.sample(|| format!("{m:?}"));
        judge(cx, &v, &m, &|| format!("built {}", show(format!("{m:?}").as_bytes())))?;
    }
    Ok(())
}

/// Random walk to some node; both trees in step.
fn descend<'x, 'a>(r: &mut Rng, mut v: &'x mut Value<'a>, mut m: &'x mut MV, path: &mut String) -> (&'x mut Value<'a>, &'x mut MV) {
    loop {
        let n = match &*m {
            MV::Arr(a) => a.len(),
            MV::Obj(o) => o.len(),
            _ => 0,
        };
        if n == 0 || r.chance(1, 3) {
            return (v, m);
        }
        let i = r.below(n);
        match m {
            MV::Arr(a) => {
                path.push_str(&format!("[{i}]"));
                m = &mut a[i];
                v = if r.chance(1, 2) { &mut v[i] } else { v.get_index_mut(i).expect("element") };
            }
            MV::Obj(o) => {
                path.push_str(&format!(".{i}"));
                let first = o.iter().position(|e| e.0 == o[i].0).unwrap_or(i);
                let by_key = r.below(4);
                let k = o[first].0.clone();
                if by_key < 3 {
                    m = &mut o[first].1;
                    v = match by_key {
                        0 => v.get_mut(&k).expect("key"),
                        1 => &mut v[k.as_str()],
                        _ => &mut v.as_object_mut().expect("object").get_entry_mut(&k).expect("entry").value,
                    };
                } else {
                    m = &mut o[i].1;
                    v = &mut v.as_object_mut().expect("object")[i].value;
                }
            }
            _ => unreachable!(),
        }
    }
}

/// Edit histories over parsed and built values.
fn edits(cx: &mut Ctx, _: u64) -> R {
    let mut r = cx.rng.clone();
    // sources outlive the value
    let srcs: Vec<(MV, Vec<u8>)> = (0..6)
        .map(|_| {
            let m = mv(&mut r, cx.env, 0, &mut 30);
            let mut s = vec![];
            let w = r.below(3);
            render(&mut r, &m, &mut s, w);
            (m, s)
        })
        .collect();
    let mut log: Vec<String> = vec![];
    let mut m = srcs[0].0.clone();
    let mut v = match Value::from_json_bytes(&srcs[0].1) {
        Ok(v) => v,
        Err(e) => bail!("valid payload rejected ({:?}): {}", e2(&e), show(&srcs[0].1)),
    };
    log.push(format!("start {}", show(&srcs[0].1)));
    for step in 0..r.range(2, 25) {
        // new material
        let (nm, nv): (MV, Value<'_>) = if r.chance(1, 3) {
            let (m, s) = r.pick(&srcs);
            match std::str::from_utf8(s).ok().and_then(|t| Value::from_json(t).ok()) {
                Some(v) => (m.clone(), v),
                None => bail!("valid payload rejected: {}", show(s)),
            }
        } else {
            let m = mv(&mut r, cx.env, 4, &mut 6);
            let v = build(&mut r, &m);
            (m, v)
        };
        let mut path = String::from("$");
        let (tv, tm) = descend(&mut r, &mut v, &mut m, &mut path);
        let op = r.below(10);
        match (tv, tm) {
            (Value::Array(a), MV::Arr(b)) if op < 8 => {
                let i = r.below(a.len() + 1);
                match r.below(7) {
                    0 | 1 => {
                        a.push(nv);
                        b.push(nm);
                        log.push(format!("{path} push"));
                    }
                    2 => {
                        a.insert(i, nv);
                        b.insert(i, nm);
                        log.push(format!("{path} insert {i}"));
                    }
                    3 if i < a.len() => {
                        a.remove(i);
                        b.remove(i);
                        log.push(format!("{path} remove {i}"));
                    }
                    4 => {
                        a.truncate(i);
                        b.truncate(i);
                        log.push(format!("{path} truncate {i}"));
                    }
                    5 => {
                        a.reverse();
                        b.reverse();
                        log.push(format!("{path} reverse"));
                    }
                    _ if i < a.len() => {
                        a[i] = nv;
                        b[i] = nm;
                        log.push(format!("{path} set {i}"));
                    }
                    _ => {
                        a.clear();
                        b.clear();
                        log.push(format!("{path} clear"));
                    }
                }
            }
            (Value::Object(a), MV::Obj(b)) if op < 8 => {
                let i = r.below(a.len() + 1);
                let n = gen::len(&mut r, cx.env, 20);
                let kt = gen::text(&mut r, cx.env, n).replace(['\u{7}', '\u{8}'], "");
                match r.below(8) {
                    0 | 1 => {
                        a.push(Entry::new(kt.clone(), nv));
                        b.push((kt, nm));
                        log.push(format!("{path} push"));
                    }
                    2 => {
                        a.insert(i, Entry { key: string(&mut r, &kt), value: nv });
                        b.insert(i, (kt, nm));
                        log.push(format!("{path} insert {i}"));
                    }
                    3 if i < a.len() => {
                        a.remove(i);
                        b.remove(i);
                        log.push(format!("{path} remove {i}"));
                    }
                    4 if i < a.len() => {
                        a[i].key = string(&mut r, &kt);
                        b[i].0 = kt;
                        log.push(format!("{path} rename {i}"));
                    }
                    5 if !a.is_empty() => {
                        let j = r.below(a.len());
                        a.swap(0, j);
                        b.swap(0, j);
                        log.push(format!("{path} swap 0 {j}"));
                    }
                    6 => {
                        let mut k = 0;
                        a.retain(|_| {
                            k += 1;
                            k % 2 == 1
                        });
                        let mut k = 0;
                        b.retain(|_| {
                            k += 1;
                            k % 2 == 1
                        });
                        log.push(format!("{path} retain even"));
                    }
                    _ => {
                        a.sort_by(|x, y| x.key.cmp(&y.key));
                        b.sort_by(|x, y| x.0.cmp(&y.0));
                        log.push(format!("{path} sort"));
                    }
                }
            }
            (tv, tm) => {
                match r.below(3) {
                    0 => {
                        let old = std::mem::replace(tv, Value::Null);
                        *tv = Value::Array(vec![old, nv]);
                        let old = std::mem::replace(tm, MV::Null);
                        *tm = MV::Arr(vec![old, nm]);
                        log.push(format!("{path} wrap"));
                    }
                    1 => {
                        let old = std::mem::replace(tv, Value::Null);
                        *tv = Value::from(Object::from_iter([Entry::new("old", old), Entry::new("é\n", nv)]));
                        let old = std::mem::replace(tm, MV::Null);
                        *tm = MV::Obj(vec![("old".into(), old), ("é\n".into(), nm)]);
                        log.push(format!("{path} wrap in object"));
                    }
                    _ => {
                        *tv = nv;
                        *tm = nm;
                        log.push(format!("{path} replace"));
                    }
                };
            }
        }
        cx.count("edits", 1);
        if step % 4 == 3 {
            judge(cx, &v, &m, &|| show(log.join("; ").as_bytes()))?;
        }
    }
    judge(cx, &v, &m, &|| show(log.join("; ").as_bytes()))?;
    cx.sample(|| log.join("; "));
    cx.rng = r;
    Ok(())
}

/// Every class of text as key and value in every position.
fn texts(cx: &mut Ctx, idx: u64) -> R {
    for &b in gen::EDGE_CPS {
        let (Some(a), Some(b)) = (char::from_u32(gen::EDGE_CPS[idx as usize]), char::from_u32(b)) else { continue };
        let t = String::from_iter([a, b]);
        let m = MV::Obj(vec![
            (t.clone(), MV::Str(t.clone())),
            (a.to_string(), MV::Arr(vec![MV::Str(a.to_string()), MV::Str(format!("x{t}y")), MV::Obj(vec![]), MV::Num("-0.0e-0".into())])),
        ]);
        let mut r = cx.rng.clone();
        let v = build(&mut r, &m);
        cx.rng = r;
        judge(cx, &v, &m, &|| format!("built {m:?}"))?;
    }
    Ok(())
}
fn sized(cx: &mut Ctx, idx: u64) -> R {
    let sz = gen::sizes(cx.env, cx.env.amt(9_000, 70_000) as usize);
    let n = sz[idx as usize];
    let mut r = cx.rng.clone();
    let docs = [
        MV::Arr((0..n).map(|i| if i % 3 == 0 { MV::Str("\"".into()) } else { MV::Bool(i % 2 == 0) }).collect()),
        MV::Obj((0..n).map(|i| (format!("k{}\t", i % 7), MV::Null)).collect()),
        MV::Str("a\u{1}".repeat(n)),
        MV::Obj(vec![("é\\".repeat(n), MV::Arr(vec![]))]),
    ];
    for m in docs {
        let v = build(&mut r, &m);
        judge(cx, &v, &m, &|| format!("{n} items"))?;
    }
    // depth
    if n <= 127 {
        let mut m = MV::Str("x\n".into());
        for i in 0..=n {
            m = if i % 2 == 0 { MV::Arr(vec![m, MV::Null]) } else { MV::Obj(vec![("k".into(), m)]) };
        }
        let v = build(&mut r, &m);
        judge(cx, &v, &m, &|| format!("depth {n}"))?;
    }
    cx.rng = r;
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C10",
    rule: "values built from random trees through every constructor (borrowed, owned, cloned and parsed strings; Object from iterators, with_capacity, push, extend), and edit histories of up to 25 steps (push, insert, remove, rename, swap, retain, sort, replace, wrap, truncate) at random paths reached by every mutable accessor, mixing parsed and built parts; sizes and depths at boundaries. Oracle: a model tree edited in step; outputs re-read by the independent parser and by the library. Non-trivial: every judged value.",
    stack: 0,
    workloads: &[
        Workload { name: "texts", total: |_| gen::EDGE_CPS.len() as u64, run: texts },
        Workload { name: "sized", total: |e| gen::sizes(e, e.amt(9_000, 70_000) as usize).len() as u64, run: sized },
        Workload { name: "built", total: |e| e.amt(4000, 80000), run: built },
        Workload { name: "edits", total: |e| e.amt(8000, 160000), run: edits },
    ],
};
