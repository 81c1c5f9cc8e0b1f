//! C05 Parsed values mirror the document.
use crate::common::*;
use crate::model::{self, Cfg};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::Value;

/// Kind-specific accessors return the contents for their kind only.
pub fn accessors(v: &mut Value<'_>) -> R {
    let k = value_kind(v);
    use justjson::parser::JsonKind::*;
    let got = [
        ("as_object", v.as_object().is_some(), k == Object),
        ("as_array", v.as_array().is_some(), k == Array),
        ("as_string", v.as_string().is_some(), k == String),
        ("as_number", v.as_number().is_some(), k == Number),
        ("as_bool", v.as_bool().is_some(), k == Boolean),
        ("is_null", v.is_null(), k == Null),
        ("as_object_mut", v.as_object_mut().is_some(), k == Object),
        ("as_array_mut", v.as_array_mut().is_some(), k == Array),
        ("as_f64", v.as_f64().is_some(), k == Number),
        ("as_f32", v.as_f32().is_some(), k == Number),
    ];
    for (n, g, w) in got {
        ensure!(g == w, "{n} on a {k:?} gives {}", if g { "something" } else { "nothing" });
    }
    if k != Number {
        let ints = [
            v.as_u8().is_some(), v.as_u16().is_some(), v.as_u32().is_some(), v.as_u64().is_some(), v.as_u128().is_some(), v.as_usize().is_some(),
            v.as_i8().is_some(), v.as_i16().is_some(), v.as_i32().is_some(), v.as_i64().is_some(), v.as_i128().is_some(), v.as_isize().is_some(),
        ];
        ensure!(!ints.contains(&true), "integer accessor gives something on a {k:?}: {ints:?}");
    }
    if k != String {
        ensure!(v.as_str().is_none(), "as_str gives something on a {k:?}");
    }
    if k != Object {
        ensure!(v.get("").is_none() && v.get("a").is_none() && v.get_mut("a").is_none(), "get finds something in a {k:?}");
    }
    if k != Array {
        ensure!(v.get_index(0).is_none() && v.get_index_mut(0).is_none(), "get_index finds something in a {k:?}");
    }
    match &*v {
        Value::Array(a) => {
            let b = v.as_array().map(|b| (b.as_ptr(), b.len()));
            ensure!(b == Some((a.as_ptr(), a.len())), "as_array returns other contents");
        }
        Value::Object(o) => ensure!(v.as_object().map(|b| std::ptr::eq(b, o)) == Some(true), "as_object returns other contents"),
        Value::String(j) => {
            ensure!(v.as_string().map(|b| std::ptr::eq(b, j)) == Some(true), "as_string returns other contents");
            ensure!(v.as_str() == j.as_str(), "Value::as_str and JsonString::as_str differ");
        }
        Value::Number(j) => ensure!(v.as_number().map(|b| std::ptr::eq(b, j)) == Some(true), "as_number returns other contents"),
        Value::Boolean(b) => ensure!(v.as_bool() == Some(*b), "as_bool returns another value"),
        Value::Null => {}
    }
    Ok(())
}

fn all_accessors(v: &mut Value<'_>) -> R {
    let mut st: Vec<&mut Value<'_>> = vec![v];
    while let Some(x) = st.pop() {
        accessors(x)?;
        match x {
            Value::Array(a) => st.extend(a.iter_mut()),
            Value::Object(o) => st.extend(o.iter_mut().map(|e| &mut e.value)),
            _ => {}
        }
    }
    Ok(())
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    for c in [Cfg::DEFAULT, Cfg { trailing: true, limit: None, any_root: true }] {
        let o = model::parse(s, c);
        if !o.ok() {
            continue;
        }
        if c.trailing && model::parse(s, Cfg::DEFAULT).ok() {
            break; // nothing new
        }
        let w = |e: String| format!("{e}: {}", show(s));
        match Value::from_json_bytes_with_config(s, pcfg(c)) {
            Ok(mut v) => {
                mirrors(&v, s, &o).map_err(w)?;
                all_accessors(&mut v).map_err(w)?;
                mirrors(&v, s, &o).map_err(|e| w(format!("after the accessors: {e}")))?;
            }
            Err(e) => bail!("rejected ({:?}) though valid under {c:?}: {}", e2(&e), show(s)),
        }
        if let Some(t) = as_str(s) {
            match Value::from_json_with_config(t, pcfg(c)) {
                Ok(v) => mirrors(&v, s, &o).map_err(w)?,
                Err(e) => bail!("rejected ({:?}) though valid under {c:?}: {}", e2(&e), show(s)),
            }
        }
        cx.max("largest_node_count", o.nodes.len() as u64);
        cx.max("largest_payload", s.len() as u64);
        cx.max("deepest", o.max_depth as u64);
        cx.count("nodes_compared", o.nodes.len() as u64);
        cx.case_bytes(s, true);
        return Ok(());
    }
    cx.case_bytes(s, false);
    Ok(())
}

/// Wide documents: every element and entry distinct, duplicates at chosen
/// distances.
fn wide(cx: &mut Ctx, idx: u64) -> R {
    let sz = crate::gen::sizes(cx.env, cx.env.amt(20_000, 300_000) as usize);
    let n = sz[idx as usize / 4];
    let mut s = Vec::new();
    match idx % 4 {
        0 => {
            s.push(b'[');
            for i in 0..n {
                s.extend(format!("{}{}", if i > 0 { "," } else { "" }, i).into_bytes());
            }
            s.push(b']');
        }
        1 => {
            s.push(b'{');
            for i in 0..n {
                s.extend(format!("{}\"k{}\":{}", if i > 0 { "," } else { "" }, i % (n / 2 + 1), i).into_bytes());
            }
            s.push(b'}');
        }
        2 => {
            s.push(b'[');
            for i in 0..n {
                let e = match i % 6 {
                    0 => format!("[{i}]"),
                    1 => format!("{{\"a\":{i}}}"),
                    2 => format!("\"s{i}\\n\""),
                    3 => "true".into(),
                    4 => "null".into(),
                    _ => format!("-{i}.5e1"),
                };
                s.extend(format!("{}{}", if i > 0 { " ,\n" } else { "" }, e).into_bytes());
            }
            s.push(b']');
        }
        _ => {
            s.push(b'{');
            for i in 0..n {
                s.extend(format!("{}\"\\u00{:02x}é{}\":[{}]", if i > 0 { "," } else { "" }, 32 + i % 90, i % 7, i).into_bytes());
            }
            s.push(b'}');
        }
    }
    check(cx, &s)
}

pub const PROP: Prop = Prop {
    id: "C05",
    rule: "accepted payloads of the standard workloads (token sequences up to 6 (7), numbers, string bodies, escapes, edits, families, corpus, random valid documents) plus wide documents with distinct and duplicate members up to 20000 (300000) entries. Oracle: a node-by-node walk of the value against the reference parser's nodes (kind, order, count, exact source text), and every accessor on every node. Non-trivial: distinct accepted payloads.",
    stack: 0,
    workloads: payload_workloads![check; tok 6, 7; num 5, 6; fam 2000, 70000; rnd 1500, 30000;
        Workload { name: "wide", total: |e| 4 * crate::gen::sizes(e, e.amt(20_000, 300_000) as usize).len() as u64, run: wide },
        Workload { name: "valid", total: |e| e.amt(1500, 40000), run: |cx, _| super::payloads::valid(cx, check) },
    ],
};
