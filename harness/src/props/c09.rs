//! C09 Compact output of a parsed value is its source without whitespace.
use crate::common::*;
use crate::model::{self, Cfg};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::{Document, HeaplessDocument};
use justjson::Value;

pub fn outputs(v: &Value<'_>, want: &[u8], how: &str, s: &[u8]) -> R {
    let mut w = String::new();
    let r = v.write_json_to(&mut w);
    ensure!(r.is_ok(), "{how}: write_json_to a String fails: {}", show(s));
    for (n, o) in [("to_json", v.to_json()), ("write_json_to", w), ("Display", v.to_string())] {
        ensure!(o.as_bytes() == want, "{how}: {n} gives {} instead of {}: source {}", show(o.as_bytes()), show(want), show(s));
    }
    Ok(())
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    for c in [Cfg::DEFAULT, Cfg { trailing: true, limit: None, any_root: true }] {
        let o = model::parse(s, c);
        if !o.ok() {
            continue;
        }
        let want = model::compact(s, &o);
        cx.case_bytes(s, want.len() != s.len());
        cx.count("documents", 1);
        cx.count("nodes", o.nodes.len() as u64);
        cx.max("largest_payload", s.len() as u64);
        let p = pcfg(c);
        let bad = |n: &str| format!("{n} rejects a valid payload under {c:?}: {}", show(s));
        let v = Value::from_json_bytes_with_config(s, p).map_err(|_| bad("Value::from_json_bytes"))?;
        outputs(&v, &want, "parsed from bytes", s)?;
        let Some(t) = as_str(s) else { bail!("model accepts invalid UTF-8") };
        let v = Value::from_json_with_config(t, p).map_err(|_| bad("Value::from_json"))?;
        outputs(&v, &want, "parsed from str", s)?;
        let d = Document::from_json_bytes_with_config(s, p).map_err(|_| bad("Document::from_json_bytes"))?;
        let Some(v) = d.iter().next_value() else { bail!("next_value at the start gives nothing: {}", show(s)) };
        outputs(&v, &want, "read from a document's cursor", s)?;
        outputs(&Value::from(d), &want, "converted from a document (bytes)", s)?;
        let d = Document::from_json_with_config(t, p).map_err(|_| bad("Document::from_json"))?;
        outputs(&Value::from(d), &want, "converted from a document (str)", s)?;
        if o.nodes.len() <= 32 {
            let d = HeaplessDocument::<32>::from_json_bytes_with_config(s, p).map_err(|_| bad("HeaplessDocument"))?;
            outputs(&Value::from(d), &want, "converted from a fixed document", s)?;
        }
        return Ok(());
    }
    cx.case_bytes(s, false);
    Ok(())
}
fn valid(cx: &mut Ctx, s: &[u8]) -> R {
    check(cx, s)
}
fn trailing(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..30 {
        let mut r = cx.rng.clone();
        let mut g = crate::gen::DocGen::random(&mut r, cx.env).allow_b(true);
        g.trailing = true;
        let s = g.doc(&mut r, cx.env);
        cx.rng = r;
        check(cx, &s)?;
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C09",
    rule: "accepted payloads of the standard workloads, random valid documents with every kind of whitespace and spelling, and documents with trailing commas (parsed with them allowed); values from str, bytes, documents (growable and fixed) and cursors; each through to_json, write_json_to and Display. Oracle: the reference lexer's tokens concatenated. Non-trivial: distinct accepted payloads containing whitespace or trailing commas.",
    stack: 0,
    workloads: payload_workloads![check; tok 6, 7; num 5, 6; fam 2000, 70000; rnd 1000, 20000;
        Workload { name: "valid", total: |e| e.amt(1500, 30000), run: |cx, _| super::payloads::valid(cx, valid) },
        Workload { name: "trailing", total: |e| e.amt(1000, 20000), run: trailing },
    ],
};
