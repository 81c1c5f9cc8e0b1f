//! C04 All parsing entry points agree.
use super::c16::Quiet;
use crate::common::*;
use crate::model::{self, Cfg, NK};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::{Document, HeaplessDocument};
use justjson::parser::Parser;
use justjson::{JsonNumber, JsonString, Value};

const CAP: usize = 64;

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let c = super::c03::rot(cx.rng.below(480), s);
    one(cx, s, c)?;
    one(cx, s, Cfg::DEFAULT)?;
    Ok(())
}

fn one(cx: &mut Ctx, s: &[u8], c: Cfg) -> R {
    let p = pcfg(c);
    let first: Res = Parser::validate_json_bytes_with_config(s, p).map_err(|e| e2(&e));
    let mut n_routes = 1u64;
    let mut say = |name: &str, r: Res| -> R {
        n_routes += 1;
        ensure!(r == first, "{name} gives {r:?} but validate_json_bytes gives {first:?} under {c:?}: {}", show(s));
        Ok(())
    };
    let t = as_str(s);
    let vb = Value::from_json_bytes_with_config(s, p);
    say("Value::from_json_bytes", vb.as_ref().map(value_kind).map_err(e2))?;
    let db = Document::from_json_bytes_with_config(s, p);
    say("Document::from_json_bytes", db.as_ref().map(doc_kind).map_err(e2))?;
    say("parse_json_bytes(custom delegate)", Parser::parse_json_bytes_with_config(s, p, Quiet).map_err(|e| e2(&e)))?;
    say("parse_json_bytes(())", Parser::parse_json_bytes_with_config(s, p, ()).map_err(|e| e2(&e)))?;
    let nodes = model::parse(s, c).nodes.len();
    let mut hb = None;
    if nodes <= CAP {
        let h = HeaplessDocument::<CAP>::from_json_bytes_with_config(s, p);
        say("HeaplessDocument::from_json_bytes", h.as_ref().map(|d| d.iter().next().map_or(justjson::parser::JsonKind::Null, |n| node_kind(&n))).map_err(e2))?;
        hb = h.ok();
    }
    let mut vs = None;
    let mut ds = None;
    if let Some(t) = t {
        say("validate_json", Parser::validate_json_with_config(t, p).map_err(|e| e2(&e)))?;
        let v = Value::from_json_with_config(t, p);
        say("Value::from_json", v.as_ref().map(value_kind).map_err(e2))?;
        vs = v.ok();
        let d = Document::from_json_with_config(t, p);
        say("Document::from_json", d.as_ref().map(doc_kind).map_err(e2))?;
        ds = d.ok();
        say("parse_json(custom delegate)", Parser::parse_json_with_config(t, p, Quiet).map_err(|e| e2(&e)))?;
        say("parse_json(())", Parser::parse_json_with_config(t, p, ()).map_err(|e| e2(&e)))?;
        if nodes <= CAP {
            let h = HeaplessDocument::<CAP>::from_json_with_config(t, p);
            say("HeaplessDocument::from_json", h.as_ref().map(|d| d.iter().next().map_or(justjson::parser::JsonKind::Null, |n| node_kind(&n))).map_err(e2))?;
        }
    }
    if c == Cfg::DEFAULT {
        say("validate_json_bytes (no config)", Parser::validate_json_bytes(s).map_err(|e| e2(&e)))?;
        say("Value::from_json_bytes (no config)", Value::from_json_bytes(s).map(|v| value_kind(&v)).map_err(|e| e2(&e)))?;
        say("Document::from_json_bytes (no config)", Document::from_json_bytes(s).map(|v| doc_kind(&v)).map_err(|e| e2(&e)))?;
        say("parse_json_bytes (no config)", Parser::parse_json_bytes(s, Quiet).map_err(|e| e2(&e)))?;
        if let Some(t) = t {
            say("validate_json (no config)", Parser::validate_json(t).map_err(|e| e2(&e)))?;
            say("Value::from_json (no config)", Value::from_json(t).map(|v| value_kind(&v)).map_err(|e| e2(&e)))?;
            say("Document::from_json (no config)", Document::from_json(t).map(|v| doc_kind(&v)).map_err(|e| e2(&e)))?;
            say("parse_json (no config)", Parser::parse_json(t, Quiet).map_err(|e| e2(&e)))?;
            lone(t, &first, s)?;
        }
    }
    // contents
    if let (Ok(v), Ok(d)) = (vb, db) {
        let nodes: Vec<_> = d.iter().collect();
        if let Some(h) = hb {
            ensure!(h.iter().eq(nodes.iter().cloned()), "fixed-capacity and growable documents differ: {}", show(s));
            let hv = Value::from(h);
            ensure!(hv == v, "value from a fixed-capacity document differs: {}", show(s));
        }
        if let Some(ds) = ds {
            ensure!(ds == d, "documents from str and bytes differ: {}", show(s));
            ensure!(ds.iter().eq(nodes.into_iter()), "nodes from str and bytes differ: {}", show(s));
        }
        let vd = Value::from(d);
        ensure!(vd == v, "value from a document differs from the parsed value: {}", show(s));
        ensure!(vd.to_json() == v.to_json(), "output through a document differs: {}", show(s));
        if let Some(vs) = vs {
            ensure!(vs == v, "values from str and bytes differ: {}", show(s));
            ensure!(vs.to_json() == v.to_json(), "output of values from str and bytes differs: {}", show(s));
        }
        cx.count("accepted", 1);
    } else {
        cx.count("rejected", 1);
    }
    cx.count("route_results_compared", n_routes);
    cx.case(hash64(s) ^ mix(c.trailing as u64 + 2 * c.any_root as u64).wrapping_add(mix(c.limit.unwrap_or(7) as u64)), nodes > 0);
    Ok(())
}

fn lone(t: &str, first: &Res, s: &[u8]) -> R {
    use crate::model::K;
    let o = model::parse(s, Cfg::DEFAULT);
    let root = o.nodes.first().map(|n| n.k);
    let v = Value::from_json(t);
    // strings
    match JsonString::from_json(t) {
        Ok(j) => match v.as_ref().map(|v| v.as_string()) {
            Ok(Some(x)) => {
                ensure!(x == &j && x.as_json_str().map(|a| a.as_str()) == j.as_json_str().map(|a| a.as_str()), "JsonString::from_json gives {j:?}, Value {x:?}");
                ensure!(x.decoded_len() == j.decoded_len() && x.len() == j.len() && x.as_str() == j.as_str(), "lengths differ: {j:?} {x:?}");
            }
            o => bail!("JsonString::from_json accepts but Value::from_json gives {o:?}: {}", show(s)),
        },
        Err(e) => {
            let e = e2(&e);
            match first {
                Ok(k) => ensure!(
                    *k != justjson::parser::JsonKind::String && e.0 == K::ExpectedString,
                    "JsonString::from_json gives {e:?} for a valid {k:?}: {}",
                    show(s)
                ),
                Err(f) => {
                    let same = e == *f;
                    let wrong_type = e.0 == K::ExpectedString && root.is_some() && root != Some(NK::Str);
                    ensure!(same || wrong_type, "JsonString::from_json gives {e:?}, Value::from_json {f:?}: {}", show(s));
                }
            }
        }
    }
    match JsonNumber::from_json(t) {
        Ok(j) => match v.as_ref().map(|v| v.as_number()) {
            Ok(Some(x)) => ensure!(x == &j && x.source() == j.source(), "JsonNumber::from_json gives {j:?}, Value {x:?}"),
            o => bail!("JsonNumber::from_json accepts but Value::from_json gives {o:?}: {}", show(s)),
        },
        Err(e) => {
            let e = e2(&e);
            match first {
                Ok(k) => ensure!(
                    *k != justjson::parser::JsonKind::Number && e.0 == K::ExpectedNumber,
                    "JsonNumber::from_json gives {e:?} for a valid {k:?}: {}",
                    show(s)
                ),
                Err(f) => {
                    let same = e == *f;
                    let wrong_type = e.0 == K::ExpectedNumber && root.is_some() && root != Some(NK::Num);
                    ensure!(same || wrong_type, "JsonNumber::from_json gives {e:?}, Value::from_json {f:?}: {}", show(s));
                }
            }
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C04",
    rule: "payload x configuration (default and one of 12 in rotation): token sequences up to 5 (6), number strings, string bodies, all \\u escapes, single edits, families, corpus with prefixes, random. Oracle: up to 21 entry points compared with each other (accept/reject, kind and offset of the error, root kind, contents, output); lone strings and numbers against value parsing. Non-trivial: distinct (payload, configuration) in which at least one value or opening bracket was read.",
    stack: 0,
    workloads: payload_workloads![check; tok 5, 6; num 5, 6; fam 1100, 20000; rnd 1500, 40000;],
};
