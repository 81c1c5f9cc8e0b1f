//! C11 Pretty output has the promised layout and all output routes agree.
use crate::common::*;
use crate::gen;
use crate::model::{self, Cfg};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::Document;
use justjson::Value;
use std::fmt::Write as _;

const INDENTS: &[&str] = &["  ", "", " ", "\t", "    ", "\t ", "-", "é", "\"", "ab\ncd", "                                                                "];
const EOLS: &[&str] = &["\n", "", "\r\n", "\r", " \n", "\n\n", "|", "€", "<eol>", "\u{2028}"];

/// Takes text in whatever chunks and characters arrive.
struct Sink(String, u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.1 += 1;
        self.0.push_str(s);
        Ok(())
    }
}

pub fn pretty_routes(cx: &mut Ctx, v: &Value<'_>, want: impl Fn(&str, &str) -> Vec<u8>, s: &[u8], customs: &[(&str, &str)]) -> R {
    let diff = |n: &str, ind: &str, eol: &str, got: &str, w: &[u8]| {
        let at = got.as_bytes().iter().zip(w).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
        let lo = at.saturating_sub(30);
        format!(
            "{n} (indentation {ind:?}, line ending {eol:?}) differs at byte {at}: ...{} instead of ...{}: source {}",
            show(&got.as_bytes()[lo..(at + 30).min(got.len())]),
            show(&w[lo.min(w.len())..(at + 30).min(w.len())]),
            show(s)
        )
    };
    let def = want("  ", "\n");
    let mut sink = Sink(String::new(), 0);
    ensure!(v.pretty_write_json_to(&mut sink).is_ok(), "pretty_write_json_to fails: {}", show(s));
    let mut alt = Sink(String::new(), 0);
    ensure!(write!(alt, "{v:#}").is_ok(), "writing {{:#}} fails: {}", show(s));
    for (n, o) in [("to_json_pretty", v.to_json_pretty()), ("pretty_write_json_to", sink.0), ("format {:#}", format!("{v:#}")), ("write {:#}", alt.0)] {
        ensure!(o.as_bytes() == def, "{}", diff(n, "  ", "\n", &o, &def));
    }
    let k = hash64(s) as usize;
    let (n, o) = flagged_alt(v, k);
    ensure!(o.as_bytes() == def, "{}", diff(n, "  ", "\n", &o, &def));
    cx.count("layouts_compared", 1);
    for (i, e) in customs {
        let w = want(i, e);
        let o = v.to_json_pretty_custom(i, e);
        ensure!(o.as_bytes() == w, "{}", diff("to_json_pretty_custom", i, e, &o, &w));
        let mut sink = Sink(String::new(), 0);
        ensure!(v.pretty_write_json_to_custom(i, e, &mut sink).is_ok(), "pretty_write_json_to_custom fails: {}", show(s));
        ensure!(sink.0.as_bytes() == w, "{}", diff("pretty_write_json_to_custom", i, e, &sink.0, &w));
        cx.count("layouts_compared", 1);
    }
    // compact routes
    let c = v.to_json();
    let mut sink = Sink(String::new(), 0);
    ensure!(v.write_json_to(&mut sink).is_ok(), "write_json_to fails: {}", show(s));
    let mut by_value = String::new();
    ensure!(write!(by_value, "{v}").is_ok(), "writing {{}} fails: {}", show(s));
    for (n, o) in [("write_json_to", sink.0), ("Display", format!("{v}")), ("write {}", by_value)] {
        ensure!(o == c, "{n} gives {} but to_json {}: source {}", show(o.as_bytes()), show(c.as_bytes()), show(s));
    }
    let (n, o) = flagged(v, k);
    ensure!(o == c, "format {n} gives {} but to_json {}: source {}", show(o.as_bytes()), show(c.as_bytes()), show(s));
    let st = model::strip_ws(&def);
    ensure!(st == c.as_bytes(), "pretty output without whitespace is {} but the compact output {}: source {}", show(&st), show(c.as_bytes()), show(s));
    Ok(())
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let c = Cfg { trailing: true, limit: None, any_root: true };
    let o = model::parse(s, c);
    if !o.ok() {
        cx.case_bytes(s, false);
        return Ok(());
    }
    cx.case_bytes(s, o.nodes.len() > 1);
    cx.max("deepest", o.max_depth as u64);
    cx.max("most_nodes", o.nodes.len() as u64);
    let Ok(v) = Value::from_json_bytes_with_config(s, pcfg(c)) else { bail!("rejects a valid payload under {c:?}: {}", show(s)) };
    let mut cs: Vec<(&str, &str)> = vec![];
    let long: String;
    if o.nodes.len() <= 4 {
        for i in INDENTS {
            for e in EOLS {
                cs.push((i, e));
            }
        }
    } else {
        let r = &mut cx.rng;
        for _ in 0..2 {
            cs.push((*r.pick(INDENTS), *r.pick(EOLS)));
        }
        if r.chance(1, 20) && o.nodes.len() < 500 {
            long = " ".repeat(gen::len(&mut r.clone(), cx.env, 300));
            cs.push((&long, "\n"));
            cs.push(("\t", &long));
        }
    }
    pretty_routes(cx, &v, |i, e| model::pretty(s, &o, i, e), s, &cs)?;
    if o.nodes.len() < 200 && cx.rng.chance(1, 8) {
        let Ok(d) = Document::from_json_bytes_with_config(s, pcfg(c)) else { bail!("rejects a valid payload under {c:?}: {}", show(s)) };
        pretty_routes(cx, &Value::from(d), |i, e| model::pretty(s, &o, i, e), s, &cs[..cs.len().min(2)])?;
    }
    Ok(())
}

/// Nested containers at every level up to the default limit, with siblings.
fn deep(cx: &mut Ctx, idx: u64) -> R {
    let d = idx as usize + 1;
    for k in 0..6 {
        let mut s = String::new();
        let mut close = String::new();
        for i in 0..d {
            let arr = match k {
                0 => true,
                1 => false,
                2 => i % 2 == 0,
                3 => i % 3 == 0,
                _ => cx.rng.chance(1, 2),
            };
            if arr {
                s.push_str(if k > 3 { "[1,{}," } else { "[" });
                close.insert_str(0, if k > 4 { ",[]]" } else { "]" });
            } else {
                s.push_str(if k > 3 { "{\"x\":[],\"y\":" } else { "{\"k\":" });
                close.insert_str(0, if k > 4 { ",\"z\":{}}" } else { "}" });
            }
        }
        for leaf in ["1", "[]", "{}", "\"\\n\""] {
            check(cx, format!("{s}{leaf}{close}").as_bytes())?;
        }
    }
    Ok(())
}

/// Built values: the layout does not depend on where the value comes from.
fn built(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..20 {
        let mut r = cx.rng.clone();
        let m = super::c08::mv(&mut r, cx.env, 0, &mut 40);
        let v = super::c10::build(&mut r, &m);
        cx.rng = r;
        let c = v.to_json();
        let o = model::parse(c.as_bytes(), Cfg::OPEN);
        ensure!(o.ok(), "a built value serializes to {}", show(c.as_bytes()));
        cx.case_bytes(c.as_bytes(), o.nodes.len() > 1);
        let i = *cx.rng.pick(INDENTS);
        let e = *cx.rng.pick(EOLS);
        pretty_routes(cx, &v, |i, e| model::pretty(c.as_bytes(), &o, i, e), c.as_bytes(), &[(i, e), ("", "")])?;
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C11",
    rule: "accepted payloads of the standard workloads, random valid documents, containers nested to every level 1-130 with siblings, and values built through the API; default layout plus custom indentations and line endings (all 110 combinations for small payloads), through to_json_pretty, pretty_write_json_to, {:#} and the custom variants, and the compact routes. Oracle: the reference renderer. Non-trivial: distinct accepted payloads with more than one node.",
    stack: 0,
    workloads: payload_workloads![check; tok 5, 6; num 4, 5; fam 1000, 30000; rnd 1000, 20000;
        Workload { name: "deep", total: |_| 130, run: deep },
        Workload { name: "built", total: |e| e.amt(1000, 20000), run: built },
        Workload { name: "valid", total: |e| e.amt(1000, 20000), run: |cx, _| super::payloads::valid(cx, check) },
    ],
};
