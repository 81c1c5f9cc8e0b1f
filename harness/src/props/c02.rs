//! C02 The recursion limit is exact and bounds stack use.
use crate::common::*;
use crate::model::{self, Cfg, K};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::{Document, HeaplessDocument};
use justjson::parser::Parser;
use justjson::Value;

fn limit_check(s: &[u8], c: Cfg) -> R {
    let o = model::parse(s, c);
    let depth_err = matches!(&o.err, Some(e) if e.kinds[0] == K::RecursionLimitReached);
    basic_routes(s, c, |name, r| {
        let got = matches!(r, Err((K::RecursionLimitReached, _)));
        ensure!(
            got == depth_err,
            "{name}: {} with limit {:?} (trailing commas {}), payload depth reached {}: {}",
            if got { "rejected for depth" } else { "not rejected for depth" },
            c.limit,
            c.trailing,
            o.max_depth + depth_err as usize,
            show(s)
        );
        ensure!(r.is_ok() == o.ok(), "{name}: {r:?} with limit {:?} but {:?}: {}", c.limit, o.err, show(s));
        Ok(())
    })?;
    if c.limit == Some(128) && !c.trailing && c.any_root {
        let chk = |n: &str, r: Result<(), E2>| -> R {
            let got = matches!(r, Err((K::RecursionLimitReached, _)));
            ensure!(got == depth_err && r.is_ok() == o.ok(), "{n} (default limit): {r:?}, expected {:?}: {}", o.err, show(s));
            Ok(())
        };
        chk("validate_json_bytes", Parser::validate_json_bytes(s).map(|_| ()).map_err(|e| e2(&e)))?;
        chk("Value::from_json_bytes", Value::from_json_bytes(s).map(|_| ()).map_err(|e| e2(&e)))?;
        chk("Document::from_json_bytes", Document::from_json_bytes(s).map(|_| ()).map_err(|e| e2(&e)))?;
        if let Some(t) = as_str(s) {
            chk("validate_json", Parser::validate_json(t).map(|_| ()).map_err(|e| e2(&e)))?;
            chk("Value::from_json", Value::from_json(t).map(|_| ()).map_err(|e| e2(&e)))?;
            chk("Document::from_json", Document::from_json(t).map(|_| ()).map_err(|e| e2(&e)))?;
        }
    }
    if o.nodes.len() <= 200 {
        let r = HeaplessDocument::<200>::from_json_bytes_with_config(s, pcfg(c)).map(|_| ()).map_err(|e| e2(&e));
        let got = matches!(r, Err((K::RecursionLimitReached, _)));
        ensure!(got == depth_err, "HeaplessDocument with limit {:?}: {r:?}, expected {:?}: {}", c.limit, o.err, show(s));
    }
    Ok(())
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let o = model::parse(s, Cfg { trailing: true, limit: None, any_root: true });
    let d = o.max_depth;
    let mut lims = vec![Some(128), None, Some(d), Some(d.saturating_sub(1)), Some(d + 1), Some(0)];
    if s.len() < 200 {
        lims.extend([Some(1), Some(2), Some(usize::MAX), Some(d.saturating_sub(2))]);
    }
    lims.sort();
    lims.dedup();
    for l in lims {
        for trailing in [false, true] {
            if trailing && s.len() > 5000 {
                continue;
            }
            limit_check(s, Cfg { trailing, limit: l, any_root: true })?;
            cx.count("limit_checks", 1);
        }
    }
    cx.max("deepest_payload", d as u64);
    cx.case_bytes(s, d > 0);
    Ok(())
}

/// Every forest shape of up to `max` containers of two types; idx selects the
/// type of the first four.
fn shapes(cx: &mut Ctx, idx: u64) -> R {
    let max = cx.env.amt(6, 7) as usize;
    // Dyck words over two bracket types by depth-first search
    struct F {
        w: Vec<u8>,
        open: Vec<u8>,
        used: usize,
    }
    let mut st = vec![F { w: vec![], open: vec![], used: 0 }];
    while let Some(f) = st.pop() {
        if f.open.is_empty() && f.used > 0 {
            for style in 0..4 {
                check(cx, &spell(&f.w, style))?;
            }
            cx.count("shapes", 1);
            continue;
        }
        if f.used < max {
            for t in [b'[', b'{'] {
                if f.used < 4 && (idx >> f.used) & 1 != (t == b'{') as u64 {
                    continue;
                }
                let mut w = f.w.clone();
                w.push(t);
                let mut open = f.open.clone();
                open.push(t);
                st.push(F { w, open, used: f.used + 1 });
            }
        }
        if let Some(t) = f.open.last().copied() {
            let mut w = f.w.clone();
            w.push(if t == b'[' { b']' } else { b'}' });
            let mut open = f.open.clone();
            open.pop();
            st.push(F { w, open, used: f.used });
        }
    }
    Ok(())
}
/// Turns a bracket word into JSON. style bit 0: leaves in empty containers,
/// bit 1: trailing commas.
fn spell(w: &[u8], style: usize) -> Vec<u8> {
    let mut o = Vec::new();
    let mut st: Vec<(u8, usize)> = vec![];
    for &b in w {
        match b {
            b'[' | b'{' => {
                if let Some((t, n)) = st.last_mut() {
                    if *n > 0 {
                        o.push(b',');
                    }
                    if *t == b'{' {
                        o.extend_from_slice(b"\"k\":");
                    }
                    *n += 1;
                }
                o.push(b);
                st.push((b, 0));
            }
            _ => {
                if let Some((t, mut n)) = st.pop() {
                    if n == 0 && style & 1 == 1 {
                        o.extend_from_slice(if t == b'{' { b"\"x\":1" } else { b"1" });
                        n = 1;
                    }
                    if n > 0 && style & 2 == 2 {
                        o.push(b',');
                    }
                }
                o.push(b);
            }
        }
    }
    o
}

/// A chain of `d` containers; kind selects arrays, objects, mixtures and
/// decoration with siblings.
pub fn chain(d: usize, kind: usize) -> Vec<u8> {
    let mut o = Vec::new();
    let mut close = Vec::new();
    for i in 0..d {
        let obj = match kind % 5 {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            3 => i % 2 == 1,
            _ => (i / 3) % 2 == 0,
        };
        if obj {
            o.extend_from_slice(if kind >= 5 { b"{\"s\":[],\"t\":{\"u\":1},\"k\":" } else { b"{\"k\":" });
            close.push(b'}');
        } else {
            o.extend_from_slice(if kind >= 5 { b"[[],{},[1]," } else { b"[" });
            close.push(b']');
        }
    }
    // innermost object or decorated array needs a value
    if matches!(o.last(), Some(b':' | b',')) {
        o.push(b'0');
    }
    close.reverse();
    o.extend_from_slice(&close);
    o
}

fn exact(cx: &mut Ctx, idx: u64) -> R {
    let max = cx.env.amt(2100, 20_000) as usize;
    let sz = crate::gen::sizes(cx.env, max);
    let d = sz[idx as usize / 10];
    let s = chain(d, idx as usize % 10);
    let o = model::parse(&s, Cfg::OPEN);
    ensure_h(o.ok() || d == 0);
    let dd = o.max_depth;
    for l in [dd.saturating_sub(1), dd, dd + 1, dd / 2, 2 * dd] {
        limit_check(&s, Cfg { limit: Some(l), ..Cfg::DEFAULT })?;
        cx.count("limit_checks", 1);
    }
    limit_check(&s, Cfg::OPEN)?;
    limit_check(&s, Cfg::DEFAULT)?;
    cx.max("deepest_payload", dd as u64);
    cx.case_bytes(&s, dd > 0);
    Ok(())
}
fn ensure_h(b: bool) {
    if !b {
        panic!("harness: bad chain");
    }
}

/// Hostile nesting on a small stack, with the default limit.
fn hostile(cx: &mut Ctx, idx: u64) -> R {
    let unit: &[&[u8]] = &[b"[", b"{\"a\":", b"[{\"a\":", b"[[],", b"{\"b\":{},\"a\":", b"[1,", b" [ ", b"[\"x\",{\"\\u0061\":"];
    let n = if cx.env.tier == Tier::Quick { 200_000 } else { 2_000_000 };
    let u = unit[idx as usize % unit.len()];
    let mut s = u.repeat(n);
    if idx as usize >= unit.len() {
        // balanced where possible
        let o: Vec<u8> = s.iter().rev().filter_map(|b| match b { b'[' => Some(b']'), b'{' => Some(b'}'), _ => None }).collect();
        s.push(b'1');
        s.extend(o);
    }
    let s2 = s.clone();
    let r = std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || -> R {
            let mut seen = vec![];
            for (i, r) in [
                Parser::validate_json_bytes(&s2).map(|_| ()).map_err(|e| e2(&e)),
                Value::from_json_bytes(&s2).map(|_| ()).map_err(|e| e2(&e)),
                Document::from_json_bytes(&s2).map(|_| ()).map_err(|e| e2(&e)),
                as_str(&s2).map_or(Ok(()), |t| Parser::validate_json(t).map(|_| ()).map_err(|e| e2(&e))),
                as_str(&s2).map_or(Ok(()), |t| Value::from_json(t).map(|_| ()).map_err(|e| e2(&e))),
                as_str(&s2).map_or(Ok(()), |t| Document::from_json(t).map(|_| ()).map_err(|e| e2(&e))),
                as_str(&s2).map_or(Ok(()), |t| HeaplessDocument::<600>::from_json(t).map(|_| ()).map_err(|e| e2(&e))),
                as_str(&s2).map_or(Err((K::RecursionLimitReached, 0)), |t| match justjson::JsonString::from_json(t) {
                    Ok(_) => Ok(()),
                    Err(e) if kind(e.kind()) == K::ExpectedString => Err((K::RecursionLimitReached, 0)),
                    Err(e) => Err(e2(&e)),
                }),
            ]
            .into_iter()
            .enumerate()
            {
                if !matches!(r, Err((K::RecursionLimitReached, _))) {
                    seen.push((i, r));
                }
            }
            ensure!(seen.is_empty(), "hostile nesting not rejected for depth: {seen:?}: {}", show(&s2));
            Ok(())
        });
    let Ok(h) = r else { panic!("no thread") };
    match h.join() {
        Ok(r) => r?,
        Err(_) => bail!("panic while parsing hostile nesting {}", show(&s)),
    }
    cx.max("hostile_depth", n as u64);
    cx.case_bytes(&s, true);
    Ok(())
}

/// Limits around the widths a counter could have, against shallow payloads and
/// (idx >= 20) against chains that reach them.
fn limits(cx: &mut Ctx, idx: u64) -> R {
    if idx < 20 {
        let mut ls = vec![100, 127, 128, 129, 200];
        for b in [8u32, 15, 16, 24, 31, 32, 33, 48, 62, 63] {
            for k in 0..12usize {
                ls.push((1usize << b) + k);
                ls.push((1usize << b) - 1 - k);
            }
        }
        ls.extend((0..12).map(|k| usize::MAX - k));
        let d = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 90, 127, 128, 129, 130, 254, 255, 256, 257, 300][idx as usize];
        for kd in 0..10 {
            let s = chain(d, kd);
            for &l in &ls {
                limit_check(&s, Cfg { limit: Some(l), ..Cfg::DEFAULT })?;
                cx.count("limit_checks", 1);
            }
        }
        cx.case(mix(idx), true);
        return Ok(());
    }
    let d = 65_533 + (idx as usize - 20) / 2;
    let s = chain(d, 2 * (idx as usize % 2));
    let t = s.clone();
    let r = std::thread::Builder::new().stack_size(1 << 30).spawn(move || -> R {
        for l in [d - 2, d - 1, d, d + 1, 65_535, 65_536, 65_537, d + 65_536, (1 << 32) + 1, (1 << 32) + d, usize::MAX] {
            let p = pcfg(Cfg { limit: Some(l), ..Cfg::DEFAULT });
            for (n, r) in [
                ("validate", Parser::validate_json_bytes_with_config(&t, p).map(|_| ()).map_err(|e| e2(&e))),
                ("Value", Value::from_json_bytes_with_config(&t, p).map(|_| ()).map_err(|e| e2(&e))),
                ("Document", Document::from_json_bytes_with_config(&t, p).map(|_| ()).map_err(|e| e2(&e))),
            ] {
                let ok = if d > l { matches!(r, Err((K::RecursionLimitReached, _))) } else { r.is_ok() };
                ensure!(ok, "{n}: a chain of {d} levels with limit {l} gives {r:?}");
            }
        }
        Ok(())
    });
    let Ok(h) = r else { panic!("no thread") };
    match h.join() {
        Ok(r) => r?,
        Err(_) => bail!("panic while parsing a chain of {d} levels"),
    }
    cx.max("deepest_payload", d as u64);
    cx.case_bytes(&s, true);
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C02",
    rule: "payload x limit: every bracket shape of up to 6 (thorough 7) containers in four spellings (empty, with leaves, trailing commas) under limits {0,1,2,d-2,d-1,d,d+1,128,max,none}; chains of exactly d levels for d up to 2100 (20000) in ten mixtures with limits d/2,d-1,d,d+1,2d,128,none; chains of 1-300 levels under 257 limits around powers of two, and of 65533-65538 levels under limits around their depth and 2^16, 2^32; token sequences, edits, families, corpus and random payloads under the same limits, on value, document, fixed document and validation routes; unclosed and closed hostile nesting of 200000 (2000000) levels on a 1 MiB stack. Oracle: depth rejection exactly when the reference parser's nesting exceeds the limit. Non-trivial: distinct payloads with at least one container.",
    stack: 0,
    workloads: payload_workloads![check; tok 4, 5; num 2, 3; fam 300, 3000; rnd 800, 20000;
        Workload { name: "shapes", total: |_| 16, run: shapes },
        Workload { name: "exact-chains", total: |e| 10 * crate::gen::sizes(e, e.amt(2100, 20_000) as usize).len() as u64, run: exact },
        Workload { name: "limits", total: |_| 32, run: limits },
        Workload { name: "hostile", total: |_| 16, run: hostile },
    ],
};
