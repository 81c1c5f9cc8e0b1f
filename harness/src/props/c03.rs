//! C03 Trailing-comma and root-type settings change exactly what they say.
use crate::common::*;
use crate::gen;
use crate::model::{self, Cfg};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::HeaplessDocument;
use justjson::parser::{ParseConfig, Parser};
use justjson::Value;

pub const CFGS: [Cfg; 12] = {
    let mut a = [Cfg::DEFAULT; 12];
    let mut i = 0;
    while i < 12 {
        a[i] = Cfg {
            trailing: i & 1 == 1,
            any_root: i & 2 == 0,
            limit: match i / 4 {
                0 => Some(128),
                1 => None,
                _ => Some(2),
            },
        };
        i += 1;
    }
    a
};

/// The n-th configuration for `s`: the twelve above in rotation, now and then
/// with a limit around the payload's own depth or far away.
pub fn rot(n: usize, s: &[u8]) -> Cfg {
    let c = CFGS[n % 12];
    if (n / 12) % 4 != 0 {
        return c;
    }
    let (mut d, mut now) = (0usize, 0usize);
    for b in s {
        match b {
            b'[' | b'{' => {
                now += 1;
                d = d.max(now);
            }
            b']' | b'}' => now = now.saturating_sub(1),
            _ => {}
        }
    }
    let limit = match (n / 48) % 10 {
        0 => d.saturating_sub(1),
        1 => d,
        2 => d + 1,
        3 => 2 * d,
        4 => 127,
        5 => 129,
        6 => 256,
        7 => 1000,
        8 => 1 << 16,
        _ => usize::MAX,
    };
    Cfg { limit: Some(limit), ..c }
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    for c in CFGS {
        let o = model::parse(s, c);
        routes_accept(s, c, &o)?;
        if o.nodes.len() <= 40 {
            let r = HeaplessDocument::<40>::from_json_bytes_with_config(s, pcfg(c));
            ensure!(r.is_ok() == o.ok(), "HeaplessDocument accepts={} under {c:?} but {:?}: {}", r.is_ok(), o.err, show(s));
            if let Some(t) = as_str(s) {
                let r = HeaplessDocument::<40>::from_json_with_config(t, pcfg(c));
                ensure!(r.is_ok() == o.ok(), "HeaplessDocument (str) accepts={} under {c:?} but {:?}: {}", r.is_ok(), o.err, show(s));
            }
        }
        // the generic delegate entry points
        let r = Parser::parse_json_bytes_with_config(s, pcfg(c), ());
        ensure!(r.is_ok() == o.ok(), "parse_json_bytes_with_config accepts={} under {c:?} but {:?}: {}", r.is_ok(), o.err, show(s));
        if let Some(t) = as_str(s) {
            let r = Parser::parse_json_with_config(t, pcfg(c), ());
            ensure!(r.is_ok() == o.ok(), "parse_json_with_config accepts={} under {c:?} but {:?}: {}", r.is_ok(), o.err, show(s));
        }
        // what an accepted trailing comma leaves behind is the value without it
        if o.ok() && c.trailing {
            match Value::from_json_bytes_with_config(s, pcfg(c)) {
                Ok(v) => mirrors(&v, s, &o).map_err(|e| format!("{e}, under {c:?}: {}", show(s)))?,
                Err(e) => bail!("rejected {:?}: {}", e2(&e), show(s)),
            }
        }
        cx.count(if o.ok() { "accepted" } else { "rejected" }, 1);
    }
    cx.case_bytes(s, model::parse(s, Cfg { trailing: true, limit: None, any_root: true }).nodes.len() > 0);
    Ok(())
}

/// Sequences of builder calls: the fields and the behaviour are those of the
/// last call about each setting.
fn builders(cx: &mut Ctx, idx: u64) -> R {
    let probes: &[&[u8]] = &[b"1", b"\"a\"", b"null", b"[1,]", b"{\"a\":1,}", b"[1]", b"{}", b"[[1]]", b"[[[1]]]", b"[,]", b"{,}", b"[[1,],]", b"true x", b""];
    // base-8 digits of idx choose the calls
    let start = idx % 3;
    let mut p = match start {
        0 => ParseConfig::new(),
        1 => ParseConfig::strict(),
        _ => ParseConfig::default(),
    };
    let mut c = Cfg { any_root: start != 1, ..Cfg::DEFAULT };
    let mut k = idx / 3;
    let mut calls = String::new();
    for _ in 0..5 {
        use std::fmt::Write as _;
        let _ = write!(calls, "{} ", k % 8);
        match k % 8 {
            0 => {}
            1 => {
                p = p.allowing_trailing_commas();
                c.trailing = true;
            }
            2 => {
                p = p.without_recursion_limit();
                c.limit = None;
            }
            3 => {
                p = p.with_recursion_limit(0);
                c.limit = Some(0);
            }
            4 => {
                p = p.with_recursion_limit(2);
                c.limit = Some(2);
            }
            5 => {
                p = p.allowing_all_types_at_root(true);
                c.any_root = true;
            }
            6 => {
                p = p.allowing_all_types_at_root(false);
                c.any_root = false;
            }
            _ => {
                p = p.with_recursion_limit(usize::MAX);
                c.limit = Some(usize::MAX);
            }
        }
        k /= 8;
        ensure!(
            p.allow_trailing_commas == c.trailing && p.recursion_limit == c.limit && p.allow_all_types_at_root == c.any_root,
            "after calls {calls}on start {start} the configuration is {p:?} instead of {c:?}"
        );
    }
    for s in probes {
        let o = model::parse(s, c);
        let a = Parser::validate_json_bytes_with_config(s, p).is_ok();
        let b = Value::from_json_bytes_with_config(s, p).is_ok();
        ensure!(a == o.ok() && b == o.ok(), "configuration built by calls {calls}on start {start}: {} gives {a}/{b}, expected {:?}", show(s), o.err);
    }
    cx.case(mix(idx), true);
    cx.count("builder_histories", 1);
    Ok(())
}
fn builder_batches(cx: &mut Ctx, idx: u64) -> R {
    let n = 3 * 8u64.pow(5);
    let mut i = idx;
    while i < n {
        builders(cx, i)?;
        i += 64;
    }
    Ok(())
}

/// Documents with trailing commas at some or all places.
fn commas(cx: &mut Ctx, _idx: u64) -> R {
    for _ in 0..20 {
        let mut r = cx.rng.clone();
        let mut g = gen::DocGen::random(&mut r, cx.env);
        g.trailing = true;
        let d = g.doc(&mut r, cx.env);
        cx.sample(|| show(&d));
        check(cx, &d)?;
        // add or remove one comma at each structural place of small documents
        if d.len() < 150 {
            for i in 0..=d.len() {
                let mut x = d.clone();
                x.insert(i, b',');
                check(cx, &x)?;
                if d.get(i) == Some(&b',') {
                    let mut x = d.clone();
                    x.remove(i);
                    check(cx, &x)?;
                }
            }
        }
        cx.rng = r;
    }
    Ok(())
}

/// token sequences in which commas matter
const CT: &[&[u8]] = &[b"[", b"]", b"{", b"}", b",", b"1", b"\"a\":", b" "];
fn comma_tokens(cx: &mut Ctx, idx: u64) -> R {
    let max = cx.env.amt(6, 8) as usize;
    let n = CT.len() as u64;
    let mut st = vec![([CT[(idx / n) as usize], CT[(idx % n) as usize]].concat(), 2)];
    while let Some((s, d)) = st.pop() {
        check(cx, &s)?;
        if d < max {
            for t in CT {
                st.push(([&s[..], t].concat(), d + 1));
            }
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C03",
    rule: "payload x 12 configurations (trailing commas, root types, limit 128/none/2) x 12 entry points: all sequences of up to 6 (8) comma-relevant tokens, documents with trailing commas at random places and with every single comma inserted or removed, token sequences, edits, families, corpus, random; all builder histories of five calls from three starts (fields and behaviour on 14 probes). Oracle: reference parser with the same settings. Non-trivial: distinct payloads with at least one complete value or opening bracket, and distinct builder histories.",
    stack: 0,
    workloads: payload_workloads![check; tok 4, 5; num 2, 3; fam 130, 2000; rnd 400, 10000;
        Workload { name: "builders", total: |_| 64, run: builder_batches },
        Workload { name: "comma-tokens", total: |_| 64, run: comma_tokens },
        Workload { name: "commas", total: |e| e.amt(160, 4000), run: commas },
    ],
};
