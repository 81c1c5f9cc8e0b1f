//! C18 Errors name the first violation and point at it.
use super::c03::CFGS;
use super::c16::Quiet;
use crate::common::*;
use crate::huge::{Huge, LENS};
use crate::model::{self, Cfg, MErr, K, NK};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::HeaplessDocument;
use justjson::parser::{Parser, Tokenizer};
use justjson::{JsonNumber, JsonString};

/// A payload that ends too early is reported at its end.
fn at_end(e: &E2, want: &MErr, s: &[u8]) -> R {
    let early = want.hi == s.len() && !matches!(e.0, K::Utf8 | K::InvalidHexadecimal | K::InvalidEscape | K::Unexpected(_));
    ensure!(!early || e.1 == s.len(), "the payload ends too early, which is reported at {} instead of {} ({:?})", e.1, s.len(), e.0);
    Ok(())
}

fn one(cx: &mut Ctx, s: &[u8], c: Cfg) -> R {
    let o = model::parse(s, c);
    let Some(want) = &o.err else { return Ok(()) };
    let mut n = 0;
    let mut f = |name: &str, e: Option<E2>| -> R {
        n += 1;
        let Some(e) = e else { bail!("{name} accepts what should fail with {want:?} under {c:?}: {}", show(s)) };
        ensure!(e.1 <= s.len(), "{name}: offset {} is outside the payload: {}", e.1, show(s));
        at_end(&e, want, s).map_err(|m| format!("{name}: {m} (under {c:?}): {}", show(s)))?;
        err_matches(e, want, s).map_err(|m| format!("{name}: {m} (under {c:?}): {}", show(s)))
    };
    if want.hi == s.len() {
        cx.count("payloads_ending_early", 1);
    }
    basic_routes(s, c, |name, r| f(name, r.err()))?;
    let p = pcfg(c);
    f("parse_json_bytes(custom delegate)", Parser::parse_json_bytes_with_config(s, p, Quiet).err().map(|e| e2(&e)))?;
    let t = as_str(s);
    if let Some(t) = t {
        f("parse_json(custom delegate)", Parser::parse_json_with_config(t, p, Quiet).err().map(|e| e2(&e)))?;
    }
    if o.nodes.len() <= 24 {
        f("HeaplessDocument::from_json_bytes", HeaplessDocument::<24>::from_json_bytes_with_config(s, p).err().map(|e| e2(&e)))?;
        if let Some(t) = t {
            f("HeaplessDocument::from_json", HeaplessDocument::<24>::from_json_with_config(t, p).err().map(|e| e2(&e)))?;
        }
    }
    if let (Some(t), true) = (t, c == Cfg::DEFAULT) {
        // lone strings and numbers whose first violation is not their type
        let i = model::skip_ws(s, 0);
        let root = o.nodes.first().map(|n| n.k);
        if root == Some(NK::Str) || (root.is_none() && matches!(s.get(i), Some(b'"'))) {
            f("JsonString::from_json", JsonString::from_json(t).err().map(|e| e2(&e)))?;
        }
        if root == Some(NK::Num) || (root.is_none() && matches!(s.get(i), Some(b'-' | b'0'..=b'9'))) {
            f("JsonNumber::from_json", JsonNumber::from_json(t).err().map(|e| e2(&e)))?;
        }
    }
    cx.count("errors_checked", n);
    cx.case(mix(hash64(s) ^ mix(c.trailing as u64 + 2 * c.any_root as u64).wrapping_add(mix(c.limit.unwrap_or(7) as u64))), true);
    Ok(())
}

/// The tokenizer's first error.
fn tokens(cx: &mut Ctx, s: &[u8]) -> R {
    let mut pos = 0;
    let e = loop {
        match model::lex(s, pos) {
            Ok(t) => pos = t.end,
            Err(e) if e.start >= s.len() => return Ok(()),
            Err(e) => break e,
        }
    };
    let want = MErr { kinds: e.kinds, lo: pos, hi: e.at };
    let first = |it: &mut dyn Iterator<Item = Option<E2>>| it.flatten().next();
    let b = first(&mut Tokenizer::for_json_bytes(s).map(|r| r.err().map(|e| e2(&e))));
    let t = as_str(s).map(|t| first(&mut Tokenizer::for_json(t).map(|r| r.err().map(|e| e2(&e)))));
    for (name, e) in [("bytes", Some(b)), ("str", t)] {
        let Some(e) = e else { continue };
        let Some(e) = e else { bail!("Tokenizer ({name}) reports no error but {want:?}: {}", show(s)) };
        at_end(&e, &want, s).map_err(|m| format!("Tokenizer ({name}): {m}: {}", show(s)))?;
        err_matches(e, &want, s).map_err(|m| format!("Tokenizer ({name}): {m}: {}", show(s)))?;
        cx.count("tokenizer_errors_checked", 1);
    }
    Ok(())
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    tokens(cx, s)?;
    one(cx, s, Cfg::DEFAULT)?;
    let c = super::c03::rot(cx.rng.below(480), s);
    one(cx, s, c)?;
    cx.case_bytes(s, false);
    Ok(())
}

/// Every configuration on short token sequences.
fn all_configs(cx: &mut Ctx, idx: u64) -> R {
    super::payloads::tokens(cx, idx, cx.env.amt(4, 5) as usize, |cx, s| {
        for c in CFGS {
            one(cx, s, c)?;
        }
        one(cx, s, Cfg { trailing: true, limit: Some(0), any_root: true })?;
        one(cx, s, Cfg { trailing: false, limit: Some(1), any_root: false })
    })
}

/// One violation planted in a valid document.
fn planted(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..50 {
        let mut r = cx.rng.clone();
        let mut s = crate::gen::DocGen::random(&mut r, cx.env).allow_b(true).doc(&mut r, cx.env);
        match r.below(5) {
            0 => s.truncate(r.below(s.len() + 1)),
            1 if !s.is_empty() => {
                let i = r.below(s.len());
                s.remove(i);
            }
            2 => {
                let i = r.below(s.len() + 1);
                s.insert(i, *r.pick(b"{}[],:\"\\/0159-+.eEtfnu \n\x00\x1f\x7f\x80\xc2\xff"));
            }
            3 if !s.is_empty() => {
                let i = r.below(s.len());
                s[i] = *r.pick(b"{}[],:\"\\/0159-+.eEtfnu \n\x00\x1f\x7f\x80\xc2\xff");
            }
            _ => {
                let f = r.pick(crate::gen::FRAGS).to_vec();
                let i = r.below(s.len() + 1);
                s.splice(i..i, f);
            }
        }
        cx.rng = r;
        cx.sample(|| show(&s));
        check(cx, &s)?;
    }
    Ok(())
}

/// First violations behind more than 4 GiB: reported as in a short payload of the same shape.
fn huge(cx: &mut Ctx, idx: u64) -> R {
    let n = LENS[idx as usize / 4];
    let (unit, head, tail): (&[u8], &[u8], &[u8]) = match idx % 4 {
        0 => (b" \n\t\r", b"[1,", b"tru]"),
        1 => (b"a", b"{\"", b"\xff\":1}"),
        2 => (b"7", b"[-", b".]"),
        _ => (b"a", b"[\"", b"aa"),
    };
    let Some(h) = Huge::new(n, unit, &[(0, head), (n - tail.len(), tail)]) else {
        cx.count("huge_unavailable", 1);
        return Ok(());
    };
    let s = h.bytes();
    let cut = n - 64;
    let short = [&s[..head.len()], &s[head.len() + cut..]].concat();
    tokens(cx, &short)?;
    one(cx, &short, Cfg::DEFAULT)?;
    cx.case(mix(n as u64 + idx), true);
    cx.count("errors_checked", 1);
    let what = format!("a payload of {n} bytes ending in {}", show(tail));
    let run = |s: &[u8]| match idx % 3 {
        0 => Parser::validate_json_bytes(s).err().map(|e| e2(&e)),
        1 => Parser::parse_json_bytes(s, Quiet).err().map(|e| e2(&e)),
        _ => Tokenizer::for_json_bytes(s).find_map(|t| t.err()).map(|e| e2(&e)),
    };
    let (Some(want), Some(got)) = (run(&short), run(s)) else { bail!("accepts {what}") };
    ensure!(got.0 == want.0, "error {:?} instead of {:?}: {what}", got.0, want.0);
    ensure!(got.1 == want.1 || got.1 == want.1 + cut, "error at offset {} though at {} when {cut} bytes are left out: {what}", got.1, want.1);
    cx.max("longest_payload", n as u64);
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C18",
    rule: "invalid payloads: token sequences over 12 tokens up to a bound (every configuration on the short ones), single-byte edits of small documents, number-like strings, string bodies and escapes, invalid variants of 40 size families, corpus with prefixes, valid documents with one planted violation, random bytes and mutations. A case is a payload and a configuration that rejects it. Oracle: the reference parser's first violation, its documented kinds and the range of offsets the property allows; checked on up to 12 entry points and the tokenizer.",
    stack: 0,
    workloads: payload_workloads![check; tok 5, 6; num 5, 6; fam 2_000, 30_000; rnd 1500, 60_000;
        Workload { name: "huge", total: |e| e.amt(4, 8), run: huge },
        Workload { name: "all-configurations", total: |_| (super::c01::TOKENS.len() * super::c01::TOKENS.len()) as u64, run: all_configs },
        Workload { name: "planted", total: |e| e.amt(1500, 60_000), run: planted },
    ],
};
