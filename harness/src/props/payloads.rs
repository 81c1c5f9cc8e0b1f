//! The standard payload workloads, shared by every property that quantifies
//! over payloads.
use super::c01;
use crate::gen;
use crate::rt::*;

pub fn tokens(cx: &mut Ctx, idx: u64, max: usize, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    c01::token_seqs(max, idx, |s| f(cx, s))
}
pub fn edits(cx: &mut Ctx, idx: u64, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    c01::single_edits(c01::SMALL_DOCS[idx as usize].as_bytes(), |s| f(cx, s))
}
pub fn numbers(cx: &mut Ctx, idx: u64, max: usize, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    c01::number_seqs(max, idx, |s| {
        f(cx, s)?;
        staged(&[b"[", s, b"]"].concat(), |s| f(cx, s))
    })
}
pub fn strings(cx: &mut Ctx, idx: u64, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    let env = cx.env;
    c01::string_bodies(env, idx, |s| f(cx, s))
}
pub fn escapes(cx: &mut Ctx, idx: u64, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    c01::escapes(idx, |s| f(cx, s))
}
pub fn families(cx: &mut Ctx, idx: u64, max: usize, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    let env = cx.env;
    c01::family_cases(env, idx, max, |s, _, n| {
        cx.max("largest_size", n as u64);
        f(cx, s)
    })
}
pub fn corpus(cx: &mut Ctx, idx: u64, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    let s = cx.env.dict.corpus[idx as usize].clone();
    staged(&s, |s| f(cx, s))?;
    if s.len() < 600 {
        for i in 0..s.len() {
            staged(&s[..i], |s| f(cx, s))?;
        }
    }
    Ok(())
}
pub fn random(cx: &mut Ctx, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    for _ in 0..50 {
        let mut r = cx.rng.clone();
        let s = gen::payload(&mut r, cx.env);
        cx.rng = r;
        cx.sample(|| show(&s));
        staged(&s, |s| f(cx, s))?;
    }
    Ok(())
}
pub fn valid(cx: &mut Ctx, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    for _ in 0..50 {
        let mut r = cx.rng.clone();
        let s = gen::DocGen::random(&mut r, cx.env).allow_b(true).doc(&mut r, cx.env);
        cx.rng = r;
        cx.sample(|| show(&s));
        staged(&s, |s| f(cx, s))?;
    }
    Ok(())
}
/// Payloads nested around and beyond the default limit, with siblings and
/// leaves at every level.
pub fn deep_payload(r: &mut Rng, depth: usize) -> Vec<u8> {
    const LEAVES: [&str; 8] = ["1", "\"a\"", "null", "[]", "{}", "\"\\n\"", "-0.5e1", "[{},[1]]"];
    let objects = r.below(5);
    let (mut open, mut close) = (Vec::new(), Vec::new());
    let busy = r.below(4);
    for _ in 0..depth {
        let leaf = |r: &mut Rng| LEAVES[r.below(LEAVES.len())];
        let mut tail = Vec::new();
        if r.below(4) < objects {
            open.push(b'{');
            if r.below(8) < busy {
                open.extend_from_slice(format!("\"k\":{},", leaf(r)).as_bytes());
            }
            open.extend_from_slice(if r.chance(1, 6) { b"\"\\u0061\":" } else { b"\"b\":" });
            if r.below(8) < busy {
                tail.extend_from_slice(format!(",\"b\":{}", leaf(r)).as_bytes());
            }
            tail.push(b'}');
        } else {
            open.push(b'[');
            if r.below(8) < busy {
                open.extend_from_slice(format!("{},", leaf(r)).as_bytes());
            }
            if r.below(8) < busy {
                tail.extend_from_slice(format!(",{}", leaf(r)).as_bytes());
            }
            tail.push(b']');
        }
        tail.reverse();
        close.extend_from_slice(&tail);
    }
    if open.ends_with(b":") || r.chance(1, 2) {
        open.extend_from_slice(LEAVES[r.below(3)].as_bytes());
    }
    close.reverse();
    // the tails were pushed innermost last, so reversing the whole restores both orders
    open.extend_from_slice(&close);
    open
}
pub fn deep(cx: &mut Ctx, idx: u64, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    const D: [usize; 16] = [100, 126, 127, 128, 129, 130, 160, 199, 200, 201, 255, 256, 257, 300, 512, 700];
    let mut r = cx.rng.clone();
    let s = deep_payload(&mut r, D[idx as usize % 16]);
    let mut t = s.clone();
    if r.chance(1, 2) {
        let at = r.below(t.len());
        t[at] = *r.pick(b"[]{},:\"1 \\");
    } else {
        t.truncate(r.below(s.len()));
    }
    cx.rng = r;
    cx.sample(|| show(&s));
    staged(&s, |s| f(cx, s))?;
    staged(&t, |t| f(cx, t))
}
/// Payloads grown for the code they reach, whole and with their ends cut off.
pub fn guided(cx: &mut Ctx, idx: u64, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    let s = cx.env.dict.guided[idx as usize].clone();
    cx.sample(|| show(&s));
    staged(&s, |s| f(cx, s))?;
    let mut t = s.clone();
    let mut r = cx.rng.clone();
    gen::mutate(&mut r, cx.env, &mut t);
    cx.rng = r;
    staged(&t, |t| f(cx, t))
}
/// Arrays and objects whose entry counts surround 2^8 and 2^16, closed, with a
/// trailing comma, and cut off.
pub fn wide(cx: &mut Ctx, idx: u64, f: fn(&mut Ctx, &[u8]) -> R) -> R {
    const N: [usize; 6] = [65536, 256, 65537, 255, 65535, 257];
    let n = N[idx as usize / 4];
    let (head, item, tail) = match idx % 4 {
        0 => ("[", "0,", "]"),
        1 => ("[1,{\"a\":[", "[],", "]},\"z\"]"),
        2 => ("{", "\"\":1,", "}"),
        _ => ("[{\"a\":null,\"b\":{", "\"k\":{},", "}},[2]]"),
    };
    let mut s = head.as_bytes().to_vec();
    for _ in 0..n {
        s.extend_from_slice(item.as_bytes());
    }
    s.extend_from_slice(tail.as_bytes());
    cx.max("most_entries", n as u64);
    staged(&s, |s| f(cx, s))?;
    s.remove(s.len() - tail.len() - 1);
    staged(&s, |s| f(cx, s))?;
    if cx.env.tier == Tier::Thorough {
        s.truncate(s.len() - tail.len());
        staged(&s, |s| f(cx, s))?;
    }
    Ok(())
}
/// sizes for families: (quick, thorough)
pub fn fam_total(e: &Env, q: usize, t: usize) -> u64 {
    c01::family_total(e, e.amt(q as u64, t as u64) as usize)
}
pub fn fam_max(e: &Env, q: usize, t: usize) -> usize {
    e.amt(q as u64, t as u64) as usize
}

/// Standard workloads for a payload checker `$f: fn(&mut Ctx, &[u8]) -> R`.
#[macro_export]
macro_rules! payload_workloads {
    ($f:path; tok $tq:expr, $tt:expr; num $nq:expr, $nt:expr; fam $fq:expr, $ft:expr; rnd $rq:expr, $rt:expr; $($extra:expr),* $(,)?) => {
        &[
            $($extra,)*
            $crate::rt::Workload { name: "token-sequences", total: |_| (super::c01::TOKENS.len() * super::c01::TOKENS.len()) as u64,
                run: |cx, i| super::payloads::tokens(cx, i, cx.env.amt($tq, $tt) as usize, $f) },
            $crate::rt::Workload { name: "numbers", total: |_| 64,
                run: |cx, i| super::payloads::numbers(cx, i, cx.env.amt($nq, $nt) as usize, $f) },
            $crate::rt::Workload { name: "string-bodies", total: |_| 256, run: |cx, i| super::payloads::strings(cx, i, $f) },
            $crate::rt::Workload { name: "escapes", total: |_| 256, run: |cx, i| super::payloads::escapes(cx, i, $f) },
            $crate::rt::Workload { name: "single-edits", total: |_| super::c01::SMALL_DOCS.len() as u64,
                run: |cx, i| super::payloads::edits(cx, i, $f) },
            $crate::rt::Workload { name: "families", total: |e| super::payloads::fam_total(e, $fq, $ft),
                run: |cx, i| { let m = super::payloads::fam_max(cx.env, $fq, $ft); super::payloads::families(cx, i, m, $f) } },
            $crate::rt::Workload { name: "entry-counts", total: |e| e.amt(16, 24), run: |cx, i| super::payloads::wide(cx, i, $f) },
            $crate::rt::Workload { name: "deep", total: |e| e.amt(96, 2400), run: |cx, i| super::payloads::deep(cx, i, $f) },
            $crate::rt::Workload { name: "guided", total: |e| e.dict.guided.len() as u64, run: |cx, i| super::payloads::guided(cx, i, $f) },
            $crate::rt::Workload { name: "corpus", total: |e| e.dict.corpus.len() as u64, run: |cx, i| super::payloads::corpus(cx, i, $f) },
            $crate::rt::Workload { name: "random", total: |e| e.amt($rq, $rt), run: |cx, _| super::payloads::random(cx, $f) },
        ]
    };
    ($f:path; thin $sf:path; tok $tq:expr, $tt:expr; num $nq:expr, $nt:expr; fam $fq:expr, $ft:expr; rnd $rq:expr, $rt:expr; $($extra:expr),* $(,)?) => {
        &[
            $($extra,)*
            $crate::rt::Workload { name: "token-sequences", total: |_| (super::c01::TOKENS.len() * super::c01::TOKENS.len()) as u64,
                run: |cx, i| super::payloads::tokens(cx, i, cx.env.amt($tq, $tt) as usize, $f) },
            $crate::rt::Workload { name: "numbers", total: |_| 64,
                run: |cx, i| super::payloads::numbers(cx, i, cx.env.amt($nq, $nt) as usize, $f) },
            $crate::rt::Workload { name: "string-bodies", total: |_| 256, run: |cx, i| super::payloads::strings(cx, i, $sf) },
            $crate::rt::Workload { name: "escapes", total: |_| 256, run: |cx, i| super::payloads::escapes(cx, i, $sf) },
            $crate::rt::Workload { name: "single-edits", total: |_| super::c01::SMALL_DOCS.len() as u64,
                run: |cx, i| super::payloads::edits(cx, i, $f) },
            $crate::rt::Workload { name: "families", total: |e| super::payloads::fam_total(e, $fq, $ft),
                run: |cx, i| { let m = super::payloads::fam_max(cx.env, $fq, $ft); super::payloads::families(cx, i, m, $f) } },
            $crate::rt::Workload { name: "entry-counts", total: |e| e.amt(16, 24), run: |cx, i| super::payloads::wide(cx, i, $f) },
            $crate::rt::Workload { name: "deep", total: |e| e.amt(96, 2400), run: |cx, i| super::payloads::deep(cx, i, $f) },
            $crate::rt::Workload { name: "guided", total: |e| e.dict.guided.len() as u64, run: |cx, i| super::payloads::guided(cx, i, $f) },
            $crate::rt::Workload { name: "corpus", total: |e| e.dict.corpus.len() as u64, run: |cx, i| super::payloads::corpus(cx, i, $f) },
            $crate::rt::Workload { name: "random", total: |e| e.amt($rq, $rt), run: |cx, _| super::payloads::random(cx, $f) },
        ]
    };
}
