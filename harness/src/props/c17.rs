//! C17 The tokenizer splits any input into exactly its tokens.
use crate::common::*;
use crate::huge::{Huge, LENS};
use crate::model::{self, T};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::parser::{PeekableTokenKind as P, Token, Tokenizer};
use justjson::Error;

fn kind_of(t: T) -> P {
    match t {
        T::Null => P::Null,
        T::True => P::True,
        T::False => P::False,
        T::Str => P::String,
        T::Num => P::Number,
        T::LBrace => P::Object,
        T::RBrace => P::ObjectEnd,
        T::LBracket => P::Array,
        T::RBracket => P::ArrayEnd,
        T::Colon => P::Colon,
        T::Comma => P::Comma,
    }
}

fn peekable(t: &Token<'_>) -> P {
    match t {
        Token::Null => P::Null,
        Token::Bool(true) => P::True,
        Token::Bool(false) => P::False,
        Token::String(_) => P::String,
        Token::Number(_) => P::Number,
        Token::Object => P::Object,
        Token::ObjectEnd => P::ObjectEnd,
        Token::Array => P::Array,
        Token::ArrayEnd => P::ArrayEnd,
        Token::Colon => P::Colon,
        Token::Comma => P::Comma,
    }
}

fn token_is(t: &Token<'_>, m: model::Tok, s: &[u8]) -> R {
    match (t, m.t) {
        (Token::Null, T::Null)
        | (Token::Bool(true), T::True)
        | (Token::Bool(false), T::False)
        | (Token::Object, T::LBrace)
        | (Token::ObjectEnd, T::RBrace)
        | (Token::Array, T::LBracket)
        | (Token::ArrayEnd, T::RBracket)
        | (Token::Colon, T::Colon)
        | (Token::Comma, T::Comma) => Ok(()),
        (Token::String(j), T::Str) => {
            ensure!(j.as_json_str().is_some(), "a string token without its source");
            str_is_source(j, &s[m.start + 1..m.end - 1])
        }
        (Token::Number(n), T::Num) => {
            ensure!(n.source().as_bytes() == &s[m.start..m.end], "number token {} instead of {}", n.source(), show(&s[m.start..m.end]));
            Ok(())
        }
        _ => bail!("token {t:?} instead of {:?} at {}..{}", m.t, m.start, m.end),
    }
}

/// One observed step: the result of next (None at the end) and the offset.
#[derive(PartialEq, Debug)]
struct Step<'a> {
    r: Option<Result<Token<'a>, Error>>,
    offset: usize,
}

/// How a run interleaves peeks and the two ways of reading.
#[derive(Clone, Copy, Debug)]
enum Mode {
    Next,
    NextOrEof,
    PeekEach,
    Mixed,
}

fn run<'a, const G: bool>(cx: &mut Ctx, s: &'a [u8], mut t: Tokenizer<'a, G>, mode: Mode) -> Result<Vec<Step<'a>>, String> {
    let mut out: Vec<Step<'a>> = Vec::new();
    let mut r = cx.rng.clone();
    let mut well = true; // no malformed token so far
    let mut pos = 0; // end of the last well-formed token
    let mut prev = 0;
    let mut ends = 0;
    let (mut n_peeks, mut n_steps, mut n_recovered) = (0, 0, 0);
    if t.offset() != 0 {
        return Err(format!("a new tokenizer is at offset {}", t.offset()));
    }
    loop {
        let peeks = match mode {
            Mode::Next | Mode::NextOrEof => 0,
            Mode::PeekEach => 1,
            Mode::Mixed => r.below(4),
        };
        let ahead = if well { model::lex(s, pos) } else { Err(model::LexErr { kinds: vec![], start: 0, at: 0 }) };
        let mut first = None;
        for i in 0..peeks {
            let k = t.peek();
            n_peeks += 1;
            if i == 0 {
                first = Some(k);
            } else if first != Some(k) {
                return Err(format!("peeking again gives {k:?} after {first:?}"));
            }
            let o = t.offset();
            let p = model::skip_ws(s, pos.max(prev));
            if o < prev || (well && o > p) {
                return Err(format!("peeking moves the offset from {prev} to {o}"));
            }
            if well {
                match &ahead {
                    Ok(a) => {
                        if k != Some(kind_of(a.t)) {
                            return Err(format!("peek gives {k:?} before a {:?} at {}", a.t, a.start));
                        }
                    }
                    Err(e) => {
                        if k.is_none() != (e.start >= s.len()) {
                            return Err(format!("peek gives {k:?} at offset {pos} of {}", s.len()));
                        }
                    }
                }
            }
        }
        let use_next = match mode {
            Mode::NextOrEof => false,
            Mode::Mixed => r.chance(1, 2),
            _ => true,
        };
        let res = if use_next {
            t.next()
        } else {
            match t.next_or_eof() {
                // the end of the input is an error here and None there
                Err(e) if matches!(e.kind(), justjson::ErrorKind::UnexpectedEof) && model::skip_ws(s, prev) >= s.len() => {
                    if e.offset() > s.len() {
                        return Err(format!("next_or_eof reports offset {}", e.offset()));
                    }
                    None
                }
                x => Some(x),
            }
        };
        n_steps += 1;
        let o = t.offset();
        if o < prev || o > s.len() {
            return Err(format!("the offset goes from {prev} to {o}"));
        }
        prev = o;
        if well {
            match (&res, &ahead) {
                (None, Err(e)) if e.start >= s.len() => {}
                (Some(Ok(tok)), Ok(m)) => {
                    token_is(tok, *m, s).map_err(|e| format!("after offset {pos}: {e}"))?;
                    if o != m.end {
                        return Err(format!("the offset after the token at {}..{} is {o}", m.start, m.end));
                    }
                    pos = o;
                }
                (Some(Err(_)), Err(e)) if e.start < s.len() => well = false,
                (Some(Ok(tok)), Err(e)) => return Err(format!("token {tok:?} where the input is malformed at {} ({:?})", e.at, e.kinds)),
                (Some(Err(e)), Ok(m)) => return Err(format!("error {:?} for the well-formed {:?} at {}..{}", e2(e), m.t, m.start, m.end)),
                (None, _) => return Err(format!("the iteration ends at offset {o} of {}", s.len())),
                (Some(x), _) => return Err(format!("{x:?} at the end of the input")),
            }
        }
        if !well {
            // past an error the position is the tokenizer's own, but what it
            // peeks, reads and reports still belongs together
            if let Some(Ok(tok)) = &res {
                let n = match tok {
                    Token::Null | Token::Bool(true) => 4,
                    Token::Bool(false) => 5,
                    Token::String(j) => j.as_json_str().map_or(0, |j| j.as_str().len()) + 2,
                    Token::Number(n) => n.source().len(),
                    _ => 1,
                };
                let start = o.checked_sub(n).ok_or_else(|| format!("{tok:?} ends at offset {o}"))?;
                match model::lex(s, start) {
                    Ok(m) if m.start == start && m.end == o => token_is(tok, m, s).map_err(|e| format!("after an error, ending at {o}: {e}"))?,
                    x => return Err(format!("after an error: {tok:?} with the offset {o} afterwards, but at {start} there is {x:?}")),
                }
                n_recovered += 1;
            }
            match (first, &res) {
                (Some(None), Some(x)) => return Err(format!("after an error: peek gives nothing before {x:?}")),
                (Some(Some(k)), None) if use_next => return Err(format!("after an error: peek gives {k:?} before the end")),
                (Some(Some(k)), Some(Ok(tok))) if k != P::Unrecognized && k != peekable(tok) => return Err(format!("after an error: peek gives {k:?} before {tok:?}")),
                _ => {}
            }
        }
        match res {
            None => {
                ends += 1;
                if ends == 1 {
                    out.push(Step { r: None, offset: 0 });
                }
                if ends == 3 {
                    break;
                }
            }
            Some(x) => {
                if ends > 0 {
                    return Err(format!("{x:?} after the end"));
                }
                out.push(Step { r: Some(x), offset: o });
                if out.len() > s.len() {
                    return Err(format!("{} steps for {} bytes", out.len(), s.len()));
                }
            }
        }
    }
    cx.rng = r;
    cx.count("peeks", n_peeks);
    cx.count("tokens_after_errors", n_recovered);
    cx.count("steps", n_steps);
    Ok(out)
}

fn modes<'a, const G: bool>(cx: &mut Ctx, s: &'a [u8], new: impl Fn() -> Tokenizer<'a, G>, what: &str) -> R {
    let mut first: Option<Vec<Step<'a>>> = None;
    let all = [Mode::Next, Mode::Mixed, Mode::NextOrEof, Mode::PeekEach, Mode::Mixed];
    // the many tiny strings get two modes each
    let n = if s.len() <= 8 && s.first() == Some(&b'"') { 2 } else { 5 };
    for &m in &all[..n] {
        let w = |e: String| format!("{what}, {m:?}: {e}: {}", show(s));
        let t = run(cx, s, new(), m).map_err(w)?;
        match &first {
            None => first = Some(t),
            Some(f) => {
                if *f != t {
                    let at = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
                    bail!("{}", w(format!("step {at} is {:?} but plain iteration gives {:?}", t.get(at), f.get(at))));
                }
            }
        }
    }
    if let Some(f) = first {
        // as any iterator
        if s.len() > 8 || cx.rng.chance(1, 8) {
            let w = |e: String| format!("{what}: {e}: {}", show(s));
            let n = f.len() - 1;
            let (lo, hi) = new().size_hint();
            ensure!(lo <= n && hi.map_or(true, |h| h >= n), "{}", w(format!("the size hint is {lo} to {hi:?} for {n} steps")));
            ensure!(new().count() == n, "{}", w(format!("count() is not {n}")));
            ensure!(new().last().as_ref() == f.iter().rev().find_map(|x| x.r.as_ref()), "{}", w("last() is wrong".into()));
            let mut i = 0;
            let same = new().all(|x| {
                i += 1;
                f[i - 1].r.as_ref() == Some(&x)
            });
            ensure!(same && i == n, "{}", w("all() sees other steps".into()));
            let k = cx.rng.below(n + 2);
            let mut t = new();
            let got = t.nth(k);
            ensure!(got.as_ref() == f.get(k).and_then(|x| x.r.as_ref()), "{}", w(format!("nth({k}) gives {got:?}")));
            if k < n {
                ensure!(t.offset() == f[k].offset, "{}", w(format!("nth({k}) leaves the offset at {}", t.offset())));
                ensure!(t.next() == f[k + 1].r, "{}", w(format!("the step after nth({k}) is wrong")));
            }
            let good: Vec<_> = new().map_while(Result::ok).collect();
            ensure!(good.len() == f.iter().take_while(|x| matches!(x.r, Some(Ok(_)))).count(), "{}", w("another number of tokens before the first error".into()));
            cx.count("iterator_adaptors", 6);
        }
        cx.max("most_steps", f.len() as u64);
        let errs = f.iter().filter(|x| matches!(x.r, Some(Err(_)))).count();
        cx.count("errors", errs as u64);
        cx.case_bytes(s, f.len() > 1 || errs > 0);
    }
    Ok(())
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    modes(cx, s, || Tokenizer::for_json_bytes(s), "bytes")?;
    if let Some(t) = as_str(s) {
        modes(cx, s, || Tokenizer::for_json(t), "str")?;
    }
    Ok(())
}

/// Tokens in any order, without any grammar.
fn soups(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..50 {
        let mut r = cx.rng.clone();
        let mut s = crate::gen::soup(&mut r, cx.env);
        if r.chance(1, 2) {
            let t = crate::gen::soup(&mut r, cx.env);
            s.extend(t);
        }
        if r.chance(1, 4) {
            let d = crate::gen::valid_doc(&mut r, cx.env);
            s.extend(d);
        }
        cx.rng = r;
        cx.sample(|| show(&s));
        check(cx, &s)?;
    }
    Ok(())
}

/// Tokens behind, and of, more than 4 GiB.
fn huge(cx: &mut Ctx, idx: u64) -> R {
    let n = LENS[idx as usize / 3];
    let (unit, head, tail): (&[u8], &[u8], &[u8]) = match idx % 3 {
        0 => (b" \n\t\r", b"", b"[1.5,\"\\n\",x"),
        1 => (b"a", b"[\"", b"\",true , 2]"),
        _ => (b"7", b"[-", b", \"s\" ]"),
    };
    let Some(h) = Huge::new(n, unit, &[(0, head), (n - tail.len(), tail)]) else {
        cx.count("huge_unavailable", 1);
        return Ok(());
    };
    cx.case(mix(n as u64 + idx), true);
    let s = h.bytes();
    let at = n - tail.len();
    // kind, start and end of each token
    let want: &[(T, usize, usize)] = &match idx % 3 {
        0 => vec![(T::LBracket, at, at + 1), (T::Num, at + 1, at + 4), (T::Comma, at + 4, at + 5), (T::Str, at + 5, at + 9), (T::Comma, at + 9, at + 10)],
        1 => vec![(T::LBracket, 0, 1), (T::Str, 1, at + 1), (T::Comma, at + 1, at + 2), (T::True, at + 2, at + 6), (T::Comma, at + 7, at + 8), (T::Num, at + 9, at + 10), (T::RBracket, at + 10, n)],
        _ => vec![(T::LBracket, 0, 1), (T::Num, 1, at), (T::Comma, at, at + 1), (T::Str, at + 2, at + 5), (T::RBracket, at + 6, n)],
    };
    let what = format!("a payload of {n} bytes ({})", show(&s[at..]));
    fn go<const G: bool>(mut t: Tokenizer<'_, G>, s: &[u8], want: &[(T, usize, usize)], bad: bool) -> R {
        for (k, a, b) in want {
            let p = t.peek();
            ensure!(p == Some(kind_of(*k)), "peek gives {p:?} before a {k:?} at {a}");
            let Some(Ok(x)) = t.next() else { bail!("no {k:?} at {a}..{b}") };
            token_is(&x, model::Tok { t: *k, start: *a, end: *b }, s)?;
            ensure!(t.offset() == *b, "offset {} after a {k:?} at {a}..{b}", t.offset());
        }
        match t.next() {
            None if !bad => Ok(()),
            Some(Err(e)) if bad && e.offset() == s.len() - 1 => Ok(()),
            x => bail!("{x:?} at the end"),
        }
    }
    go(Tokenizer::for_json_bytes(s), s, want, idx % 3 == 0).map_err(|m| format!("bytes tokenizer: {m}: {what}"))?;
    if cx.env.tier == Tier::Thorough {
        go(Tokenizer::for_json(h.text()), s, want, idx % 3 == 0).map_err(|m| format!("str tokenizer: {m}: {what}"))?;
    }
    cx.max("longest_payload", n as u64);
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C17",
    rule: "byte strings: all token sequences over 12 tokens up to a bound, single-byte edits of small documents, number-like strings, string bodies and escapes, 40 size families with invalid variants, corpus with prefixes, random documents, mutations and token soups. A case is the input; non-trivial if it has a token or an error. Each input is tokenized five times (tiny strings twice) per kind of source (bytes, str): next, next_or_eof, a peek before every step, and two random interleavings; every step is compared with the reference lexer up to the first malformed token and with plain iteration to the end.",
    stack: 0,
    workloads: payload_workloads![check; tok 5, 6; num 4, 5; fam 20_000, 200_000; rnd 1500, 60_000;
        Workload { name: "huge", total: |e| e.amt(3, 6), run: huge },
        Workload { name: "soups", total: |e| e.amt(1500, 60_000), run: soups },
    ],
};
