//! C27 Only valid text is ever produced, without undefined behaviour.
//! Every str and char that leaves the library is looked at here, bytes first;
//! the same code is run natively with std's precondition checks, under
//! AddressSanitizer and under Miri (lib/c27.py).
use super::c03::{rot, CFGS};
use crate::common::*;
use crate::gen;
use crate::model;
use crate::rt::*;
use crate::ensure;
use justjson::doc::{Document, DocumentIter, GenericDocument, HeaplessDocument, Node, NodeCollection};
use justjson::parser::{JsonKind, ParseConfig, ParseDelegate, Parser, Token, Tokenizer};
use justjson::{AnyStr, Error, JsonNumber, JsonString, Value};
use std::fmt::{self, Display, Write};
use std::hint::black_box;

fn text(s: &str, what: &str) -> R {
    let b = black_box(s.as_bytes());
    ensure!(model::valid_utf8(b), "{what} is not valid UTF-8: {}", show(b));
    Ok(())
}
fn scalar(c: char, what: &str) -> R {
    let u = black_box(c as u32);
    ensure!(u < 0xd800 || (0xe000..=0x10ffff).contains(&u), "{what} is {u:#x}, which is no Unicode scalar value");
    Ok(())
}

/// Looks at each piece of what is written to it.
struct Eye(R, usize);
impl Write for Eye {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.1 += s.len();
        if self.0.is_ok() {
            self.0 = text(s, "a written piece");
        }
        Ok(())
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        self.1 += 1;
        if self.0.is_ok() {
            self.0 = scalar(c, "a written char");
        }
        Ok(())
    }
}
fn written(what: &str, f: impl FnOnce(&mut Eye) -> fmt::Result) -> Result<usize, String> {
    let mut e = Eye(Ok(()), 0);
    let _ = f(&mut e);
    e.0.map_err(|m| format!("{what}: {m}"))?;
    Ok(e.1)
}
fn shown(x: &(impl Display + fmt::Debug), what: &str) -> R {
    if cfg!(miri) {
        // formatting is slow there
        return written(what, |w| write!(w, "{x}")).map(|_| ());
    }
    written(what, |w| write!(w, "{x}{x:#}{x:9}{x:.1}{x:?}"))?;
    Ok(())
}
pub fn error<E: Display + fmt::Debug>(e: &Error<E>) -> R {
    shown(e, "an error's text")?;
    shown(e.kind(), "an error kind's text")
}

fn chars(it: impl Iterator<Item = char> + Clone + Display, what: &str) -> R {
    let mut all = String::new();
    for c in it.clone() {
        scalar(c, what)?;
        all.push(c);
    }
    text(&all, what)?;
    // from the middle
    let mut i = it;
    for _ in 0..3 {
        written(what, |w| write!(w, "{i}"))?;
        match i.next() {
            Some(c) => scalar(c, what)?,
            None => break,
        }
    }
    Ok(())
}
pub fn string(j: &JsonString<'_>) -> R {
    if let Some(t) = j.as_str() {
        text(t, "as_str()")?;
    }
    if let Some(t) = j.as_json_str() {
        text(t.as_str(), "as_json_str()")?;
        text(AsRef::<str>::as_ref(t), "as_json_str()")?;
    }
    chars(j.decoded(), "decoded()")?;
    chars(j.as_json(), "as_json()")?;
    let d = j.decode_if_needed();
    text(&d, "decode_if_needed()")?;
    let e = j.escape_if_needed();
    text(&e, "escape_if_needed()")?;
    written("a string's Display", |w| write!(w, "{j}"))?;
    if !cfg!(miri) {
        written("a string's Display", |w| write!(w, "{j:12}{j:.2}"))?;
        written("a string's Debug", |w| write!(w, "{j:?}"))?;
    }
    text(&j.to_string(), "to_string()")?;
    black_box((j == j, j.cmp(j), *j == *d.as_str()));
    Ok(())
}
/// A text given to the library, there and back.
fn given(t: &str) -> R {
    for j in [JsonString::from(t), JsonString::from(t.to_string())] {
        string(&j)?;
        let e = j.escape_if_needed();
        let q = format!("\"{}\"", e.as_str());
        match JsonString::from_json(&q) {
            Ok(k) => string(&k)?,
            Err(e) => error(&e)?,
        }
        let v = Value::from(j.clone());
        text(&v.to_json(), "to_json()")?;
        text(&v.to_json_pretty_custom(t, t), "to_json_pretty_custom()")?;
        let o: justjson::Object<'_> = [(j, v)].into_iter().collect();
        text(&Value::from(o).to_json_pretty(), "to_json_pretty()")?;
    }
    let a = AnyStr::from(t);
    text(&a, "AnyStr")?;
    shown(&a.as_str(), "AnyStr")
}
pub fn number(n: &JsonNumber<'_>) -> R {
    text(n.source(), "a number's source")?;
    ensure!(n.source().is_ascii(), "a number's source is {}", show(n.source().as_bytes()));
    written("a number's Debug", |w| write!(w, "{n:?}"))?;
    text(&n.parse::<String>().unwrap_or_default(), "parse::<String>()")?;
    if let Ok(c) = n.parse::<char>() {
        scalar(c, "parse::<char>()")?;
    }
    black_box((n.as_f64(), n.as_u64(), n.as_i64(), n.as_i128(), n.as_f32()));
    Ok(())
}
pub fn value(v: &Value<'_>) -> R {
    let mut deep = 0;
    walk(v, string, |x, d| {
        deep = deep.max(d);
        if let Some(t) = x.as_str() {
            text(t, "Value::as_str()")?;
        }
        match x {
            Value::String(j) => string(j),
            Value::Number(n) => number(n),
            _ => Ok(()),
        }
    })?;
    let size = written("write_json_to", |w| v.write_json_to(w))?;
    text(&v.to_json(), "to_json()")?;
    if size * (deep + 1) < 300_000 {
        text(&v.to_json_pretty(), "to_json_pretty()")?;
        text(&v.to_json_pretty_custom("\u{20ac}", "\u{1f600}"), "to_json_pretty_custom()")?;
        written("pretty_write_json_to", |w| v.pretty_write_json_to(w))?;
        shown(v, "a value")?;
    }
    Ok(())
}
fn node(n: &Node<'_>) -> R {
    match n {
        Node::String(j) => string(j),
        Node::Number(n) => number(n),
        _ => Ok(()),
    }
}
fn cursor(mut it: DocumentIter<'_, '_>, r: &mut Rng) -> R {
    let mode = r.below(4);
    for _ in 0..100_000 {
        match if mode < 3 { mode } else { r.below(3) } {
            0 => match it.next() {
                Some(n) => node(&n)?,
                None => break,
            },
            1 => match it.next_value() {
                Some(v) => value(&v)?,
                None => break,
            },
            _ => {
                it.skip_next_value();
                if it.clone().next().is_none() {
                    break;
                }
            }
        }
    }
    if let Some(n) = it.next() {
        node(&n)?;
    }
    Ok(())
}
fn document<'a, B: NodeCollection<'a>>(d: GenericDocument<'a, B>, r: &mut Rng) -> R
where
    GenericDocument<'a, B>: fmt::Debug,
{
    for n in &d {
        node(&n)?;
    }
    cursor(d.iter(), r)?;
    value(&Value::from(d))
}
/// Tokens, in a random mixture of calls, going on after errors. Returns
/// whether any error was seen.
fn tokens<const G: bool>(mut t: Tokenizer<'_, G>, n: usize, r: &mut Rng) -> Result<bool, String> {
    let mode = r.below(4);
    let mut failed = false;
    let mut hold = vec![];
    for _ in 0..n + 4 {
        for _ in 0..if mode & 1 == 1 { r.below(3) } else { 0 } {
            black_box(t.peek());
        }
        let x = if mode >= 2 && r.chance(1, 2) {
            t.next_or_eof().map(Some)
        } else {
            t.next().transpose()
        };
        match x {
            Ok(Some(Token::String(j))) => {
                string(&j)?;
                if hold.len() < 8 {
                    hold.push(j);
                }
            }
            Ok(Some(Token::Number(k))) => number(&k)?,
            Ok(Some(x)) => {
                written("a token's Debug", |w| write!(w, "{x:?}"))?;
            }
            Ok(None) => break,
            Err(e) => {
                error(&e)?;
                failed = true;
            }
        }
    }
    // what was handed out before an error stays what it was
    for j in &hold {
        string(j)?;
    }
    Ok(failed)
}

/// A delegate that looks at what it is given.
struct Watch;
impl<'a> ParseDelegate<'a> for Watch {
    type Value = JsonKind;
    type Object = usize;
    type Array = usize;
    type Key = ();
    type Error = String;
    fn null(&mut self) -> Result<JsonKind, String> {
        Ok(JsonKind::Null)
    }
    fn boolean(&mut self, _: bool) -> Result<JsonKind, String> {
        Ok(JsonKind::Boolean)
    }
    fn number(&mut self, n: JsonNumber<'a>) -> Result<JsonKind, String> {
        number(&n)?;
        Ok(JsonKind::Number)
    }
    fn string(&mut self, j: JsonString<'a>) -> Result<JsonKind, String> {
        string(&j)?;
        Ok(JsonKind::String)
    }
    fn begin_object(&mut self) -> Result<usize, String> {
        Ok(0)
    }
    fn object_key(&mut self, _: &mut usize, j: JsonString<'a>) -> Result<(), String> {
        string(&j)
    }
    fn object_value(&mut self, o: &mut usize, _: (), _: JsonKind) -> Result<(), String> {
        *o += 1;
        Ok(())
    }
    fn object_is_empty(&self, o: &usize) -> bool {
        *o == 0
    }
    fn end_object(&mut self, _: usize) -> Result<JsonKind, String> {
        Ok(JsonKind::Object)
    }
    fn begin_array(&mut self) -> Result<usize, String> {
        Ok(0)
    }
    fn array_value(&mut self, o: &mut usize, _: JsonKind) -> Result<(), String> {
        *o += 1;
        Ok(())
    }
    fn array_is_empty(&self, o: &usize) -> bool {
        *o == 0
    }
    fn end_array(&mut self, _: usize) -> Result<JsonKind, String> {
        Ok(JsonKind::Array)
    }
    fn kind_of(&self, v: &JsonKind) -> JsonKind {
        *v
    }
}

/// The cheap half: the tokenizer and the value over the bytes.
fn narrow(s: &[u8], r: &mut Rng) -> R {
    let bad = !model::valid_utf8(s);
    let failed = tokens(Tokenizer::for_json_bytes(s), s.len(), r)?;
    ensure!(failed || !bad, "the tokenizer passes malformed UTF-8");
    match Value::from_json_bytes(s) {
        Ok(v) => {
            ensure!(!bad, "Value::from_json_bytes accepts malformed UTF-8");
            value(&v)?;
        }
        Err(e) => error(&e)?,
    }
    Ok(())
}

/// Every entry point under one configuration.
pub fn wide(s: &[u8], p: ParseConfig, r: &mut Rng) -> R {
    let bad = !model::valid_utf8(s);
    macro_rules! run {
        ($name:literal, $e:expr, $f:expr) => {
            match $e {
                Ok(x) => {
                    ensure!(!bad, concat!($name, " accepts malformed UTF-8"));
                    #[allow(clippy::redundant_closure_call)]
                    ($f)(x).map_err(|m: String| format!(concat!($name, ": {}"), m))?;
                }
                Err(e) => error(&e).map_err(|m| format!(concat!($name, ": {}"), m))?,
            }
        };
    }
    run!("validate_json_bytes", Parser::validate_json_bytes_with_config(s, p), |_| Ok(()));
    run!("Value bytes", Value::from_json_bytes_with_config(s, p), |v: Value<'_>| value(&v));
    run!("Document bytes", Document::from_json_bytes_with_config(s, p), |d| document(d, r));
    run!("HeaplessDocument bytes", HeaplessDocument::<24>::from_json_bytes_with_config(s, p), |d| document(d, r));
    match Parser::parse_json_bytes_with_config(s, p, Watch) {
        Err(e) => {
            if let justjson::ErrorKind::ErrorFromDelegate(m) = e.kind() {
                return Err(format!("a delegate was given: {m}"));
            }
            error(&e)?;
        }
        Ok(_) => ensure!(!bad, "a delegate's parse accepts malformed UTF-8"),
    }
    let failed = tokens(Tokenizer::for_json_bytes(s), s.len(), r)?;
    ensure!(failed || !bad, "the tokenizer passes malformed UTF-8");
    let Some(t) = as_str(s) else { return Ok(()) };
    run!("Value str", Value::from_json_with_config(t, p), |v: Value<'_>| value(&v));
    run!("Document str", Document::from_json_with_config(t, p), |d| document(d, r));
    run!("HeaplessDocument str", HeaplessDocument::<24>::from_json_with_config(t, p), |d| document(d, r));
    if let Err(e) = Parser::parse_json_with_config(t, p, Watch) {
        if let justjson::ErrorKind::ErrorFromDelegate(m) = e.kind() {
            return Err(format!("a delegate was given: {m}"));
        }
    }
    tokens(Tokenizer::for_json(t), t.len(), r)?;
    run!("JsonString", JsonString::from_json(t), |j: JsonString<'_>| string(&j));
    run!("JsonNumber", JsonNumber::from_json(t), |n: JsonNumber<'_>| number(&n));
    if t.len() < 400 && (!cfg!(miri) || r.chance(1, 3)) {
        given(t)?;
    }
    Ok(())
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let mut r = cx.rng.clone();
    let c = if r.chance(1, 2) { CFGS[0] } else { rot(r.below(480), s) };
    let c = if c.limit.is_none() { model::Cfg { limit: Some(400), ..c } } else { c };
    wide(s, pcfg(c), &mut r).map_err(|e| format!("{e} (under {c:?}): {}", show(s)))?;
    cx.rng = r;
    cx.case_bytes(s, s.iter().any(|b| *b >= 0x80 || *b == b'\\' || *b == b'"'));
    Ok(())
}
fn thin(cx: &mut Ctx, s: &[u8]) -> R {
    let one_in = cx.env.amt(12, 2);
    if hash64(s) % one_in == cx.env.seed % one_in {
        return check(cx, s);
    }
    quick(cx, s)
}
fn some(cx: &mut Ctx, s: &[u8]) -> R {
    if cx.env.tier == Tier::Quick && (hash64(s) ^ cx.env.seed) % 4 != 0 {
        return Ok(());
    }
    thin(cx, s)
}
fn quick(cx: &mut Ctx, s: &[u8]) -> R {
    let mut r = cx.rng.clone();
    narrow(s, &mut r).map_err(|e| format!("{e}: {}", show(s)))?;
    cx.rng = r;
    cx.case_bytes(s, s.iter().any(|b| *b >= 0x80 || *b == b'\\' || *b == b'"'));
    Ok(())
}

/// Byte after byte: all pairs, and longer sequences over the bounds of the
/// encoding's classes, inside a string.
const CLASS: &[u8] = &[0x22, 0x5c, 0x61, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xff];
fn sequences(cx: &mut Ctx, idx: u64) -> R {
    let a = idx as u8;
    const WRAP: &[(&[u8], &[u8])] = &[(b"\"", b"\""), (b"[\"\\n", b"\",1]"), (b"{\"k", b"\":\"v\"}"), (b"[\"\xc3\xa9", b"\xc3\xa9\"]"), (b"\"", b""), (b"\"\xf0\x9f\x98\x80z", b"z\""), (b"", b""), (b"[1", b"]")];
    let mut k = 0usize;
    let mut put = |cx: &mut Ctx, m: &[u8], all: bool| -> R {
        k += 1;
        for (i, (p, s)) in WRAP.iter().enumerate() {
            if all || i == k % WRAP.len() {
                quick(cx, &[p, m, s].concat())?;
            }
        }
        Ok(())
    };
    put(cx, &[a], true)?;
    for b in 0..=255u8 {
        put(cx, &[a, b], true)?;
        for c in CLASS {
            put(cx, &[a, b, *c], a >= 0xc0 && b >= 0x80)?;
            if a >= 0xe0 && b >= 0x70 {
                for d in CLASS {
                    put(cx, &[a, b, *c, *d], false)?;
                }
            }
        }
    }
    Ok(())
}

const BAD: &[&[u8]] = &[
    b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xc3(", b"\xe0\x9f\xbf", b"\xe2\x82", b"\xe2\x82(", b"\xed\xa0\x80", b"\xed\xbf\xbf",
    b"\xf0\x8f\xbf\xbf", b"\xf0\x9f\x98", b"\xf0\x9f\x98a", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff",
    b"\xed\xa0\x80\xed\xb0\x80",
];
/// One piece of a string body.
fn piece(r: &mut Rng, env: &Env, out: &mut Vec<u8>, bad: bool) {
    match r.below(if bad { 9 } else { 8 }) {
        0 => {
            let n = gen::len(r, env, 70);
            out.extend(std::iter::repeat(b'a').take(n));
        }
        1 => out.extend(gen::rand_char(r, env, 6).to_string().bytes()),
        2 => {
            for _ in 0..r.below(20) {
                out.extend(gen::rand_char(r, env, 6).to_string().bytes());
            }
        }
        3 => out.extend(gen::rand_char(r, env, 5).to_string().bytes()),
        4 => out.extend(*r.pick(&[&b"\\n"[..], b"\\\\", b"\\\"", b"\\/", b"\\t", b"\\f"])),
        5 => gen::push_u(out, gen::rand_char(r, env, 7), r, 2),
        6 => gen::push_u(out, gen::rand_char(r, env, 5), r, 2),
        7 => out.push(b'b'),
        _ => out.extend(*r.pick(BAD)),
    }
}
/// Strings of valid and malformed pieces, in payloads.
fn mixed(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..40 {
        let mut r = cx.rng.clone();
        let env = cx.env;
        let n_bad = *r.pick(&[0, 1, 1, 1, 2]);
        let total = r.range(1, 9);
        let at: Vec<usize> = (0..n_bad).map(|_| r.below(total)).collect();
        let mut b = vec![];
        for i in 0..total {
            if at.contains(&i) {
                b.extend(*r.pick(BAD));
            } else {
                piece(&mut r, env, &mut b, false);
            }
        }
        let key = r.chance(1, 4);
        let (p, s): (&[u8], &[u8]) = match r.below(7) {
            0 => (b"\"", b"\""),
            1 => (b"[\"", b"\"]"),
            2 => (b"[\"\xe2\x82\xac\", \"", b"\" ]"),
            3 => (b"[1,\"a\\u00e9\",\"", b"\",\"\\n\"]"),
            4 => (b"\"", b""),
            5 => (b"[[\"", b"\"],{\"\xc3\xa9\":\"\"}]"),
            _ => (b"{\"a\":{\"", b"\":\"b\"}}"),
        };
        let (p, s) = if key { (&b"{\""[..], &b"\":\"\xf0\x9f\x98\x80\"}"[..]) } else { (p, s) };
        let d = [p, &b, s].concat();
        cx.rng = r;
        cx.sample(|| show(&d));
        check(cx, &d)?;
        cx.count(if n_bad > 0 { "malformed_strings" } else { "wellformed_strings" }, 1);
    }
    Ok(())
}
/// Malformed bytes anywhere in a payload.
fn outside(cx: &mut Ctx, _: u64) -> R {
    let mut r = cx.rng.clone();
    let base = gen::DocGen::random(&mut r, cx.env).doc(&mut r, cx.env);
    cx.rng = r.clone();
    let stride = base.len() / 30 + 1;
    for i in (0..=base.len()).step_by(stride) {
        let m = *r.pick(BAD);
        for cut in [0, m.len(), 1] {
            let e = (i + cut).min(base.len());
            let d = [&base[..i], m, &base[e..]].concat();
            thin(cx, &d)?;
        }
        // a cut in the middle of whatever is there
        thin(cx, &base[..i])?;
    }
    cx.sample(|| show(&base));
    Ok(())
}
/// All \u escapes, and surrogate pairs.
fn escapes(cx: &mut Ctx, idx: u64) -> R {
    let hi = idx as u32;
    for lo in 0..256u32 {
        let c = hi << 8 | lo;
        quick(cx, format!("\"\\u{c:04x}\"").as_bytes())?;
        if !(0xd800..0xdc00).contains(&c) {
            continue;
        }
        let step = cx.env.amt(37, 1) as usize;
        for d in (0xdc00u32..=0xdfff).filter(|d| matches!(d, 0xdc00 | 0xdfff) || (*d as usize + c as usize) % step == 0).chain([0, 0x41, 0xd7ff, 0xd800, 0xdbff, 0xe000, 0xffff]) {
            quick(cx, format!("[\"\\u{c:04x}\\u{d:04X}\"]").as_bytes())?;
        }
        for t in ["", "a", "\\", "\\n", "\\u", "\\u00", "\u{e9}", "\\\\u0041", "\\u{1}"] {
            quick(cx, format!("\"\\u{c:04x}{t}\"").as_bytes())?;
            quick(cx, format!("\"\\u{c:04x}{t}").as_bytes())?;
        }
    }
    Ok(())
}
fn every_char(cx: &mut Ctx, idx: u64) -> R {
    for c in (idx * 4352..(idx + 1) * 4352).filter_map(|c| char::from_u32(c as u32)) {
        let some = (c as u32) < 0x900 || cx.env.tier == Tier::Thorough || (c as u64 + cx.env.seed) % 16 == 0;
        if some {
            given(&format!("{c}"))?;
            given(&format!("a{c}\n{c}"))?;
        }
        cx.case(c as u64, true);
    }
    Ok(())
}
/// Larger payloads with everything in them.
fn large(cx: &mut Ctx, idx: u64) -> R {
    let mut r = cx.rng.clone();
    let env = cx.env;
    let n = *r.pick(&[100, 1000, 4000, 20_000]);
    let mut b = b"[\"".to_vec();
    while b.len() < n {
        piece(&mut r, env, &mut b, false);
        if r.chance(1, 6) {
            b.extend(*r.pick(&[&b"\",\""[..], b"\",0.5e3,\"", b"\",{\"\":\"", b"\",[\""]));
        }
    }
    b.extend(b"\"");
    if idx % 2 == 0 {
        b.extend(*r.pick(BAD));
    }
    cx.rng = r;
    cx.max("largest", b.len() as u64);
    check(cx, &b)?;
    // closed, if it can be
    let mut st = vec![];
    let mut inside = false;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\\' if inside => i += 1,
            b'"' => inside = !inside,
            b'[' if !inside => st.push(b']'),
            b'{' if !inside => st.push(b'}'),
            _ => {}
        }
        i += 1;
    }
    b.extend(st.iter().rev());
    check(cx, &b)?;
    cx.count("large_payloads", 2);
    Ok(())
}

/// Small payloads for the interpreters, one per call, all kinds in turn.
pub fn tiny(cx: &mut Ctx, idx: u64) -> R {
    const FIXED: &[&[u8]] = &[
        b"[\"\\ud800\\udc00\",\"\\uDBFF\\uDFFF\"]", b"\"\\ud83d\\ude00a\"", b"\"\\ud800\"", b"\"\\ud800\\u0041\"", b"\"\\udc00\"", b"\"\\ud800\\ud800\"",
        b"\"\\u0000\\uffff\"", b"\"\\ud7ff\\ue000\"", b"\"\xc3\xa9\"", b"\"\xe2\x82\xac\xf0\x9f\x98\x80\"", b"\"\xc3\xa9a\xff\"", b"\"\xed\xa0\x80\"",
        b"\"\xf4\x90\x80\x80\"", b"{\"\xc3\xa9\":\"\\n\"}", b"\"a\xc3", b"\xc3\xa9", b"[1\xc3]", b"-0.5e-3", b"\"\\\"\\\\\\/\\f\\n\\r\\t\"",
        b"[1,true,null,{\"a\":[]},\"\"]", b"", b"\"", b"\"\\", b"\"\\u", b"\"\\u00", b"\"\\ud800\\", b"\"\\ud800\\u", b"\"\\ud800\\udc", b"[", b"{\"a\":", b"1e", b"tru",
    ];
    let mut r = cx.rng.clone();
    let mut b = vec![];
    if let Some(f) = FIXED.get(idx as usize) {
        b.extend(*f);
    } else {
        b.extend(*r.pick(&[&b"\""[..], b"[\"", b"{\""]));
        let q = b[0];
        let n = b.len() + r.range(3, 20);
        let bad = r.chance(1, 3);
        while b.len() < n {
            piece(&mut r, cx.env, &mut b, bad);
            b.truncate(n + 12);
        }
        if r.chance(7, 8) {
            b.extend(match q {
                b'[' => &b"\"]"[..],
                b'{' => b"\":\"\xc3\xa9\"}",
                _ => b"\"",
            });
        }
    }
    wide(&b, ParseConfig::default(), &mut r).map_err(|e| format!("{e}: {}", show(&b)))?;
    cx.rng = r;
    cx.sample(|| show(&b));
    cx.case_bytes(&b, true);
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C27",
    rule: "payloads around the encoding: byte sequences over all pairs and class bounds in eight contexts, strings of valid and malformed pieces, malformed bytes anywhere in documents, all \\u escapes and sampled surrogate pairs with hostile continuations, every kind of payload of the other checks; every entry point, tokenizers driven past errors in mixed call orders, cursors in mixed call orders. A case is a payload, non-trivial if it has a string or a non-ASCII byte. Monitors: each str handed out, written or displayed is re-validated byte by byte, each char as a number; malformed bytes must be refused; std's unsafe-precondition checks are on; the same under AddressSanitizer and, for small payloads, Miri.",
    stack: 0,
    workloads: payload_workloads![check; thin some; tok 4, 5; num 4, 5; fam 1_000, 20_000; rnd 200, 20_000;
        Workload { name: "sequences", total: |_| 256, run: sequences },
        Workload { name: "mixed", total: |e| e.amt(1_000, 60_000), run: mixed },
        Workload { name: "outside", total: |e| e.amt(400, 60_000), run: outside },
        Workload { name: "all-escapes", total: |_| 256, run: escapes },
        Workload { name: "every-char", total: |_| 256, run: every_char },
        Workload { name: "large", total: |e| e.amt(300, 10_000), run: large },
        Workload { name: "tiny", total: |e| e.amt(400, 20_000), run: tiny },
    ],
};
