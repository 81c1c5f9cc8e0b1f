//! C20 Parsed data borrows from the source and allocation is minimal.
//! Monitors: addresses of every exposed slice, and the counting allocator.
use super::c03::rot;
use super::c08::Fnv;
use super::c16::Quiet;
use crate::common::*;
use crate::gen;
use crate::model::{self, MNode, Outcome, NK, T};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::{Document, DocumentIter, HeaplessDocument, Node};
use justjson::parser::{JsonKind, ParseDelegate, Parser, Token, Tokenizer};
use justjson::{AnyStr, Entry, JsonNumber, JsonString, Object, Value};
use std::convert::Infallible;
use std::fmt::{self, Write};
use std::hash::Hash;
use std::hint::black_box;

/// What `f` did to the heap: (result, allocations, live blocks, live bytes).
fn heap<T>(f: impl FnOnce() -> T) -> (T, u64, i64, i64) {
    let a = mem();
    let x = f();
    let b = mem();
    (x, b.allocs - a.allocs, b.live - a.live, b.live_bytes - a.live_bytes)
}
/// Runs `$e` and fails if it allocates.
macro_rules! none {
    ($what:expr, $e:expr) => {{
        let (x, n, _, _) = heap(|| $e);
        ensure!(n == 0, "{} makes {n} allocations", $what);
        x
    }};
}

/// A fixed buffer.
struct Fixed<'b> {
    buf: &'b mut [u8],
    at: usize,
}
impl fmt::Write for Fixed<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let e = self.at + s.len();
        if e > self.buf.len() {
            // wrap: the amount does not matter here
            self.at = 0;
            return Ok(());
        }
        self.buf[self.at..e].copy_from_slice(s.as_bytes());
        self.at = e;
        Ok(())
    }
}

fn slice_is(t: &str, s: &[u8], start: usize, end: usize, what: &str) -> R {
    ensure!(t.len() == end - start, "{what} at {start} has length {} instead of {}", t.len(), end - start);
    if !t.is_empty() {
        let at = (t.as_ptr() as usize).wrapping_sub(s.as_ptr() as usize);
        ensure!(at == start, "{what} at {start} is not the source's own slice (but {})", if at < s.len() { format!("at {at}") } else { "elsewhere".into() });
    }
    Ok(())
}
fn string_at(j: &JsonString<'_>, s: &[u8], start: usize, end: usize) -> R {
    let Some(a) = j.as_json_str() else { bail!("the string at {start} has no source") };
    ensure!(matches!(a, AnyStr::Borrowed(_)), "the string at {start} is owned");
    slice_is(a, s, start, end, "string")?;
    if let Some(t) = j.as_str() {
        slice_is(t, s, start, end, "as_str()")?;
    }
    Ok(())
}
fn number_at(n: &JsonNumber<'_>, s: &[u8], start: usize, end: usize) -> R {
    slice_is(n.source(), s, start, end, "number")
}

fn value_slices(v: &Value<'_>, s: &[u8], nodes: &[MNode]) -> R {
    let i = std::cell::Cell::new(0);
    let next = || {
        let k = i.get();
        i.set(k + 1);
        nodes.get(k).copied()
    };
    walk(
        v,
        |k| {
            let Some(n) = next() else { bail!("more keys than in the payload") };
            string_at(k, s, n.start, n.end)
        },
        |x, _| {
            let Some(n) = next() else { bail!("more values than in the payload") };
            match x {
                Value::String(j) => string_at(j, s, n.start, n.end),
                Value::Number(j) => number_at(j, s, n.start, n.end),
                _ => Ok(()),
            }
        },
    )
}
fn node_slices<'d, 'a>(it: DocumentIter<'d, 'a>, s: &[u8], nodes: &[MNode]) -> R {
    for (n, m) in it.zip(nodes) {
        match &n {
            Node::String(j) => string_at(j, s, m.start, m.end)?,
            Node::Number(j) => number_at(j, s, m.start, m.end)?,
            _ => {}
        }
    }
    Ok(())
}

/// Records where the strings and numbers it is given lie.
#[derive(Default)]
struct Where {
    got: Vec<(usize, usize)>,
}
macro_rules! where_scalar {
    ($($f:ident $t:ty;)*) => { $(fn $f(&mut self, _: $t) -> Result<JsonKind, Infallible> { Ok(JsonKind::Null) })* };
}
impl<'a> ParseDelegate<'a> for &mut Where {
    type Value = JsonKind;
    type Object = ();
    type Array = ();
    type Key = ();
    type Error = Infallible;
    fn null(&mut self) -> Result<JsonKind, Infallible> {
        Ok(JsonKind::Null)
    }
    where_scalar! { boolean bool; }
    fn number(&mut self, n: JsonNumber<'a>) -> Result<JsonKind, Infallible> {
        self.got.push((n.source().as_ptr() as usize, n.source().len()));
        Ok(JsonKind::Number)
    }
    fn string(&mut self, j: JsonString<'a>) -> Result<JsonKind, Infallible> {
        self.got.push(j.as_json_str().map_or((0, 0), |a| (a.as_ptr() as usize, a.len())));
        Ok(JsonKind::String)
    }
    fn begin_object(&mut self) -> Result<(), Infallible> {
        Ok(())
    }
    fn object_key(&mut self, _: &mut (), j: JsonString<'a>) -> Result<(), Infallible> {
        self.got.push(j.as_json_str().map_or((0, 0), |a| (a.as_ptr() as usize, a.len())));
        Ok(())
    }
    fn object_value(&mut self, _: &mut (), _: (), _: JsonKind) -> Result<(), Infallible> {
        Ok(())
    }
    fn object_is_empty(&self, _: &()) -> bool {
        false
    }
    fn end_object(&mut self, _: ()) -> Result<JsonKind, Infallible> {
        Ok(JsonKind::Object)
    }
    fn begin_array(&mut self) -> Result<(), Infallible> {
        Ok(())
    }
    fn array_value(&mut self, _: &mut (), _: JsonKind) -> Result<(), Infallible> {
        Ok(())
    }
    fn array_is_empty(&self, _: &()) -> bool {
        false
    }
    fn end_array(&mut self, _: ()) -> Result<JsonKind, Infallible> {
        Ok(JsonKind::Array)
    }
    fn kind_of(&self, v: &JsonKind) -> JsonKind {
        *v
    }
}

fn delegate(s: &[u8], o: &Outcome, c: model::Cfg) -> R {
    let mut w = Where::default();
    let ok = Parser::parse_json_bytes_with_config(s, pcfg(c), &mut w).is_ok();
    check_where(&w, s, o, ok)?;
    if let Some(t) = as_str(s) {
        let mut w = Where::default();
        let ok = Parser::parse_json_with_config(t, pcfg(c), &mut w).is_ok();
        check_where(&w, s, o, ok)?;
    }
    Ok(())
}
fn check_where(w: &Where, s: &[u8], o: &Outcome, ok: bool) -> R {
    let want: Vec<&MNode> = o.nodes.iter().filter(|n| matches!(n.k, NK::Str | NK::Num)).collect();
    if ok {
        ensure!(w.got.len() == want.len(), "a delegate got {} strings and numbers instead of {}", w.got.len(), want.len());
    }
    for (g, n) in w.got.iter().zip(want) {
        let at = g.0.wrapping_sub(s.as_ptr() as usize);
        ensure!((g.1 == 0 || at == n.start) && g.1 == n.end - n.start, "a delegate got a text that is not the source's slice {}..{}", n.start, n.end);
    }
    Ok(())
}

/// Reading a value in every way, allocating nothing.
fn inspect(v: &Value<'_>, w: &Value<'_>, buf: &mut [u8]) -> R {
    none!("== on values", black_box(v == w));
    let mut f = Fixed { buf, at: 0 };
    none!("write_json_to a fixed buffer", black_box(v.write_json_to(&mut f).is_ok()));
    none!("Display to a fixed buffer", black_box(write!(f, "{v}").is_ok()));
    Ok(())
}
fn pretty(v: &Value<'_>, buf: &mut [u8]) -> R {
    let mut f = Fixed { buf, at: 0 };
    none!("pretty_write_json_to a fixed buffer", black_box(v.pretty_write_json_to(&mut f).is_ok()));
    none!("pretty_write_json_to_custom a fixed buffer", black_box(v.pretty_write_json_to_custom("\t", "\r\n", &mut f).is_ok()));
    none!("{:#} to a fixed buffer", black_box(write!(f, "{v:#}").is_ok()));
    Ok(())
}
fn lookups(v: &Value<'_>, key: &str) -> R {
    none!("the accessors", {
        black_box((v.as_object().is_some(), v.as_array().is_some(), v.as_str(), v.as_string().is_some(), v.as_bool(), v.is_null(), v.as_number().is_some()));
        black_box((v.as_u64(), v.as_i128(), v.as_f32(), v.as_f64(), v.as_u8(), v.get_index(1).is_some()));
        black_box((v.get(key).is_some(), v.get("\\\"\u{e9}").is_some()));
    });
    Ok(())
}
pub fn string_ops(j: &JsonString<'_>, k: &JsonString<'_>, buf: &mut [u8]) -> R {
    none!("inspecting a string", black_box((j.len(), j.is_empty(), j.decoded_len(), j.as_str(), j.as_json_str().is_some())));
    none!("iterating a string", black_box((j.decoded().count(), j.as_json().count(), j.decoded().clone().last(), j.as_json().size_hint())));
    none!("comparing strings", black_box((j == k, k == j, j.cmp(k), j.partial_cmp(k), *j == "x", *j == *"y\n", j.partial_cmp("z"))));
    if let Some(t) = k.as_str() {
        none!("comparing with str", black_box((*j == *t, j.partial_cmp(t), j.partial_cmp(&t))));
    }
    none!("hashing a string", {
        let mut h = Fnv::default();
        j.hash(&mut h);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        j.hash(&mut h);
        black_box(&h);
    });
    let mut f = Fixed { buf, at: 0 };
    none!("displaying a string to a fixed buffer", black_box(write!(f, "{j}{}{}", j.decoded(), j.as_json()).is_ok()));
    Ok(())
}

/// decode_if_needed and escape_if_needed of a borrowed string.
fn if_needed(j: &JsonString<'_>, body: &str) -> R {
    let ptr = body.as_ptr();
    let (d, n, live, _) = heap(|| j.decode_if_needed());
    if model::has_escape(body) {
        ensure!(live <= 1, "decode_if_needed leaves {live} heap blocks");
    } else {
        ensure!(n == 0, "decode_if_needed makes {n} allocations without escapes");
        ensure!(matches!(d, AnyStr::Borrowed(_)), "decode_if_needed gives an owned string without escapes");
        ensure!(d.is_empty() || d.as_ptr() == ptr, "decode_if_needed without escapes gives another text");
    }
    let (e, n, _, _) = heap(|| j.escape_if_needed());
    ensure!(n == 0, "escape_if_needed of a JSON string makes {n} allocations");
    ensure!(matches!(e, AnyStr::Borrowed(_)) && (e.is_empty() || e.as_ptr() == ptr), "escape_if_needed of a JSON string is not its source");
    let (c, n, _, _) = heap(|| j.clone());
    ensure!(n == 0, "cloning a borrowed string makes {n} allocations");
    ensure!(c.as_json_str().is_some_and(|c| c.is_empty() || c.as_ptr() == ptr), "the clone of a borrowed string is elsewhere");
    Ok(())
}

/// Parsing that fails, or whose result is dropped, gives everything back; the
/// result itself holds at most `max` blocks.
macro_rules! releases {
    ($what:expr, $max:expr, $parse:expr) => {{
        let a = mem();
        let r = $parse;
        let b = mem();
        let (live, ok) = (b.live - a.live, r.is_ok());
        drop(black_box(r));
        let c = mem();
        if ok {
            let max: Option<i64> = $max;
            if let Some(max) = max {
                ensure!(live <= max, "{} holds {live} heap blocks instead of at most {max}", $what);
            }
        } else {
            ensure!(live == 0, "{} fails and still holds {live} heap blocks", $what);
        }
        ensure!(c.live == a.live && c.live_bytes == a.live_bytes, "{}: {} blocks, {} bytes are left after dropping", $what, c.live - a.live, c.live_bytes - a.live_bytes);
        ok
    }};
}

fn tokens<const G: bool>(mk: impl Fn() -> Tokenizer<'static, G>, s: &[u8], what: &str) -> R {
    none!(what, {
        let mut t = mk();
        let mut n = 0usize;
        loop {
            black_box(t.peek());
            match t.next() {
                None => break,
                Some(Ok(x)) => drop(black_box(x.clone())),
                Some(Err(e)) => drop(black_box(e)),
            }
            n += 1;
            if n > s.len() + 2 {
                break;
            }
        }
        black_box(t.offset());
    });
    let mut pos = 0;
    let mut t = mk();
    while let Ok(m) = model::lex(s, pos) {
        pos = m.end;
        match t.next() {
            Some(Ok(Token::String(j))) if m.t == T::Str => string_at(&j, s, m.start + 1, m.end - 1).map_err(|e| format!("{what}: {e}"))?,
            Some(Ok(Token::Number(j))) if m.t == T::Num => number_at(&j, s, m.start, m.end).map_err(|e| format!("{what}: {e}"))?,
            Some(Ok(_)) => {}
            _ => break,
        }
    }
    Ok(())
}

fn one(cx: &mut Ctx, s: &[u8], c: model::Cfg) -> R {
    let o = model::parse(s, c);
    let p = pcfg(c);
    let full = o.nodes.iter().filter(|n| matches!(n.k, NK::Obj | NK::Arr) && n.len > 0).count() as i64;
    let t = as_str(s);
    // nothing at all
    none!("validate_json_bytes", black_box(Parser::validate_json_bytes_with_config(s, p).is_ok()));
    none!("parse_json_bytes with a delegate", black_box(Parser::parse_json_bytes_with_config(s, p, Quiet).is_ok()));
    none!("HeaplessDocument<20>::from_json_bytes", black_box(HeaplessDocument::<20>::from_json_bytes_with_config(s, p).is_ok()));
    if let Some(t) = t {
        none!("validate_json", black_box(Parser::validate_json_with_config(t, p).is_ok()));
        none!("parse_json with a delegate", black_box(Parser::parse_json_with_config(t, p, Quiet).is_ok()));
        none!("HeaplessDocument<20>::from_json", black_box(HeaplessDocument::<20>::from_json_with_config(t, p).is_ok()));
    }
    delegate(s, &o, c)?;
    // what results hold, and give back
    let ok = releases!("Value::from_json_bytes", Some(full), Value::from_json_bytes_with_config(s, p));
    releases!("Document::from_json_bytes", Some(1), Document::from_json_bytes_with_config(s, p));
    releases!("Value::from(Document)", Some(full), Document::from_json_bytes_with_config(s, p).map(Value::from));
    if let Some(t) = t {
        releases!("Value::from_json", Some(full), Value::from_json_with_config(t, p));
        releases!("Document::from_json", Some(1), Document::from_json_with_config(t, p));
        releases!("HeaplessDocument<20> to Value", Some(full), HeaplessDocument::<20>::from_json_with_config(t, p).map(Value::from));
    }
    cx.count(if ok { "accepted" } else { "rejected" }, 1);
    if !ok || !o.ok() {
        return Ok(());
    }
    // slices
    let (Ok(v), Ok(d)) = (Value::from_json_bytes_with_config(s, p), Document::from_json_bytes_with_config(s, p)) else { return Ok(()) };
    value_slices(&v, s, &o.nodes).map_err(|e| format!("Value: {e}"))?;
    node_slices(d.iter(), s, &o.nodes).map_err(|e| format!("Document: {e}"))?;
    if let Some(nv) = d.iter().next_value() {
        value_slices(&nv, s, &o.nodes).map_err(|e| format!("next_value: {e}"))?;
    }
    let big;
    if let Ok(h) = HeaplessDocument::<20>::from_json_bytes_with_config(s, p) {
        node_slices(h.iter(), s, &o.nodes).map_err(|e| format!("HeaplessDocument: {e}"))?;
        none!("iterating and skipping a fixed document", {
            let mut i = h.iter();
            black_box(i.next());
            i.skip_next_value();
            black_box(i.clone().count())
        });
        value_slices(&Value::from(h), s, &o.nodes).map_err(|e| format!("Value::from(HeaplessDocument): {e}"))?;
    }
    none!("iterating a document", black_box(d.iter().map(black_box).count()));
    none!("cloning a cursor", black_box(d.iter().clone().count()));
    none!("skipping in a document", {
        let mut i = d.iter();
        black_box(i.next());
        for _ in 0..8 {
            i.skip_next_value();
        }
        black_box(i.next())
    });
    none!("== on documents", black_box(d == d));
    let (_, _, live, _) = heap(|| {
        let mut i = d.iter();
        while i.next_value().is_some() {}
    });
    ensure!(live == 0, "dropped values of next_value leave {live} blocks");
    if let Some(t) = t {
        let (Ok(tv), Ok(td)) = (Value::from_json_with_config(t, p), Document::from_json_with_config(t, p)) else { return Ok(()) };
        value_slices(&tv, s, &o.nodes).map_err(|e| format!("Value from str: {e}"))?;
        node_slices(td.iter(), s, &o.nodes).map_err(|e| format!("Document from str: {e}"))?;
        value_slices(&Value::from(td), s, &o.nodes).map_err(|e| format!("Value::from(Document): {e}"))?;
        big = tv;
    } else {
        big = Value::from(d);
        value_slices(&big, s, &o.nodes).map_err(|e| format!("Value::from(Document): {e}"))?;
    }
    // reading
    let mut buf = [0u8; 4096];
    inspect(&v, &big, &mut buf)?;
    if o.nodes.len() * o.max_depth < 200_000 {
        pretty(&v, &mut buf)?;
    }
    let key = o.nodes.iter().find(|n| n.is_key).map_or("k", |n| std::str::from_utf8(&s[n.start..n.end]).unwrap_or("k"));
    lookups(&v, key)?;
    let st = std::cell::Cell::new(0usize);
    let prev: std::cell::RefCell<Option<&JsonString<'_>>> = None.into();
    let buf = std::cell::RefCell::new(buf);
    let ops = |j| -> R {
        st.set(st.get() + 1);
        if st.get() <= 6 {
            let p = prev.replace(Some(j)).unwrap_or(j);
            string_ops(j, p, &mut buf.borrow_mut()[..])?;
            if let Some(a) = j.as_json_str() {
                if_needed(j, a)?;
            }
        }
        Ok(())
    };
    let nums = std::cell::Cell::new(0usize);
    walk(&v, &ops, |x, d| {
        match x {
            Value::String(j) => ops(j)?,
            Value::Number(n) => {
                nums.set(nums.get() + 1);
                if nums.get() <= 6 {
                    none!("converting a number", {
                        black_box((n.source(), n.as_u64(), n.as_i8(), n.as_u128(), n.as_f32(), n.as_f64(), n.parse::<i32>().is_ok()));
                        black_box(n.clone() == *n)
                    });
                }
            }
            _ if d < 3 => lookups(x, "a")?,
            _ => {}
        }
        Ok(())
    })?;
    cx.count("strings_examined", st.get() as u64);
    Ok(())
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let w = |e: String| format!("{e}: {}", show(s));
    one(cx, s, model::Cfg::DEFAULT).map_err(w)?;
    let c = rot(cx.rng.below(480), s);
    one(cx, s, c).map_err(|e| format!("{e} (under {c:?}): {}", show(s)))?;
    // SAFETY: the tokenizers made from these references end before `s` does.
    let st: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(s) };
    tokens(|| Tokenizer::for_json_bytes(st), s, "Tokenizer (bytes)").map_err(w)?;
    if let Some(t) = as_str(st) {
        tokens(|| Tokenizer::for_json(t), s, "Tokenizer (str)").map_err(w)?;
        let j = none!("JsonString::from_json", JsonString::from_json(t));
        let n = none!("JsonNumber::from_json", JsonNumber::from_json(t));
        if let (Ok(j), Ok(m)) = (&j, model::lex(s, 0)) {
            string_at(j, s, m.start + 1, m.end - 1).map_err(|e| w(format!("JsonString::from_json: {e}")))?;
        }
        if let (Ok(j), Ok(m)) = (&n, model::lex(s, 0)) {
            number_at(j, s, m.start, m.end).map_err(|e| w(format!("JsonNumber::from_json: {e}")))?;
        }
        if let Err(e) = &j {
            let mut b = [0; 300];
            let mut f = Fixed { buf: &mut b, at: 0 };
            none!("displaying an error", black_box((write!(f, "{e}{e:?}").is_ok(), e == e)));
        }
    }
    cx.case_bytes(s, true);
    Ok(())
}

/// Rust strings become JSON strings and values without a copy.
fn rust_text(cx: &mut Ctx, t: &str) -> R {
    let w = |e: String| format!("{e}: {}", show(t.as_bytes()));
    let esc = t.chars().any(|c| c < ' ' || matches!(c, '"' | '\\' | '/'));
    let mut buf = [0u8; 512];
    let (j, n, _, _) = heap(|| JsonString::from(t));
    ensure!(n == 0, "{}", w(format!("JsonString::from(&str) makes {n} allocations")));
    let (k, n, _, _) = heap(|| Value::from(t));
    ensure!(n == 0, "{}", w(format!("Value::from(&str) makes {n} allocations")));
    let (a, n, _, _) = heap(|| AnyStr::from(t));
    ensure!(n == 0 && a.as_ptr() == t.as_ptr(), "{}", w("AnyStr::from(&str) copies".into()));
    for (x, how) in [(&j, "JsonString::from(&str)"), (k.as_string().unwrap_or(&j), "Value::from(&str)")] {
        ensure!(x.as_str().is_some_and(|y| y.as_ptr() == t.as_ptr() || t.is_empty()), "{}", w(format!("{how} does not expose the text it was made from")));
    }
    string_ops(&j, &j, &mut buf).map_err(w)?;
    let (d, n, _, _) = heap(|| j.decode_if_needed());
    ensure!(n == 0 && matches!(d, AnyStr::Borrowed(_)) && d.as_ptr() == t.as_ptr(), "{}", w("decode_if_needed of a borrowed Rust string copies it".into()));
    let (e, n, live, _) = heap(|| j.escape_if_needed());
    if !esc && model::valid_body(t) {
        ensure!(n == 0 && matches!(e, AnyStr::Borrowed(_)) && e.as_ptr() == t.as_ptr(), "{}", w("escape_if_needed copies a string without characters to escape".into()));
    } else {
        ensure!(live <= 1, "{}", w(format!("escape_if_needed leaves {live} blocks")));
    }
    // owned: exact and with room to spare
    for extra in [0, 1, 33] {
        let mut o = String::with_capacity(t.len() + extra);
        o.push_str(t);
        let (ptr, before) = (o.as_ptr(), mem());
        let how = cx.rng.below(3);
        let (x, n, live, bytes) = heap(|| match how {
            0 => Value::from(o),
            1 => Value::String(JsonString::from(o)),
            _ => Entry::new(o, true).key.into(),
        });
        ensure!(n == 0 && live == 0 && bytes == 0, "{}", w(format!("converting a String makes {n} allocations ({live} blocks, {bytes} bytes)")));
        let Some(s) = x.as_string() else { bail!("not a string value") };
        ensure!(s.as_str().is_some_and(|y| y.as_ptr() == ptr || t.is_empty()), "{}", w("a converted String's text is elsewhere".into()));
        string_ops(s, &j, &mut buf).map_err(w)?;
        drop(x);
        let after = mem();
        let had = i64::from(t.len() + extra > 0);
        ensure!(after.live == before.live - had && after.live_bytes == before.live_bytes - (t.len() + extra) as i64, "{}", w("dropping a converted String does not release it".into()));
    }
    cx.case(hash64(t.as_bytes()) ^ 5, true);
    Ok(())
}
fn texts(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..60 {
        let mut r = cx.rng.clone();
        let n = gen::len(&mut r, cx.env, 4000);
        let t = gen::text(&mut r, cx.env, n);
        cx.rng = r;
        rust_text(cx, &t)?;
    }
    Ok(())
}
fn every_char(cx: &mut Ctx, idx: u64) -> R {
    for c in (idx * 4352..(idx + 1) * 4352).filter_map(|c| char::from_u32(c as u32)) {
        if (c as u32) < 0x200 || c as u32 % 8 == cx.env.seed as u32 % 8 || cx.env.tier == Tier::Thorough {
            rust_text(cx, &c.to_string())?;
            rust_text(cx, &format!("a{c}"))?;
        }
    }
    Ok(())
}
/// Long texts and documents that are one large string or container.
fn sizes(cx: &mut Ctx, idx: u64) -> R {
    let ns = gen::sizes(cx.env, 70_000);
    let n = ns[idx as usize];
    for p in ["a", "\u{e9}", "\u{1f600}", "\n"] {
        rust_text(cx, &p.repeat(n / p.len()))?;
    }
    rust_text(cx, &format!("{}\"", "a".repeat(n)))
}

fn empties(cx: &mut Ctx, idx: u64) -> R {
    none!("Object::new", drop(black_box(Object::new())));
    none!("an empty value", drop(black_box((Value::Null, Value::from(true), Value::Array(vec![]), Value::from(Object::new()), Value::from("x")))));
    let n = idx as usize;
    let (o, a, live, _) = heap(|| Object::with_capacity(n));
    ensure!(a <= 1 && live == i64::from(n > 0), "Object::with_capacity({n}) makes {a} allocations");
    let mut o = o;
    let k = none!("filling an object within its capacity", {
        for _ in 0..n {
            o.push(Entry::new("k", Value::Null));
        }
        o.len()
    });
    cx.case(k as u64, true);
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C20",
    rule: "payloads: token sequences, numbers, string bodies, escapes, single edits, families, corpus, random, under default and another configuration; Rust texts: every char (one in 8 in quick beyond U+01FF), random, boundary sizes, with and without spare capacity. A case is the payload or text; every one is non-trivial. Monitors: the counting allocator around every operation, live blocks and bytes after success, failure and drop, and the address of every string, key and number against the model's positions.",
    stack: 0,
    workloads: payload_workloads![check; thin thinned; tok 4, 5; num 4, 5; fam 12_000, 100_000; rnd 700, 40_000;
        Workload { name: "texts", total: |e| e.amt(500, 30_000), run: texts },
        Workload { name: "every-char", total: |_| 256, run: every_char },
        Workload { name: "sizes", total: |e| gen::sizes(e, 70_000).len() as u64, run: sizes },
        Workload { name: "empties", total: |_| 200, run: empties },
        Workload { name: "valid", total: |e| e.amt(700, 40_000), run: |cx, _| super::payloads::valid(cx, check) },
    ],
};
fn thinned(cx: &mut Ctx, s: &[u8]) -> R {
    let k = cx.env.amt(32, 4);
    if hash64(s) % k == cx.env.seed % k {
        return check(cx, s);
    }
    Ok(())
}
