//! C19 No input makes the library panic, abort or hang.
//! The monitor is the panic hook, the driver's watch over signals and CPU time,
//! and a step bound on everything that iterates; results are judged elsewhere.
use super::c03::rot;
use super::c08;
use super::c16::Quiet;
use crate::common::*;
use crate::gen;
use crate::model::{self, Cfg};
use crate::rt::*;
use crate::ensure;
use justjson::doc::{Document, DocumentIter, GenericDocument, HeaplessDocument, Node, NodeCollection};
use justjson::parser::{JsonKind, ParseConfig, ParseDelegate, Parser, Tokenizer};
use justjson::{AnyStr, Entry, Error, ErrorKind, JsonNumber, JsonString, JsonStringInfo, Object, Value};
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Display, Write};
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Accepts `n` bytes, then fails; counts what it got.
struct Sink {
    left: usize,
    got: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.left {
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got += s.len();
        Ok(())
    }
}
fn sink() -> Sink {
    Sink { left: usize::MAX, got: 0 }
}

/// All formatting flags.
fn formats(x: &(impl Display + fmt::Debug)) {
    let mut w = sink();
    let _ = write!(w, "{x}{x:#}{x:7}{x:<9}{x:^3}{x:>4}{x:*^30}{x:.2}{x:08.1}{x:+}{x:?}{x:#?}{x:5?}{x:<8.3?}");
    black_box(w.got);
}
fn debugs(x: &impl fmt::Debug) {
    let mut w = sink();
    let _ = write!(w, "{x:?}{x:#?}");
    black_box(w.got);
}

pub fn error<E: fmt::Debug + Display>(e: &Error<E>, n: usize) -> R {
    let mut w = sink();
    let _ = write!(w, "{e}{e:#}{e:20}{e:.1}{e:?}{e:#?}{}{:?}{:9}", e.kind(), e.kind(), e.kind());
    ensure!(e.offset() <= n, "error offset {} outside the payload of {n} bytes", e.offset());
    let d: &dyn std::error::Error = e;
    let _ = black_box((d.source().is_some(), w.got));
    Ok(())
}

fn bounded<I: Iterator>(it: I, max: usize, what: &str) -> Result<usize, String> {
    let mut n = 0;
    for x in it {
        black_box(&x);
        n += 1;
        ensure!(n <= max, "{what} has not ended after {max} steps");
    }
    Ok(n)
}

fn chars(it: impl Iterator<Item = char> + Clone + Display, bytes: usize, r: &mut Rng, what: &str) -> R {
    bounded(it.clone(), bytes + 1, what)?;
    let n = r.below(12);
    let mut i = it.clone();
    for _ in 0..n {
        black_box(i.size_hint());
        black_box(i.next());
    }
    let mut w = sink();
    let _ = write!(w, "{i}{i:9}{i:.1}{i:#}");
    let _ = write!(Sink { left: r.below(8), got: 0 }, "{i}");
    black_box((i.clone().last(), i.clone().count(), i.clone().max(), i.clone().nth(r.below(9)), w.got));
    black_box((i.clone().collect::<String>(), i.clone().skip(r.below(4)).step_by(3).take(9).count()));
    for _ in 0..3 {
        black_box((i.next(), i.size_hint()));
    }
    let mut i = it;
    while i.next().is_some() {}
    for _ in 0..3 {
        black_box((i.next(), i.size_hint()));
    }
    Ok(())
}

pub fn string(j: &JsonString<'_>, r: &mut Rng) -> R {
    black_box((j.len(), j.is_empty(), j.decoded_len(), j.as_str().is_some(), j.as_json_str().is_some()));
    let bytes = 6 * j.len().max(j.decoded_len());
    chars(j.decoded(), bytes, r, "decoded()")?;
    chars(j.as_json(), bytes, r, "as_json()")?;
    let d = j.decode_if_needed();
    let e = j.escape_if_needed();
    black_box((d.len(), e.len(), d == e, d.partial_cmp(&e), d < *"x"));
    formats(j);
    debugs(&d);
    let mut h = DefaultHasher::new();
    j.hash(&mut h);
    d.hash(&mut h);
    black_box(h.finish());
    // and once round
    let a = JsonString::from(d.as_str());
    let b = JsonString::from(d.as_str().to_string());
    let c = j.clone();
    for x in [&a, &b, &c] {
        black_box((x == j, j == x, x.cmp(j), j.partial_cmp(x), x == d.as_str(), j.partial_cmp(e.as_str()), j == e.as_str()));
        black_box((x.len(), x.decoded_len(), x.to_string().len(), x.as_json().count()));
    }
    let v = Value::from(c);
    black_box(v.to_json().len());
    Ok(())
}

pub fn number(n: &JsonNumber<'_>) {
    black_box((n.as_u8(), n.as_u16(), n.as_u32(), n.as_u64(), n.as_u128(), n.as_usize()));
    black_box((n.as_i8(), n.as_i16(), n.as_i32(), n.as_i64(), n.as_i128(), n.as_isize(), n.as_f32(), n.as_f64()));
    black_box((n.parse::<bool>().ok(), n.parse::<char>().ok(), n.parse::<String>().ok(), n.parse::<std::num::NonZeroU8>().ok(), n.parse::<std::net::IpAddr>().ok()));
    debugs(n);
    black_box((n.source().len(), n == n, n.clone() == *n));
}

/// Every accessor of a value; index operators panic exactly when the lookup
/// fails.
pub fn accessors(v: &mut Value<'_>, r: &mut Rng) -> R {
    black_box((v.as_u8(), v.as_u16(), v.as_u32(), v.as_u64(), v.as_u128(), v.as_usize(), v.as_f32(), v.as_f64(), v.as_bool(), v.is_null()));
    black_box((v.as_i8(), v.as_i16(), v.as_i32(), v.as_i64(), v.as_i128(), v.as_isize(), v.as_str().is_some(), v.as_string().is_some(), v.as_number().is_some()));
    black_box((v.as_object().is_some(), v.as_array().is_some(), v.as_object_mut().is_some(), v.as_array_mut().is_some()));
    let n = v.as_array().map_or(0, |a| a.len());
    for i in [0, 1, n.wrapping_sub(1), n, n + 1, usize::MAX, r.below(n + 2)] {
        let a = v.get_index(i).is_some();
        let b = v.get_index_mut(i).is_some();
        let c = catch_unwind(AssertUnwindSafe(|| { black_box(&v[i]); })).is_ok();
        let d = catch_unwind(AssertUnwindSafe(|| { black_box(&mut v[i]); })).is_ok();
        crate::last_panic();
        ensure!(a == (i < n) && b == a && c == a && d == a, "index {i} of {n}: get_index {a}, get_index_mut {b}, [] {c}, []= {d}");
    }
    let mut keys: Vec<String> = vec!["".into(), "a".into(), "\\".into(), "\u{0}".into(), "\u{10ffff}".into()];
    if let Some(o) = v.as_object() {
        for _ in 0..3 {
            if !o.is_empty() {
                keys.push(o[r.below(o.len())].key.to_string());
            }
        }
    }
    for k in &keys {
        let a = v.get(k).is_some();
        let b = v.get_mut(k).is_some();
        let c = catch_unwind(AssertUnwindSafe(|| { black_box(&v[k.as_str()]); })).is_ok();
        let d = catch_unwind(AssertUnwindSafe(|| { black_box(&mut v[k.as_str()]); })).is_ok();
        crate::last_panic();
        ensure!(b == a && c == a && d == a, "key {k:?}: get {a}, get_mut {b}, [] {c}, []= {d}");
        if let Some(o) = v.as_object_mut() {
            black_box((o.get(k).is_some(), o.get_mut(k).is_some(), o.get_entry_mut(k).is_some()));
        }
    }
    Ok(())
}

pub fn value(v: &mut Value<'_>, r: &mut Rng) -> R {
    let size = {
        let mut w = sink();
        let _ = v.write_json_to(&mut w);
        w.got
    };
    let mut w = sink();
    let deep = std::cell::Cell::new(0usize);
    let strings = std::cell::Cell::new(0usize);
    {
        let v: &Value<'_> = v;
        let rr = std::cell::RefCell::new(&mut *r);
        let pick = |j: &JsonString<'_>| -> R {
            strings.set(strings.get() + 1);
            let mut r = rr.borrow_mut();
            if strings.get() <= 4 || r.chance(4, strings.get()) {
                string(j, &mut r)?;
            }
            Ok(())
        };
        walk(v, pick, |x, d| {
            deep.set(deep.get().max(d));
            match x {
                Value::String(j) => pick(j)?,
                Value::Number(n) => number(n),
                _ => {}
            }
            Ok(())
        })?;
    }
    let deep = deep.get();
    // output of pretty printing grows with depth; keep it in proportion
    if size.saturating_mul(deep) < 3_000_000 {
        let _ = write!(w, "{v}{v:#}{v:?}{v:9}{v:.1}");
        let _ = v.pretty_write_json_to(&mut w);
        let _ = v.pretty_write_json_to_custom("", "", &mut w);
        let _ = v.pretty_write_json_to_custom("\u{1f600}", "\r\n", &mut w);
        black_box((v.to_json().len(), v.to_json_pretty().len(), v.to_json_pretty_custom("\t", "\u{2028}").len()));
        let _ = write!(Sink { left: r.below(size + 1), got: 0 }, "{v:#}");
        if size * deep < 6_000 {
            let _ = write!(w, "{v:#?}");
        }
    }
    let _ = v.write_json_to(Sink { left: r.below(size + 1), got: 0 });
    let _ = v.pretty_write_json_to(Sink { left: r.below(size + 9), got: 0 });
    black_box(w.got);
    ensure!(*v == *v, "a value differs from itself");
    accessors(v, r)?;
    Ok(())
}

fn cursor(mut it: DocumentIter<'_, '_>, max: usize, r: &mut Rng) -> R {
    let all = bounded(it.clone(), max, "a document's cursor")?;
    let mut n = 0;
    let mode = r.below(4);
    loop {
        let more = match if mode < 3 { mode } else { r.below(3) } {
            0 => it.next().map(|n| drop(black_box(n))).is_some(),
            1 => it.next_value().map(|n| drop(black_box(n))).is_some(),
            _ => {
                it.skip_next_value();
                it.clone().next().is_some()
            }
        };
        n += 1;
        ensure!(n <= all + 2, "a cursor over {all} nodes has not ended after {n} operations");
        if !more {
            break;
        }
    }
    for _ in 0..2 {
        it.skip_next_value();
        black_box((it.next().is_some(), it.next_value().is_some(), it.size_hint()));
    }
    Ok(())
}

fn document<'a, B: NodeCollection<'a>>(d: GenericDocument<'a, B>, s: &[u8], r: &mut Rng) -> R
where
    GenericDocument<'a, B>: fmt::Debug + PartialEq,
{
    for _ in 0..2 {
        cursor(d.iter(), s.len() + 1, r)?;
        cursor((&d).into_iter(), s.len() + 1, r)?;
    }
    if s.len() < 3_000 {
        debugs(&d);
    }
    ensure!(d == d, "a document differs from itself");
    let v = Value::from(d);
    black_box(value_kind(&v));
    Ok(())
}

fn tokens<const G: bool>(mut t: Tokenizer<'_, G>, n: usize, r: &mut Rng) -> R {
    let mut steps = 0;
    let mode = r.below(4);
    loop {
        if mode == 0 || (mode == 1 && r.chance(1, 2)) {
            black_box(t.peek());
        }
        let done = if mode == 2 && r.chance(1, 2) {
            match t.next_or_eof() {
                Ok(x) => {
                    debugs(&x);
                    false
                }
                Err(e) => {
                    error(&e, n)?;
                    *e.kind() == ErrorKind::UnexpectedEof && t.peek().is_none()
                }
            }
        } else {
            match t.next() {
                None => true,
                Some(Ok(x)) => {
                    black_box(x);
                    false
                }
                Some(Err(e)) => {
                    error(&e, n)?;
                    false
                }
            }
        };
        ensure!(t.offset() <= n, "tokenizer offset {} outside the payload of {n} bytes", t.offset());
        steps += 1;
        if done {
            break;
        }
        ensure!(steps <= n + 3, "a tokenizer over {n} bytes has not ended after {steps} tokens");
    }
    for _ in 0..3 {
        black_box((t.peek(), t.next().is_some(), t.next_or_eof().is_ok(), t.offset(), t.size_hint()));
    }
    debugs(&JsonStringInfo::new(true, n));
    Ok(())
}

/// Fails at its `n`-th callback.
struct Fail(usize);
#[derive(Debug, Clone, PartialEq, Eq)]
struct Stop;
impl Display for Stop {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("stop")
    }
}
impl Fail {
    fn tick<T>(&mut self, t: T) -> Result<T, Stop> {
        if self.0 == 0 {
            return Err(Stop);
        }
        self.0 -= 1;
        Ok(t)
    }
}
impl<'a> ParseDelegate<'a> for Fail {
    type Value = JsonKind;
    type Object = usize;
    type Array = usize;
    type Key = ();
    type Error = Stop;
    fn null(&mut self) -> Result<JsonKind, Stop> {
        self.tick(JsonKind::Null)
    }
    fn boolean(&mut self, _: bool) -> Result<JsonKind, Stop> {
        self.tick(JsonKind::Boolean)
    }
    fn number(&mut self, _: JsonNumber<'a>) -> Result<JsonKind, Stop> {
        self.tick(JsonKind::Number)
    }
    fn string(&mut self, _: JsonString<'a>) -> Result<JsonKind, Stop> {
        self.tick(JsonKind::String)
    }
    fn begin_object(&mut self) -> Result<usize, Stop> {
        self.tick(0)
    }
    fn object_key(&mut self, _: &mut usize, _: JsonString<'a>) -> Result<(), Stop> {
        self.tick(())
    }
    fn object_value(&mut self, o: &mut usize, _: (), _: JsonKind) -> Result<(), Stop> {
        *o += 1;
        self.tick(())
    }
    fn object_is_empty(&self, o: &usize) -> bool {
        *o == 0
    }
    fn end_object(&mut self, _: usize) -> Result<JsonKind, Stop> {
        self.tick(JsonKind::Object)
    }
    fn begin_array(&mut self) -> Result<usize, Stop> {
        self.tick(0)
    }
    fn array_value(&mut self, o: &mut usize, _: JsonKind) -> Result<(), Stop> {
        *o += 1;
        self.tick(())
    }
    fn array_is_empty(&self, o: &usize) -> bool {
        *o == 0
    }
    fn end_array(&mut self, _: usize) -> Result<JsonKind, Stop> {
        self.tick(JsonKind::Array)
    }
    fn kind_of(&self, v: &JsonKind) -> JsonKind {
        *v
    }
}

/// Everything that can be done with a payload under one configuration.
pub fn all(s: &[u8], p: ParseConfig, r: &mut Rng) -> R {
    macro_rules! errs {
        ($e:expr) => {
            match $e {
                Ok(x) => Some(x),
                Err(e) => {
                    error(&e, s.len())?;
                    black_box((e == e, e.kind().clone() == *e.kind()));
                    None
                }
            }
        };
    }
    errs!(Parser::validate_json_bytes_with_config(s, p));
    let t = as_str(s);
    let mut both = vec![errs!(Value::from_json_bytes_with_config(s, p))];
    errs!(Parser::parse_json_bytes_with_config(s, p, Quiet));
    match Parser::parse_json_bytes_with_config(s, p, Fail(r.below(s.len() + 2))) {
        Ok(k) => drop(black_box(k)),
        Err(e) => error(&e, s.len())?,
    }
    if let Some(t) = t {
        errs!(Parser::validate_json_with_config(t, p));
        both.push(errs!(Value::from_json_with_config(t, p)));
        match Parser::parse_json_with_config(t, p, Fail(r.below(s.len() + 2))) {
            Ok(k) => drop(black_box(k)),
            Err(e) => error(&e, s.len())?,
        }
        if let Some(d) = errs!(Document::from_json_with_config(t, p)) {
            document(d, s, r)?;
        }
        if let Some(d) = errs!(HeaplessDocument::<7>::from_json_with_config(t, p)) {
            document(d, s, r)?;
        }
    }
    for v in both.iter_mut().flatten() {
        value(v, r)?;
    }
    if both.len() == 2 {
        ensure!(both[0] == both[1], "parsing str and bytes gives different values");
    }
    if let Some(d) = errs!(Document::from_json_bytes_with_config(s, p)) {
        document(d, s, r)?;
    }
    errs!(HeaplessDocument::<0>::from_json_bytes_with_config(s, p));
    if let Some(d) = errs!(HeaplessDocument::<3>::from_json_bytes_with_config(s, p)) {
        document(d, s, r)?;
    }
    if let Some(d) = errs!(HeaplessDocument::<40>::from_json_bytes_with_config(s, p)) {
        document(d, s, r)?;
    }
    Ok(())
}

fn lone(s: &[u8], r: &mut Rng) -> R {
    for _ in 0..2 {
        tokens(Tokenizer::for_json_bytes(s), s.len(), r)?;
        if let Some(t) = as_str(s) {
            tokens(Tokenizer::for_json(t), s.len(), r)?;
        }
    }
    let Some(t) = as_str(s) else { return Ok(()) };
    match JsonString::from_json(t) {
        Ok(j) => string(&j, r)?,
        Err(e) => error(&e, s.len())?,
    }
    match JsonNumber::from_json(t) {
        Ok(n) => number(&n),
        Err(e) => error(&e, s.len())?,
    }
    let j = JsonString::from(t);
    string(&j, r)?;
    let j = JsonString::from(t.to_string());
    string(&j, r)?;
    let a = AnyStr::from(t);
    debugs(&a);
    black_box((a.clone() == a, a == *t));
    Ok(())
}

/// Recursion of the operations on a tree is on the native stack, so with the
/// limit off only modest depths are in scope.
const DEEP: usize = 1000;

fn depth_of(s: &[u8]) -> usize {
    // an over-estimate: every opening bracket
    s.iter().filter(|b| matches!(b, b'[' | b'{')).count()
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let mut r = cx.rng.clone();
    let w = |e: String| format!("{e}: {}", show(s));
    all(s, ParseConfig::default(), &mut r).map_err(w)?;
    let c = rot(r.below(480), s);
    let c = if c.limit.is_none() && depth_of(s) > DEEP { Cfg { limit: Some(DEEP), ..c } } else { c };
    all(s, pcfg(c), &mut r).map_err(|e| format!("{e} (under {c:?}): {}", show(s)))?;
    lone(s, &mut r).map_err(w)?;
    cx.rng = r;
    cx.case_bytes(s, true);
    cx.count("configurations_run", 2);
    Ok(())
}

/// All of `check` on one payload in sixteen (quick), the parsing alone on the
/// others.
fn thinned(cx: &mut Ctx, s: &[u8]) -> R {
    if hash64(s) % cx.env.amt(16, 3) == cx.env.seed % cx.env.amt(16, 3) {
        return check(cx, s);
    }
    if let Err(e) = Value::from_json_bytes(s) {
        error(&e, s.len()).map_err(|e| format!("{e}: {}", show(s)))?;
    }
    cx.case_bytes(s, true);
    Ok(())
}

/// Lighter: the entry points and the lone-string operations.
fn light(cx: &mut Ctx, s: &[u8]) -> R {
    let mut r = cx.rng.clone();
    lone(s, &mut r).map_err(|e| format!("{e}: {}", show(s)))?;
    cx.rng = r;
    cx.case_bytes(s, true);
    Ok(())
}

/// On a thread with the default 2 MiB stack, and default settings, no nesting
/// overflows.
fn nesting(cx: &mut Ctx, idx: u64) -> R {
    const OPEN: [&str; 6] = ["[", "{\"a\":", "[{\"\":", " [ ", "[1,", "{\"a\":1,\"b\":"];
    const CLOSE: [&str; 6] = ["]", "}", "}]", " ] ", "]", "}"];
    let k = (idx % 6) as usize;
    let n = [1, 10, 63, 64, 65, 126, 127, 128, 129, 130, 200, 256, 1000, 10_000, 100_000, 1_000_000][(idx / 6) as usize];
    for closed in [true, false] {
        let mut s = OPEN[k].repeat(n);
        s.push_str("0");
        if closed {
            s.push_str(&CLOSE[k].repeat(n));
        }
        let seed = cx.rng.next();
        let s2 = s.clone();
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn(move || {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let mut r = Rng::new(seed);
                    all(s2.as_bytes(), ParseConfig::default(), &mut r)?;
                    all(s2.as_bytes(), ParseConfig::default().allowing_trailing_commas(), &mut r)
                }));
                match r {
                    Ok(x) => x,
                    Err(_) => Err(format!("panic: {:?}", crate::last_panic())),
                }
            })
            .map_err(|e| e.to_string())?;
        h.join().map_err(|_| "thread died".to_string())?.map_err(|e| format!("{e}: {} x {n}", OPEN[k]))?;
        cx.case_bytes(s.as_bytes(), true);
        cx.max("deepest", n as u64);
    }
    Ok(())
}

/// Every char, alone and with neighbours, as a Rust string and as JSON.
fn every_char(cx: &mut Ctx, idx: u64) -> R {
    let mut r = cx.rng.clone();
    for c in (idx * 4352..(idx + 1) * 4352).filter_map(|c| char::from_u32(c as u32)) {
        let mut b = [0; 4];
        let t: &str = c.encode_utf8(&mut b);
        let all = (c as u32) < 0x900 || cx.env.tier == Tier::Thorough;
        for (i, s) in [t.to_string(), format!("a{t}\n{t}"), format!("\"{t}\""), format!("\"\\n{t}\\u00e9{t}\"")].into_iter().enumerate() {
            if !all && i % 4 != (c as usize / 7) % 4 {
                continue;
            }
            lone(s.as_bytes(), &mut r).map_err(|e| format!("{e}: {}", show(s.as_bytes())))?;
        }
        cx.case(c as u64, true);
    }
    cx.rng = r;
    Ok(())
}

/// Random histories of edits on built and parsed values.
fn histories(cx: &mut Ctx, _: u64) -> R {
    let mut r = cx.rng.clone();
    for _ in 0..10 {
        let mut budget = 30;
        let m = c08::mv(&mut r, cx.env, 4, &mut budget);
        let mut v = super::c10::build(&mut r, &m);
        let src: Vec<String> = (0..4).map(|_| String::from_utf8_lossy(&gen::valid_doc(&mut r, cx.env)).into_owned()).collect();
        let mut log = String::new();
        for _ in 0..r.range(1, 25) {
            // a random place in the tree
            let mut at: &mut Value<'_> = &mut v;
            for _ in 0..r.below(5) {
                let n = match at {
                    Value::Array(a) => a.len(),
                    Value::Object(o) => o.len(),
                    _ => 0,
                };
                if n == 0 {
                    break;
                }
                let i = r.below(n);
                at = match at {
                    Value::Array(a) => &mut a[i],
                    Value::Object(o) => &mut o[i].value,
                    x => x,
                };
            }
            let fresh = match r.below(6) {
                0 => Value::Null,
                1 => Value::from(gen::text(&mut r, cx.env, 9)),
                2 => Value::Array(vec![]),
                3 => Value::Object(Object::with_capacity(r.below(9))),
                _ => {
                    let t = &src[r.below(4)];
                    Value::from_json(super::c10::intern(t)).unwrap_or(Value::Null)
                }
            };
            let key = gen::text(&mut r, cx.env, 3);
            let op = r.below(14);
            log.push_str(&format!("{op} "));
            match (op, at) {
                (0, x) => *x = fresh,
                (1, Value::Array(a)) => a.push(fresh),
                (2, Value::Array(a)) => {
                    let i = r.below(a.len() + 1);
                    a.insert(i, fresh);
                }
                (3, Value::Array(a)) => drop(a.pop()),
                (4, Value::Array(a)) => a.reverse(),
                (5, Value::Array(a)) => a.retain(|x| x.is_null() || x.as_str().is_some()),
                (1, Value::Object(o)) => o.push(Entry::new(key, fresh)),
                (2, Value::Object(o)) => {
                    let i = r.below(o.len() + 1);
                    o.insert(i, Entry::new(key, fresh));
                }
                (3, Value::Object(o)) => drop(o.pop()),
                (4, Value::Object(o)) => o.sort_by(|a, b| a.key.cmp(&b.key)),
                (5, Value::Object(o)) => o.dedup_by(|a, b| a.key == b.key),
                (6, Value::Object(o)) => {
                    if let Some(x) = o.get_mut(&key) {
                        *x = fresh;
                    }
                }
                (7, Value::Object(o)) => {
                    if let Some(x) = o.get_entry_mut(&key) {
                        x.key = JsonString::from(key.clone());
                    }
                }
                (8, Value::Object(o)) => {
                    let es: Vec<Entry<'_>> = o.drain(..).collect();
                    *o = hinted(es.into_iter().map(|e| (e.key, e.value)), &mut r).collect();
                }
                (9, Value::Object(o)) => {
                    let es: Vec<Entry<'_>> = o.drain(..).rev().collect();
                    *o = hinted(es, &mut r).collect();
                }
                (10, x) => {
                    let t = x.to_json();
                    *x = Value::from(t);
                }
                (11, x) => drop(std::mem::replace(x, Value::from(true))),
                (12, x) => {
                    let y = std::mem::replace(x, Value::Null);
                    *x = Value::Array(vec![y, fresh]);
                }
                (13, x) => {
                    let y = std::mem::replace(x, Value::Null);
                    *x = Value::Object(hinted([(JsonString::from(key), y)], &mut r).collect());
                }
                _ => {}
            }
            if r.chance(1, 6) {
                value(&mut v, &mut r).map_err(|e| format!("{e} (history {log})"))?;
            }
        }
        value(&mut v, &mut r).map_err(|e| format!("{e} (history {log})"))?;
        let t = v.to_json();
        cx.case_bytes(t.as_bytes(), true);
        cx.count("edit_histories", 1);
        let deep = {
            let d = std::cell::Cell::new(0);
            walk(&v, |_| Ok(()), |_, n| {
                d.set(d.get().max(n));
                Ok(())
            })?;
            d.get()
        };
        if deep <= DEEP {
            all(t.as_bytes(), ParseConfig::default().without_recursion_limit(), &mut r).map_err(|e| format!("{e}: {}", show(t.as_bytes())))?;
        }
    }
    cx.rng = r;
    Ok(())
}

/// Values of every public type made without parsing.
fn constructed(cx: &mut Ctx, idx: u64) -> R {
    let mut r = cx.rng.clone();
    for k in [
        ErrorKind::<Stop>::Utf8,
        ErrorKind::UnexpectedEof,
        ErrorKind::ExpectedObjectKey,
        ErrorKind::ExpectedColon,
        ErrorKind::ExpectedValue,
        ErrorKind::ExpectedCommaOrEndOfObject,
        ErrorKind::ExpectedCommaOrEndOfArray,
        ErrorKind::IllegalTrailingComma,
        ErrorKind::Unexpected(idx as u8),
        ErrorKind::TrailingNonWhitespace,
        ErrorKind::ObjectKeysMustBeStrings,
        ErrorKind::ExpectedExponent,
        ErrorKind::ExpectedDecimalDigit,
        ErrorKind::ExpectedDigit,
        ErrorKind::InvalidHexadecimal,
        ErrorKind::InvalidEscape,
        ErrorKind::UnclosedObject,
        ErrorKind::UnclosedArray,
        ErrorKind::UnclosedString,
        ErrorKind::ExpectedString,
        ErrorKind::ExpectedNumber,
        ErrorKind::RecursionLimitReached,
        ErrorKind::PayloadsShouldBeObjectOrArray,
        ErrorKind::PaylodTooLarge,
        ErrorKind::ErrorFromDelegate(Stop),
    ] {
        let mut w = sink();
        let _ = write!(w, "{k}{k:?}{k:#?}{k:10}");
        ensure!(k.clone() == k, "error kind {k:?} differs from its clone");
        let d: &dyn std::error::Error = &k;
        black_box((d.source().is_some(), w.got));
        cx.case(hash64(format!("{k:?}").as_bytes()), true);
    }
    for b in [false, true] {
        for n in [0, 1, idx as usize, usize::MAX >> 1, (usize::MAX >> 1) - 1, usize::MAX] {
            let i = JsonStringInfo::new(b, n);
            debugs(&i);
            black_box((i.has_escapes(), i.expected_length(), i == JsonStringInfo::NONE));
        }
    }
    debugs(&ParseConfig::default());
    for n in [Node::Null, Node::Boolean(true), Node::Object { length: idx as usize }, Node::Array { length: usize::MAX }] {
        debugs(&n);
        black_box(n == n.clone());
    }
    let mut o = Object::with_capacity(r.below(5));
    black_box((o.get("a").is_some(), o.get_mut("").is_some(), o.get_entry_mut("x").is_some(), o.len()));
    let mut v = Value::Object(o);
    value(&mut v, &mut r)?;
    cx.rng = r;
    Ok(())
}

fn strings_only(cx: &mut Ctx, idx: u64) -> R {
    super::payloads::strings(cx, idx, |cx, s| {
        let mut r = cx.rng.clone();
        let w = |e: String| format!("{e}: {}", show(s));
        let x = model::Cfg::OPEN;
        let v = Value::from_json_bytes_with_config(s, pcfg(x));
        if let Ok(Value::String(j)) = &v {
            string(j, &mut r).map_err(w)?;
        }
        if let Err(e) = &v {
            error(e, s.len()).map_err(w)?;
        }
        cx.rng = r;
        cx.case_bytes(s, true);
        Ok(())
    })
}

pub const PROP: Prop = Prop {
    id: "C19",
    rule: "payloads: token sequences, numbers, string bodies, escapes, single edits, families, corpus, random; every char alone and among others; nesting up to a million on 2 MiB stacks with default settings; random edit histories. On each, under default and another configuration, every public operation, including formatting with flags, iteration past the end, tokenizing past errors, failing writers and delegates, lookups and their index operators. A case is the payload, text or history; every one is non-trivial (it could panic). Monitors: panic hook (overflow checks and debug assertions on), signals, CPU watchdog, step bounds on all iteration, allocation cap.",
    stack: 0,
    workloads: payload_workloads![check; thin thinned; tok 4, 5; num 4, 5; fam 2_000, 30_000; rnd 400, 40_000;
        Workload { name: "nesting", total: |_| 96, run: nesting },
        Workload { name: "every-char", total: |_| 256, run: every_char },
        Workload { name: "histories", total: |e| e.amt(1000, 60_000), run: histories },
        Workload { name: "constructed", total: |_| 256, run: constructed },
        Workload { name: "string-operations", total: |_| 256, run: strings_only },
        Workload { name: "tokens-light", total: |_| (super::c01::TOKENS.len() * super::c01::TOKENS.len()) as u64, run: |cx, i| super::payloads::tokens(cx, i, cx.env.amt(5, 6) as usize, light) },
    ],
};
