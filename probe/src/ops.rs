//! Operations of justjson whose complete results are written to a log.
//! A log is a function of the payload alone, so logs of the same payload can be
//! compared across configurations, threads and histories.
use justjson::doc::{GenericDocument, Node, NodeCollection};
use justjson::parser::{JsonKind, ParseConfig, ParseDelegate, Parser, Tokenizer};
use justjson::{AnyStr, Error, ErrorKind, JsonNumber, JsonString, JsonStringInfo};
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec::Vec;
use core::fmt::{self, Debug, Display, Write};
use core::hash::{Hash, Hasher};

/// What the caller's own code does when the library calls it: storage, hashers,
/// iterators, conversions and, through `Log`, delegates and destinations.
#[cfg(not(target_family = "wasm"))]
mod hook {
    std::thread_local! {
        static HOOK: std::cell::Cell<Option<fn(u64)>> = const { std::cell::Cell::new(None) };
    }
    pub struct Restore(Option<fn(u64)>);
    impl Drop for Restore {
        fn drop(&mut self) {
            HOOK.set(self.0);
        }
    }
    /// In force until the result is dropped.
    pub fn set(f: Option<fn(u64)>) -> Restore {
        Restore(HOOK.replace(f))
    }
    pub fn call(at: u64) {
        if let Some(f) = HOOK.get() {
            f(at);
        }
    }
}
#[cfg(target_family = "wasm")]
mod hook {
    pub fn call(_: u64) {}
}
#[cfg(not(target_family = "wasm"))]
pub use hook::set as set_hook;

/// Text that the caller reads from a number's source.
struct Text(String);
impl core::str::FromStr for Text {
    type Err = ();
    fn from_str(s: &str) -> Result<Text, ()> {
        hook::call(s.len() as u64);
        Ok(Text(s.to_string()))
    }
}

pub struct Log {
    pub h: u64,
    pub n: u64,
    pub text: Option<String>,
    /// Called at every write: a place to switch threads in mid-operation.
    pub jitter: Option<fn(u64)>,
}
impl Log {
    pub fn new(keep: bool) -> Log {
        Log { h: 0xcbf2_9ce4_8422_2325, n: 0, text: keep.then(String::new), jitter: None }
    }
}
impl Write for Log {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &b in s.as_bytes() {
            self.h = (self.h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.n += 1;
        if let Some(j) = self.jitter {
            j(self.h);
        }
        if let Some(t) = &mut self.text {
            t.push_str(s);
        }
        Ok(())
    }
}
macro_rules! l {
    ($log:expr, $($x:tt)*) => { { let _ = writeln!($log, $($x)*); } };
}

/// Records what a hasher is fed, by value, independent of word size and byte order.
#[derive(Default)]
struct Rec(Vec<u64>);
impl Rec {
    fn put(&mut self, x: u64) {
        self.0.push(x);
        hook::call(x);
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend(b.iter().map(|b| *b as u64));
        hook::call(b.len() as u64);
    }
    fn write_u8(&mut self, i: u8) {
        self.put(1000 + i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.put(2000 + i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.put(3000 + i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.put(4000 ^ i)
    }
    fn write_u128(&mut self, i: u128) {
        self.put(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.put(5000 + i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.put(6000 + i as u64)
    }
}

pub const LIMITS: &[Option<usize>] = &[None, Some(0), Some(1), Some(3), Some(128)];
fn configs() -> impl Iterator<Item = ParseConfig> {
    (0..12).map(|i| {
        let mut c = if i % 4 < 2 { ParseConfig::default() } else { ParseConfig::strict() };
        if i % 2 == 1 {
            c = c.allowing_trailing_commas();
        }
        match i / 4 {
            0 => c,
            1 => c.with_recursion_limit(3),
            _ => c.without_recursion_limit().allowing_all_types_at_root(i % 4 < 2),
        }
    })
}

fn err<E: Debug + Display>(g: &mut Log, e: &Error<E>) {
    l!(g, "error {e:?} | {e} | {} | {}", e.kind(), e.offset());
}

fn chars(g: &mut Log, it: impl Iterator<Item = char> + Clone + Display) {
    l!(g, "{it}|{it:?}|{:?}", it.size_hint(), it = Show(&it));
    let mut i = it.clone();
    let mut n = 0u64;
    let mut h = 0u64;
    while let Some(c) = i.next() {
        h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
        n += 1;
        if n == 3 || n == 40 {
            l!(g, "at {n}: {} {:?}", Show(&i), i.size_hint());
        }
    }
    l!(g, "{n} characters {h:x}, then {:?} {:?}", i.next(), i.size_hint());
}
struct Show<'a, T>(&'a T);
impl<T: Display> Display for Show<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Display::fmt(self.0, f)
    }
}
impl<T: Display> Debug for Show<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}>", self.0)
    }
}

/// Everything observable of one string, cheaply when it is long.
pub fn string(g: &mut Log, j: &JsonString<'_>) {
    l!(g, "string {} {} {} {:?}", j.len(), j.is_empty(), j.decoded_len(), j.as_str().map(|s| s.len()));
    if j.len() < 4000 {
        l!(g, "{j:?} {j}");
        l!(g, "{:?}", j.as_json_str());
        let mut r = Rec::default();
        j.hash(&mut r);
        l!(g, "{:?}", r.0);
    }
    chars(g, j.decoded());
    chars(g, j.as_json());
    let c = j.clone();
    l!(g, "{} {:?} {:?} {:?}", c == *j, c.cmp(j), j.partial_cmp("k"), j.partial_cmp("\u{e9}"));
    if let Some(s) = j.as_str() {
        l!(g, "{} {:?}", *j == *s, j.partial_cmp(s));
        let k = JsonString::from(s);
        l!(g, "{} {:?} {}", *j == k, k.cmp(j), k.decoded_len());
        chars(g, k.as_json());
    }
}
pub fn number(g: &mut Log, n: &JsonNumber<'_>) {
    l!(g, "number {} {:?}", n.source(), n);
    l!(g, "{:?} {:?} {:?} {:?} {:?}", n.as_u8(), n.as_u16(), n.as_u32(), n.as_u64(), n.as_u128());
    l!(g, "{:?} {:?} {:?} {:?} {:?}", n.as_i8(), n.as_i16(), n.as_i32(), n.as_i64(), n.as_i128());
    // the word-sized conversions by their agreement with the same width
    l!(g, "{} {}", n.as_usize() == n.as_u64().and_then(|x| usize::try_from(x).ok()), n.as_isize() == n.as_i64().and_then(|x| isize::try_from(x).ok()));
    l!(g, "{:?} {:?}", n.as_f32().map(f32::to_bits), n.as_f64().map(f64::to_bits));
    l!(g, "{:?} {:?} {:?}", n.parse::<i32>().ok(), n.parse::<f64>().ok().map(f64::to_bits), n.parse::<Text>().ok().map(|t| t.0));
}

fn tokens<const U: bool>(g: &mut Log, mut t: Tokenizer<'_, U>, len: usize) {
    let mut n = 0;
    loop {
        let p = if n % 3 != 1 { t.peek() } else { None };
        let at = t.offset();
        match t.next() {
            None => {
                l!(g, "end {} {:?}", at, p);
                break;
            }
            Some(Ok(k)) => {
                use justjson::parser::Token as T;
                match &k {
                    T::String(s) if s.len() > 4000 => l!(g, "long string {} {}", s.len(), s.decoded_len()),
                    k => l!(g, "{k:?}"),
                }
                l!(g, "{p:?} {at} {}", t.offset());
            }
            Some(Err(e)) => {
                err(g, &e);
                l!(g, "{p:?} {at} {}", t.offset());
                break;
            }
        }
        n += 1;
        if n > len + 2 {
            l!(g, "too many tokens");
            break;
        }
    }
    match t.next_or_eof() {
        Ok(k) => l!(g, "after: {k:?}"),
        Err(e) => err(g, &e),
    }
}
fn op_tokens(s: &[u8], g: &mut Log) {
    tokens(g, Tokenizer::for_json_bytes(s), s.len());
    if let Ok(s) = core::str::from_utf8(s) {
        tokens(g, Tokenizer::for_json(s), s.len());
    }
}
fn op_validate(s: &[u8], g: &mut Log) {
    let t = core::str::from_utf8(s).ok();
    match Parser::validate_json_bytes(s) {
        Ok(k) => l!(g, "{k:?}"),
        Err(e) => err(g, &e),
    }
    for c in configs() {
        l!(g, "{c:?}");
        match Parser::validate_json_bytes_with_config(s, c) {
            Ok(k) => l!(g, "{k:?}"),
            Err(e) => err(g, &e),
        }
        match t.map(|t| Parser::validate_json_with_config(t, c)) {
            Some(Ok(k)) => l!(g, "{k:?}"),
            Some(Err(e)) => err(g, &e),
            None => {}
        }
    }
}

/// Writes every event, and fails at the `fail`-th.
struct Events<'g> {
    g: &'g mut Log,
    n: usize,
    fail: usize,
}
impl Events<'_> {
    fn ev(&mut self, a: fmt::Arguments<'_>) -> Result<usize, usize> {
        let _ = self.g.write_fmt(a);
        let _ = self.g.write_str("\n");
        self.n += 1;
        if self.n == self.fail {
            Err(self.n)
        } else {
            Ok(self.n)
        }
    }
}
impl<'a> ParseDelegate<'a> for &mut Events<'_> {
    type Value = usize;
    type Object = usize;
    type Array = usize;
    type Key = usize;
    type Error = usize;
    fn null(&mut self) -> Result<usize, usize> {
        self.ev(format_args!("null"))
    }
    fn boolean(&mut self, v: bool) -> Result<usize, usize> {
        self.ev(format_args!("{v}"))
    }
    fn number(&mut self, v: JsonNumber<'a>) -> Result<usize, usize> {
        self.ev(format_args!("number {}", v.source()))
    }
    fn string(&mut self, v: JsonString<'a>) -> Result<usize, usize> {
        self.ev(format_args!("string {} {}", v.len(), v.decoded_len()))
    }
    fn begin_object(&mut self) -> Result<usize, usize> {
        self.ev(format_args!("{{"))
    }
    fn object_key(&mut self, o: &mut usize, k: JsonString<'a>) -> Result<usize, usize> {
        let o = *o;
        self.ev(format_args!("{o} key {} {}", k.len(), k.decoded_len()))
    }
    fn object_value(&mut self, o: &mut usize, k: usize, v: usize) -> Result<(), usize> {
        *o += 1;
        let o = *o;
        self.ev(format_args!("{o} {k} {v}")).map(|_| ())
    }
    fn object_is_empty(&self, o: &usize) -> bool {
        *o == 0
    }
    fn end_object(&mut self, o: usize) -> Result<usize, usize> {
        self.ev(format_args!("}} {o}"))
    }
    fn begin_array(&mut self) -> Result<usize, usize> {
        self.ev(format_args!("["))
    }
    fn array_value(&mut self, a: &mut usize, v: usize) -> Result<(), usize> {
        *a += 1;
        let a = *a;
        self.ev(format_args!("{a} {v}")).map(|_| ())
    }
    fn array_is_empty(&self, a: &usize) -> bool {
        *a == 0
    }
    fn end_array(&mut self, a: usize) -> Result<usize, usize> {
        self.ev(format_args!("] {a}"))
    }
    fn kind_of(&self, v: &usize) -> JsonKind {
        if v % 2 == 0 {
            JsonKind::Object
        } else {
            JsonKind::Array
        }
    }
}
fn op_events(s: &[u8], g: &mut Log) {
    for fail in [usize::MAX, 1, 5] {
        let mut d = Events { g, n: 0, fail };
        let r = Parser::parse_json_bytes(s, &mut d);
        match r {
            Ok(v) => l!(g, "= {v}"),
            Err(e) => l!(g, "error {e:?} {}", e.offset()),
        }
        if let Ok(t) = core::str::from_utf8(s) {
            let mut d = Events { g, n: 0, fail };
            let r = Parser::parse_json_with_config(t, ParseConfig::strict().allowing_trailing_commas(), &mut d);
            match r {
                Ok(v) => l!(g, "= {v}"),
                Err(e) => l!(g, "error {e:?} {}", e.offset()),
            }
        }
    }
}

/// Node storage of a bounded size, available in every configuration.
#[derive(Default)]
struct Fixed<'a, const N: usize>(Vec<Node<'a>>);
impl<'a, const N: usize> AsRef<[Node<'a>]> for Fixed<'a, N> {
    fn as_ref(&self) -> &[Node<'a>] {
        &self.0
    }
}
impl<'a, const N: usize> AsMut<[Node<'a>]> for Fixed<'a, N> {
    fn as_mut(&mut self) -> &mut [Node<'a>] {
        &mut self.0
    }
}
impl<'a, const N: usize> IntoIterator for Fixed<'a, N> {
    type Item = Node<'a>;
    type IntoIter = alloc::vec::IntoIter<Node<'a>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, const N: usize> NodeCollection<'a> for Fixed<'a, N> {
    fn push(&mut self, node: Node<'a>) -> Result<(), ErrorKind> {
        hook::call(self.0.len() as u64);
        if self.0.len() >= N {
            return Err(ErrorKind::PaylodTooLarge);
        }
        self.0.push(node);
        Ok(())
    }
}
pub fn node(g: &mut Log, n: &Node<'_>) {
    match n {
        Node::String(s) => l!(g, "string {} {} {:?}", s.len(), s.decoded_len(), s.as_str().is_some()),
        Node::Number(n) => l!(g, "number {}", n.source()),
        n => l!(g, "{n:?}"),
    }
}
fn document<'a, B: NodeCollection<'a> + Default>(g: &mut Log, s: &'a [u8], c: ParseConfig) {
    match GenericDocument::<'a, B>::from_json_bytes_with_config(s, c) {
        Ok(d) => {
            for n in d.iter() {
                node(g, &n);
            }
            let mut k = d.iter();
            let mut i = 0;
            loop {
                i += 1;
                if i % 2 == 1 {
                    let Some(n) = k.next() else { break };
                    node(g, &n);
                } else {
                    k.skip_next_value();
                    l!(g, "skip, {} left", k.clone().count());
                }
                if i > 60 {
                    break;
                }
            }
            l!(g, "{}", d.into_iter().count());
        }
        Err(e) => err(g, &e),
    }
}
fn op_document(s: &[u8], g: &mut Log) {
    document::<Fixed<'_, 3>>(g, s, ParseConfig::default());
    document::<Fixed<'_, 64>>(g, s, ParseConfig::strict());
    document::<Fixed<'_, 5000>>(g, s, ParseConfig::default().allowing_trailing_commas());
}

/// The strings and numbers of a payload, each on its own.
fn leaves(s: &[u8], mut f: impl FnMut(justjson::parser::Token<'_>)) {
    for t in Tokenizer::for_json_bytes(s).take(60) {
        match t {
            Ok(t) => f(t),
            Err(_) => break,
        }
    }
}
fn op_strings(s: &[u8], g: &mut Log) {
    leaves(s, |t| {
        if let justjson::parser::Token::String(j) = t {
            string(g, &j);
        }
    });
    let Ok(t) = core::str::from_utf8(s) else { return };
    match JsonString::from_json(t) {
        Ok(j) => string(g, &j),
        Err(e) => err(g, &e),
    }
    let j = JsonString::from(t);
    string(g, &j);
    let a = AnyStr::from(t);
    if t.len() < 4000 {
        l!(g, "{a:?}");
    }
    l!(g, "{} {} {:?} {:?} {}", a.len(), a == *t, a.partial_cmp("m"), a.partial_cmp(&AnyStr::from(&t[..t.char_indices().nth(2).map_or(0, |x| x.0)])), a.as_str().len());
    let mut r = Rec::default();
    a.hash(&mut r);
    l!(g, "{}", r.0.iter().fold(0u64, |h, x| (h ^ x).wrapping_mul(0x100_0000_01b3)));
    let i = JsonStringInfo::new(t.len() % 2 == 1, t.len());
    l!(g, "{i:?} {} {}", i.has_escapes(), i.expected_length());
}
fn op_numbers(s: &[u8], g: &mut Log) {
    leaves(s, |t| {
        if let justjson::parser::Token::Number(j) = t {
            number(g, &j);
        }
    });
    let Ok(t) = core::str::from_utf8(s) else { return };
    match JsonNumber::from_json(t) {
        Ok(j) => number(g, &j),
        Err(e) => err(g, &e),
    }
}

#[cfg(feature = "alloc")]
mod with_alloc {
    use super::*;
    use justjson::doc::Document;
    use justjson::{Entry, Object, Value};

    fn value(g: &mut Log, v: &Value<'_>, left: &mut usize) {
        if *left == 0 {
            return;
        }
        *left -= 1;
        match v {
            Value::Null => l!(g, "null {}", v.is_null()),
            Value::Boolean(b) => l!(g, "{b} {:?}", v.as_bool()),
            Value::Number(n) => {
                l!(g, "number {} {:?} {:?} {:?}", n.source(), v.as_u64(), v.as_i64(), v.as_f64().map(f64::to_bits));
                l!(g, "{:?} {:?} {:?} {:?} {:?}", v.as_u8(), v.as_i8(), v.as_u16(), v.as_i16(), v.as_u32());
                l!(g, "{:?} {:?} {:?} {:?}", v.as_i32(), v.as_u128(), v.as_i128(), v.as_f32().map(f32::to_bits));
                l!(g, "{}", v.as_usize() == v.as_u64().and_then(|x| usize::try_from(x).ok()));
            }
            Value::String(j) => {
                l!(g, "string {} {} {:?}", j.len(), j.decoded_len(), v.as_str().map(|s| s.len()));
                let d = j.decode_if_needed();
                let e = j.escape_if_needed();
                l!(g, "{} {} {}", d.len(), e.len(), matches!(d, AnyStr::Borrowed(_)) as u8 * 2 + matches!(e, AnyStr::Borrowed(_)) as u8);
                let _ = g.write_str(&d);
                let _ = g.write_str(&e);
                let o = JsonString::from(d.to_string());
                l!(g, "{} {:?} {} {}", o == *j, o.cmp(j), o.decoded_len(), *j == *d.as_str());
                if j.len() < 2000 {
                    super::string(g, &o);
                }
            }
            Value::Array(a) => {
                l!(g, "[ {} {:?}", a.len(), v.get_index(a.len()).is_some());
                for x in a {
                    value(g, x, left);
                }
                l!(g, "]");
            }
            Value::Object(o) => {
                l!(g, "{{ {}", o.len());
                for (i, e) in o.iter().enumerate() {
                    let k = e.key.decode_if_needed();
                    l!(g, "key {}", k.len());
                    let _ = g.write_str(&k);
                    if i < 50 {
                        let f = v.get(&k).map(|x| o.iter().position(|e| core::ptr::eq(&e.value, x)));
                        l!(g, "found at {f:?}");
                    }
                    value(g, &e.value, left);
                }
                l!(g, "}}");
            }
        }
    }
    pub fn op_value(s: &[u8], g: &mut Log) {
        for (i, c) in configs().enumerate() {
            match Value::from_json_bytes_with_config(s, c) {
                Ok(v) if i < 2 => {
                    value(g, &v, &mut 3000);
                    l!(g, "{}", v.to_json());
                    l!(g, "{}", v.to_json_pretty());
                    l!(g, "{}", v.to_json_pretty_custom(" \t", "\r\n"));
                    let _ = v.write_json_to(&mut *g);
                    let _ = v.pretty_write_json_to(&mut *g);
                    let _ = v.pretty_write_json_to_custom("--", "<>", &mut *g);
                    l!(g, "{v}|{v:#}");
                    if s.len() < 1500 {
                        l!(g, "{v:?}");
                    }
                    if let Ok(t) = core::str::from_utf8(s) {
                        l!(g, "{:?}", Value::from_json_with_config(t, c).map(|w| w == v));
                    }
                    if let Ok(w) = Value::from_json(&v.to_json()) {
                        l!(g, "{}", w == v);
                    }
                }
                Ok(v) => l!(g, "ok {}", v.to_json().len()),
                Err(e) => err(g, &e),
            }
        }
    }
    pub fn op_edit(s: &[u8], g: &mut Log) {
        let Ok(mut v) = Value::from_json_bytes(s) else { return };
        if let Some(a) = v.as_array_mut() {
            a.push(Value::from("pushed\n\u{e9}"));
            a.insert(0, Value::from(true));
            a.truncate(200);
        }
        if let Some(o) = v.as_object_mut() {
            o.push(Entry::new("new \"key\"", Value::from(String::from("\u{1}\u{10ffff}"))));
            if let Some(x) = o.get_mut("a") {
                *x = Value::Null;
            }
            if let Some(x) = o.get_entry_mut("b") {
                x.key = JsonString::from("renamed".to_string());
            }
            o.truncate(200);
        }
        l!(g, "{}", v.to_json_pretty());
        let done = v.write_json_to(&mut *g);
        l!(g, "{done:?}");
        let inner = [(JsonString::from("inner"), v), (JsonString::from("of \"mine\""), Value::Null)];
        let w: Value<'_> = Value::from(inner.into_iter().inspect(|e| hook::call(e.0.len() as u64)).collect::<Object<'_>>());
        l!(g, "{}", w.to_json());
        let done = w.pretty_write_json_to(&mut *g);
        l!(g, "{done:?}");
        l!(g, "{w}|{w:#}");
        l!(g, "{:?}", w["inner"].get("renamed").map(|x| x.to_json()));
    }
    pub fn op_vec_document(s: &[u8], g: &mut Log) {
        document::<Vec<Node<'_>>>(g, s, ParseConfig::default());
        document::<Vec<Node<'_>>>(g, s, ParseConfig::strict().allowing_trailing_commas());
        let Ok(d) = Document::from_json_bytes(s) else { return };
        let mut it = d.iter();
        if d.iter().count() > 2 {
            it.next();
        }
        while let Some(v) = it.next_value() {
            l!(g, "{}", v.to_json());
        }
        l!(g, "{}", d == Document::from_json_bytes(s).unwrap_or_default_doc());
        l!(g, "{}", Value::from(d).to_json());
    }
    trait OrDefault<'a> {
        fn unwrap_or_default_doc(self) -> Document<'a>;
    }
    impl<'a> OrDefault<'a> for Result<Document<'a>, Error> {
        fn unwrap_or_default_doc(self) -> Document<'a> {
            match self {
                Ok(d) => d,
                Err(_) => Document::from_json("[0,0,0,\"not\"]").unwrap(),
            }
        }
    }
    pub fn op_owned(s: &[u8], g: &mut Log) {
        let Ok(t) = core::str::from_utf8(s) else { return };
        let j = JsonString::from(t.to_string());
        if t.len() < 4000 {
            super::string(g, &j);
        }
        let (d, e) = (j.decode_if_needed(), j.escape_if_needed());
        l!(g, "{} {} {}", d.len(), e.len(), j.to_string().len());
        let _ = g.write_str(&e);
        l!(g, "{}", matches!(d, AnyStr::Owned(_)) as u8 * 2 + matches!(e, AnyStr::Owned(_)) as u8);
        let done = Value::from(j.clone()).write_json_to(&mut *g);
        l!(g, "{done:?}");
        l!(g, "{}", Value::from(t));
        l!(g, "{:?}", e.len());
        l!(g, "{} {:?}", AnyStr::from(t.to_string()) == AnyStr::from(t), AnyStr::from(t.to_string()).partial_cmp("m"));
        l!(g, "{}", Value::from(t).to_json());
        l!(g, "{}", Value::from(t.to_string()) == Value::from(j));
    }
}

#[cfg(feature = "heapless")]
fn op_heapless(s: &[u8], g: &mut Log) {
    use justjson::doc::HeaplessDocument;
    fn one<const N: usize>(g: &mut Log, s: &[u8], c: ParseConfig) {
        match HeaplessDocument::<N>::from_json_bytes_with_config(s, c) {
            Ok(d) => {
                for n in d.iter() {
                    node(g, &n);
                }
                let mut k = d.iter();
                k.next();
                k.skip_next_value();
                l!(g, "{:?}", k.next().is_some());
            }
            Err(e) => err(g, &e),
        }
        if let Ok(t) = core::str::from_utf8(s) {
            l!(g, "{:?}", HeaplessDocument::<N>::from_json(t).map(|d| d.iter().count()));
        }
    }
    one::<1>(g, s, ParseConfig::default());
    one::<7>(g, s, ParseConfig::strict());
    one::<64>(g, s, ParseConfig::default().allowing_trailing_commas());
    // the same again with storage of this program's own
    fn own<const N: usize>(g: &mut Log, s: &[u8], c: ParseConfig) {
        let (mut a, mut b) = (Log::new(true), Log::new(true));
        document::<Fixed<'_, N>>(&mut a, s, c);
        match HeaplessDocument::<N>::from_json_bytes_with_config(s, c) {
            Ok(d) => {
                for n in d.iter() {
                    node(&mut b, &n);
                }
            }
            Err(e) => err(&mut b, &e),
        }
        let (a, b) = (a.text.unwrap_or_default(), b.text.unwrap_or_default());
        l!(g, "{}", a.starts_with(&b));
    }
    own::<16>(g, s, ParseConfig::default());
}
#[cfg(feature = "std")]
fn op_std(s: &[u8], g: &mut Log) {
    if let Err(e) = Parser::validate_json_bytes(s) {
        let d: &dyn std::error::Error = &e;
        l!(g, "{d} {d:?} {}", d.source().is_some());
        let d: &dyn std::error::Error = e.kind();
        l!(g, "{d} {d:?} {}", d.source().is_some());
    }
}

pub type Op = (&'static str, fn(&[u8], &mut Log));
pub const OPS: &[Op] = &[
    ("core.tokens", op_tokens),
    ("core.validate", op_validate),
    ("core.events", op_events),
    ("core.document", op_document),
    ("core.strings", op_strings),
    ("core.numbers", op_numbers),
    #[cfg(feature = "alloc")]
    ("alloc.value", with_alloc::op_value),
    #[cfg(feature = "alloc")]
    ("alloc.edit", with_alloc::op_edit),
    #[cfg(feature = "alloc")]
    ("alloc.document", with_alloc::op_vec_document),
    #[cfg(feature = "alloc")]
    ("alloc.owned", with_alloc::op_owned),
    #[cfg(feature = "heapless")]
    ("heapless.document", op_heapless),
    #[cfg(feature = "std")]
    ("std.errors", op_std),
];

/// A short fixed sequence for long payloads.
pub fn long(s: &[u8], g: &mut Log) {
    l!(g, "{:?}", Parser::validate_json_bytes(s).map_err(|e| (e.offset(), format!("{e:?}"))));
    for t in Tokenizer::for_json_bytes(s).take(3000) {
        match t {
            Ok(justjson::parser::Token::String(j)) => {
                l!(g, "{} {} {} {:?}", j.len(), j.decoded_len(), j.is_empty(), j.as_str().map(|s| s.len()));
                let (mut n, mut h) = (0u64, 0u64);
                for c in j.decoded() {
                    n += 1;
                    h = (h ^ c as u64).wrapping_mul(0x100_0000_01b3);
                }
                l!(g, "{n} {h}");
                l!(g, "{:?} {:?}", j.decoded().size_hint(), j.as_json().size_hint());
                if let Some(s) = j.as_str() {
                    let k = JsonString::from(s);
                    l!(g, "{} {} {}", k.len(), k.decoded_len(), k == j);
                }
            }
            Ok(justjson::parser::Token::Number(n)) => l!(g, "{} {:?}", n.source().len(), n.as_f64().map(f64::to_bits)),
            Ok(_) => {}
            Err(e) => err(g, &e),
        }
    }
    #[cfg(feature = "alloc")]
    if let Ok(v) = justjson::Value::from_json_bytes(s) {
        // not part of the log: it has to be the same without alloc
        let j = v.to_json();
        assert!(justjson::Value::from_json(&j).map(|w| w == v).unwrap_or(false), "own output does not read back as the same value");
        if let Some(j) = v.as_string() {
            assert!(j.decode_if_needed().len() == j.decoded_len(), "decode_if_needed has {} bytes, decoded_len says {}", j.decode_if_needed().len(), j.decoded_len());
        }
    }
}

/// Every part of the crate once, cheaply: what the guide executes. The choice
/// of configuration is a function of the payload.
#[cfg(all(feature = "std", feature = "heapless"))]
pub fn lean(s: &[u8], g: &mut Log) {
    use justjson::doc::{Document, HeaplessDocument};
    use justjson::{Entry, Object, Value};
    let pick = s.iter().fold(s.len(), |h, b| (h ^ *b as usize).wrapping_mul(0x100_0193)) >> 3;
    let c = match pick % 16 {
        0 => ParseConfig::strict(),
        1 => ParseConfig::default().with_recursion_limit(pick / 16 % 6),
        2 => ParseConfig::default().without_recursion_limit(),
        3..=6 => ParseConfig::default().allowing_trailing_commas(),
        _ => ParseConfig::default(),
    };
    let text = core::str::from_utf8(s).ok();
    fn one(g: &mut Log, j: &JsonString<'_>, other: &JsonString<'_>) {
        l!(g, "{} {} {} {:?}", j.len(), j.is_empty(), j.decoded_len(), j.as_str());
        let (mut d, mut e) = (j.decoded(), j.as_json());
        d.next();
        e.next();
        l!(g, "{:?} {:?} {} {}", d.size_hint(), e.size_hint(), Show(&d), Show(&e));
        l!(g, "{} {}", d.count(), e.count());
        l!(g, "{} {}", j.decode_if_needed().as_str(), j.escape_if_needed().as_str());
        l!(g, "{} {:?} {:?}", j == other, j.cmp(other), j.partial_cmp("k"));
        let mut r = Rec::default();
        j.hash(&mut r);
        l!(g, "{}", r.0.len());
        if let Some(t) = j.as_str() {
            l!(g, "{}", *j == *t);
        }
    }
    fn walk(g: &mut Log, v: &Value<'_>, last: &mut JsonString<'static>, left: &mut usize) {
        if *left == 0 {
            return;
        }
        *left -= 1;
        match v {
            Value::Number(n) => number(g, n),
            Value::String(j) => {
                one(g, j, last);
                *last = JsonString::from(j.decoded().collect::<String>());
                one(g, last, j);
            }
            Value::Array(a) => a.iter().for_each(|x| walk(g, x, last, left)),
            Value::Object(o) => {
                for e in o.iter() {
                    one(g, &e.key, last);
                    let k = e.key.decode_if_needed();
                    l!(g, "{:?}", v.get(&k).map(|x| core::ptr::eq(x, &e.value)));
                    walk(g, &e.value, last, left);
                }
            }
            v => l!(g, "{v:?}"),
        }
    }
    l!(g, "{:?}", Parser::validate_json_bytes_with_config(s, c).is_ok());
    if let Some(t) = text {
        l!(g, "{:?}", Parser::validate_json_with_config(t, c).is_ok());
        l!(g, "{:?}", JsonString::from_json(t).map(|j| j.decoded_len()));
        if t.len() < 300 {
            one(g, &JsonString::from(t), &JsonString::from(t.to_string()));
        }
        if let Ok(n) = JsonNumber::from_json(t) {
            number(g, &n);
        }
    }
    let mut t = Tokenizer::for_json_bytes(s);
    let mut n = 0;
    loop {
        let p = t.peek();
        match t.next() {
            Some(Ok(k)) if n < s.len() + 2 => l!(g, "{p:?} {:?} {}", core::mem::discriminant(&k), t.offset()),
            Some(Err(e)) => {
                err(g, &e);
                break;
            }
            _ => break,
        }
        n += 1;
    }
    match HeaplessDocument::<24>::from_json_bytes_with_config(s, c) {
        Ok(d) => {
            let mut i = d.iter();
            i.next();
            i.skip_next_value();
            l!(g, "{:?}", i.next_value().map(|v| v.to_json()));
        }
        Err(e) => err(g, &e),
    }
    let mut events = Events { g, n: 0, fail: 3 + pick % 40 };
    let r = Parser::parse_json_bytes_with_config(s, c, &mut events);
    l!(g, "{}", r.is_ok());
    match Value::from_json_bytes_with_config(s, c) {
        Ok(mut v) => {
            walk(g, &v, &mut JsonString::from("k"), &mut 40);
            let (a, b) = (v.to_json(), v.to_json_pretty());
            let w = Value::from_json(&a);
            l!(g, "{} {} {:?}", a.len(), b.len(), w.map(|w| w == v));
            l!(g, "{:?} {:?}", v.get_index(pick % 5).is_some(), v.get("a").is_some());
            if let Ok(d) = Document::from_json_bytes_with_config(s, c) {
                let mut i = d.iter();
                for _ in 0..pick % 4 {
                    i.next();
                }
                while let Some(x) = i.next_value() {
                    l!(g, "{}", x == v);
                }
                l!(g, "{}", Value::from(d) == v);
            }
            if let Some(o) = v.as_object_mut() {
                o.push(Entry::new("new \"key\"", Value::Boolean(true)));
                if let Some(x) = o.get_mut("a") {
                    *x = Value::Null;
                }
                o.truncate(20);
            }
            if let Some(a) = v.as_array_mut() {
                a.push(Value::from([(JsonString::from("\u{1f}"), Value::from("\n"))].into_iter().collect::<Object<'_>>()));
            }
            l!(g, "{}", v.to_json_pretty_custom("\t", "\r\n").len());
        }
        Err(e) => err(g, &e),
    }
}
