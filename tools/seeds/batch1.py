P="src/parser.rs"; S="src/string.rs"; W="src/value.rs"; D="src/doc.rs"; N="src/number.rs"; A="src/anystr.rs"
SEEDS=[
dict(id="C01-utf8-tail",prop="C01",needs="bytes payload whose string ends with a truncated UTF-8 sequence",
 breaks="a truncated multi-byte sequence at the end of a run is accepted by the bytes entry points",
 edits=[(P,"""                        if core::str::from_utf8(&self.source.bytes[utf8_start..unicode_end])
                            .is_err()
                        {""","""                        let run = core::str::from_utf8(&self.source.bytes[utf8_start..unicode_end]);
                        if matches!(run, Err(error) if error.error_len().is_some()) {""")],
 demo=r'''
fn main() { assert!(justjson::parser::Parser::validate_json_bytes(b"\"ok \xe2\x82\"").is_err()); }
'''),
dict(id="C01-exp-signs",prop="C01",needs="a number with more than one sign in its exponent",
 breaks="1e+-1 is accepted",
 edits=[(P,"            if let Some(b'-' | b'+') = self.source.peek() {\n","            while let Some(b'-' | b'+') = self.source.peek() {\n")],
 demo=r'''
fn main() { assert!(justjson::Value::from_json("[1e+-1]").is_err()); assert!(justjson::Value::from_json("2E--7").is_err()); }
'''),
dict(id="C02-empty-array-depth",prop="C02",needs="more than 127 empty arrays in one payload",
 breaks="the early return for empty arrays never gives the nesting level back, so siblings count",
 edits=[(P,"""                if state.config.allow_trailing_commas || state.delegate.array_is_empty(&array) {
                    break;
                }
""","""                if state.delegate.array_is_empty(&array) {
                    return state.delegate.end_array(array).map_err(|kind| Error {
                        offset,
                        kind: ErrorKind::ErrorFromDelegate(kind),
                    });
                }

                if state.config.allow_trailing_commas {
                    break;
                }
""")],
 demo=r'''
fn main() { let s = format!("[{}[]]", "[],".repeat(200)); justjson::Value::from_json(&s).unwrap(); }
'''),
dict(id="C03-root-or",prop="C03",needs="allowing_all_types_at_root(false) on a configuration that allows them",
 breaks="the builder can no longer turn the root restriction on",
 edits=[(P,"        self.allow_all_types_at_root = allow_all;\n","        self.allow_all_types_at_root |= allow_all;\n")],
 demo=r'''
use justjson::parser::*;
fn main() { assert!(Parser::validate_json_with_config("1", ParseConfig::new().allowing_all_types_at_root(false)).is_err()); }
'''),
dict(id="C03-lone-comma",prop="C03",needs="trailing commas allowed and an object starting with, or repeating, a comma",
 breaks="{,} and {\"a\":1,,} are accepted when trailing commas are allowed",
 edits=[(P,"""                Token::Array | Token::Bool(_) | Token::Null | Token::Number(_) | Token::Object => {
""","""                Token::Comma if state.config.allow_trailing_commas => continue,
                Token::Array | Token::Bool(_) | Token::Null | Token::Number(_) | Token::Object => {
""")],
 demo=r'''
use justjson::parser::*;
fn main() { let c = ParseConfig::new().allowing_trailing_commas(); assert!(Parser::validate_json_with_config("{,}", c).is_err()); assert!(Parser::validate_json_with_config("{\"a\":1,,}", c).is_err()); }
'''),
dict(id="C04-doc-config",prop="C04",needs="a document parsed from str with a non-default configuration",
 breaks="Document::from_json_with_config ignores the configuration",
 edits=[(D,"""        Parser::parse_json_with_config(source, config, &mut nodes)
            .map_err(Error::into_infallable)?;""","""        let _ = config;
        Parser::parse_json(source, &mut nodes).map_err(Error::into_infallable)?;""")],
 demo=r'''
use justjson::{parser::*, doc::Document, Value};
fn main() { let c = ParseConfig::strict(); assert_eq!(Document::from_json_with_config("true", c).is_ok(), Value::from_json_with_config("true", c).is_ok()); }
'''),
dict(id="C05-merge-dups",prop="C05",needs="adjacent duplicate keys",
 breaks="adjacent entries with equal keys are merged",
 edits=[(W,"""        object.push(Entry { key, value });
        Ok(())""","""        match object.last_mut() {
            Some(last) if last.key == key => last.value = value,
            _ => object.push(Entry { key, value }),
        }
        Ok(())""")],
 demo=r'''
fn main() { let v = justjson::Value::from_json(r#"{"a":1,"a":2}"#).unwrap(); assert_eq!(v.as_object().unwrap().len(), 2); }
'''),
dict(id="C06-bytes-len",prop="C06",needs="bytes payload with multi-byte characters in a string; the decoded length or an escaped comparison",
 breaks="decoded_len of strings parsed from bytes misses a byte per multi-byte run",
 edits=[(P,"                        string_info.add_bytes(unicode_end - utf8_start);\n","                        string_info.add_bytes(unicode_end - utf8_start - usize::from(unicode_end - utf8_start > 3));\n")],
 demo=r'''
fn main() { let v = justjson::Value::from_json_bytes("\"a\\n😀\"".as_bytes()).unwrap(); assert_eq!(v.as_string().unwrap().decoded_len(), 6); }
'''),
dict(id="C06-last-high",prop="C06",needs="a surrogate pair whose high half is DBFF (U+10FC00 and above)",
 breaks="pairs with high surrogate DBFF decode to an invalid char followed by leftovers",
 edits=[(S,"                    if (HIGH_SURROGATE_MIN..=HIGH_SURROGATE_MAX).contains(&codepoint) {\n","                    if (HIGH_SURROGATE_MIN..HIGH_SURROGATE_MAX).contains(&codepoint) {\n")],
 demo=r'''
fn main() { let s = justjson::JsonString::from_json(r#""\udbff\udffe""#).unwrap(); assert_eq!(s.decoded().collect::<String>(), "\u{10fffe}"); }
'''),
dict(id="C07-unit-separator",prop="C07",needs="a Rust string containing U+001F",
 breaks="encoding U+001F panics",
 edits=[(S,"                    Ok(b) if (0..=31).contains(&b) => {\n","                    Ok(b) if (0..31).contains(&b) => {\n")],
 demo=r'''
fn main() { assert_eq!(justjson::JsonString::from("\u{1f}").as_json().collect::<String>(), "\\u001f"); }
'''),
dict(id="C07-vertical-tab",prop="C07",needs="a Rust string containing U+000B",
 breaks="U+000B is encoded as \\v, which is not JSON",
 edits=[(S,"""                    Ok(b'\\x0c') => {
                        self.state = EscapeState::Single(b'f');
""","""                    Ok(b @ (b'\\x0b' | b'\\x0c')) => {
                        self.state = EscapeState::Single(if b == 0x0b { b'v' } else { b'f' });
""")],
 demo=r'''
fn main() { let v = justjson::Value::from("a\u{b}b").to_json(); justjson::Value::from_json(&v).unwrap(); }
'''),
dict(id="C08-hash-nonascii",prop="C08",needs="hashing a parsed string with an escape and a non-ASCII character",
 breaks="such strings hash differently from equal strings",
 edits=[(S,"""                    state.write(ch.encode_utf8(&mut char_bytes).as_bytes());
""","""                    if ch.is_ascii() {
                        state.write(ch.encode_utf8(&mut char_bytes).as_bytes());
                    } else {
                        state.write_u32(u32::from(ch));
                    }
""")],
 demo=r'''
use std::hash::*; use justjson::JsonString;
fn h(s: &JsonString) -> u64 { let mut d = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut d); d.finish() }
fn main() { assert_eq!(h(&JsonString::from_json(r#""\u00e9""#).unwrap()), h(&JsonString::from("é"))); }
'''),
dict(id="C08-object-order",prop="C08",needs="comparing objects with the same entries in another order",
 breaks="object equality ignores the order of entries",
 edits=[(W,"""#[derive(Debug, Eq, PartialEq)]
pub struct Object<'a>(Vec<Entry<'a>>);
""","""#[derive(Debug, Eq)]
pub struct Object<'a>(Vec<Entry<'a>>);

impl<'a> PartialEq for Object<'a> {
    fn eq(&self, other: &Self) -> bool {
        self.0.len() == other.0.len() && self.0.iter().all(|entry| other.0.contains(entry))
    }
}
""")],
 demo=r'''
use justjson::Value;
fn main() { assert_ne!(Value::from_json(r#"{"a":1,"b":2}"#).unwrap(), Value::from_json(r#"{"b":2,"a":1}"#).unwrap()); }
'''),
dict(id="C09-negative-zero",prop="C09",needs="the number -0",
 breaks="numbers that fit an i64 are rewritten through it, so -0 loses its sign",
 edits=[(W,"            Value::Number(number) => state.write(number.source()),\n","""            Value::Number(number) => match number.as_i64() {
                Some(integer) => {
                    let digits = alloc::format!("{integer}");
                    state.write(&digits)
                }
                None => state.write(number.source()),
            },
""")],
 demo=r'''
fn main() { assert_eq!(justjson::Value::from_json("[-0]").unwrap().to_json(), "[-0]"); }
'''),
dict(id="C10-raw-unescaped",prop="C10",needs="a built value holding a Rust string that needs escaping",
 breaks="strings made from Rust text are written without escapes",
 edits=[(W,"""        write!(self.writer, "\\"{}\\"", str.as_json())
""","""        match str.as_str() {
            Some(plain) => write!(self.writer, "\\"{}\\"", plain),
            None => write!(self.writer, "\\"{}\\"", str.as_json()),
        }
""")],
 demo=r'''
fn main() { assert_eq!(justjson::Value::from("a\"b").to_json(), "\"a\\\"b\""); }
'''),
dict(id="C11-empty-eol",prop="C11",needs="custom pretty output with an empty line ending",
 breaks="indentation is dropped when the line ending is empty",
 edits=[(W,"            self.is_at_line_start = true;\n        }\n","            self.is_at_line_start = !self.line_ending.is_empty();\n        }\n")],
 demo=r'''
fn main() { assert_eq!(justjson::Value::from_json("[1]").unwrap().to_json_pretty_custom("--", ""), "[--1]"); }
'''),
dict(id="C11-deep-indent",prop="C11",needs="pretty output nested deeper than 32 levels",
 breaks="indentation stops growing at 32 levels",
 edits=[(W,"""    fn write(&mut self, str: &str) -> fmt::Result {
        if PRETTY && self.is_at_line_start {
            self.is_at_line_start = false;

            for _ in 0..self.level {""","""    fn write(&mut self, str: &str) -> fmt::Result {
        if PRETTY && self.is_at_line_start {
            self.is_at_line_start = false;

            for _ in 0..self.level.min(32) {""")],
 demo=r'''
fn main() { let s = format!("{}1{}", "[".repeat(40), "]".repeat(40)); let p = justjson::Value::from_json(&s).unwrap().to_json_pretty(); assert!(p.contains(&format!("\n{}1\n", "  ".repeat(40)))); }
'''),
dict(id="C12-indent-error",prop="C12",needs="a writer that fails exactly while an indentation is written",
 breaks="a failed indentation write is ignored and output goes on",
 edits=[(W,"""    fn write_json(&mut self, str: &JsonString<'_>) -> fmt::Result {
        if PRETTY && self.is_at_line_start {
            self.is_at_line_start = false;

            for _ in 0..self.level {
                self.writer.write_str(self.indent_per_level)?;""","""    fn write_json(&mut self, str: &JsonString<'_>) -> fmt::Result {
        if PRETTY && self.is_at_line_start {
            self.is_at_line_start = false;

            for _ in 0..self.level {
                let _ = self.writer.write_str(self.indent_per_level);""")],
 demo=r'''
use std::fmt;
struct F(usize, bool, bool);
impl fmt::Write for F { fn write_str(&mut self, _: &str) -> fmt::Result { if self.1 { self.2 = true; } if self.0 == 0 { self.1 = true; self.0 = 99; return Err(fmt::Error); } self.0 -= 1; Ok(()) } }
fn main() { let v = justjson::Value::from_json(r#"["a",{"b":"c"}]"#).unwrap(); for k in 0..40 { let mut f = F(k, false, false); let r = v.pretty_write_json_to(&mut f); assert!(r.is_err() == f.1 && !f.2, "failure at write {k}"); } }
'''),
dict(id="C12-decoded-display",prop="C12",needs="a writer that fails in the middle of a displayed string",
 breaks="Display of decoded text ignores write errors",
 edits=[(S,"""impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for ch in self.clone() {
            f.write_char(ch)?;
        }

        Ok(())""","""impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        self.clone()
            .map(|ch| f.write_char(ch))
            .last()
            .unwrap_or(Ok(()))""")],
 demo=r'''
use std::fmt::{self, Write};
struct F(usize);
impl fmt::Write for F { fn write_str(&mut self, _: &str) -> fmt::Result { if self.0 == 1 { self.0 = 0; return Err(fmt::Error); } self.0 = self.0.saturating_sub(1); Ok(()) } }
fn main() { let s = justjson::JsonString::from_json("\"hello\"").unwrap(); assert!(write!(F(2), "{}", s).is_err()); }
'''),
dict(id="C13-f32-via-f64",prop="C13",needs="a decimal close to an f32 rounding midpoint",
 breaks="as_f32 rounds twice",
 edits=[(N,"    pub fn as_f32(&self) -> Option<f32> {\n        self.parse().ok()\n","    #[allow(clippy::cast_possible_truncation)]\n    pub fn as_f32(&self) -> Option<f32> {\n        self.as_f64().map(|value| value as f32)\n")],
 demo=r'''
fn main() { let s = "1.00000005960464477540"; assert_eq!(justjson::JsonNumber::from_json(s).unwrap().as_f32(), s.parse().ok()); }
'''),
dict(id="C13-value-infinite",prop="C13",needs="a number that overflows f64, converted through a Value",
 breaks="Value::as_f64 gives nothing where the number itself gives infinity",
 edits=[(W,"        self.as_number().and_then(JsonNumber::as_f64)\n","        self.as_number().and_then(JsonNumber::as_f64).filter(|value| value.is_finite())\n")],
 demo=r'''
fn main() { assert_eq!(justjson::Value::from_json("1e400").unwrap().as_f64(), Some(f64::INFINITY)); }
'''),
dict(id="C14-skip-mixed",prop="C14",needs="skipping an array that starts with a scalar and holds a container later",
 breaks="skipping such an array leaves the cursor inside it",
 edits=[(D,"""                Node::Array { length: len } => {
                    for _ in 0..len {
                        // Skip the value
                        self.skip_next_value();
                    }
                }
            }""","""                Node::Array { length: len } => {
                    if matches!(
                        self.nodes.clone().next(),
                        Some(Node::Null | Node::Boolean(_) | Node::String(_) | Node::Number(_))
                    ) && len > 1
                    {
                        // A list of scalars: jump over all of them at once.
                        self.nodes.nth(len - 1);
                    } else {
                        for _ in 0..len {
                            // Skip the value
                            self.skip_next_value();
                        }
                    }
                }
            }""")],
 demo=r'''
fn main() { let d = justjson::doc::Document::from_json("[1,[2,3]]").unwrap(); let mut i = d.iter(); i.skip_next_value(); assert!(i.next().is_none()); }
'''),
dict(id="C15-key-refused",prop="C15",needs="node storage that refuses a key once and accepts later pushes",
 breaks="a refused key is lost without an error",
 edits=[(D,"        self.extend_object(*object);\n        self.push_string(key)?;\n        Ok(())","        self.extend_object(*object);\n        let _ = self.push_string(key);\n        Ok(())")],
 demo=r'''
use justjson::{doc::*, ErrorKind};
#[derive(Default)] struct C<'a>(Vec<Node<'a>>, usize);
impl<'a> AsRef<[Node<'a>]> for C<'a> { fn as_ref(&self) -> &[Node<'a>] { &self.0 } }
impl<'a> AsMut<[Node<'a>]> for C<'a> { fn as_mut(&mut self) -> &mut [Node<'a>] { &mut self.0 } }
impl<'a> IntoIterator for C<'a> { type Item = Node<'a>; type IntoIter = std::vec::IntoIter<Node<'a>>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a> NodeCollection<'a> for C<'a> { fn push(&mut self, n: Node<'a>) -> Result<(), ErrorKind> { self.1 += 1; if self.1 == 2 { return Err(ErrorKind::PaylodTooLarge); } self.0.push(n); Ok(()) } }
fn main() { assert!(GenericDocument::<C>::from_json(r#"{"a":1}"#).is_err()); }
'''),
dict(id="C16-end-after-error",prop="C16",needs="a delegate that fails in array_value",
 breaks="end_array is delivered after the delegate failed in array_value",
 edits=[(P,"""            state
                .delegate
                .array_value(&mut array, value)
                .map_err(|kind| Error {
                    offset: self.tokenizer.offset(),
                    kind: ErrorKind::ErrorFromDelegate(kind),
                })?;
""","""            if let Err(kind) = state.delegate.array_value(&mut array, value) {
                // Let the delegate release the array.
                drop(state.delegate.end_array(array));
                return Err(Error {
                    offset: self.tokenizer.offset(),
                    kind: ErrorKind::ErrorFromDelegate(kind),
                });
            }
""")],
 demo=r'''
use justjson::{parser::*, JsonNumber, JsonString}; use std::cell::Cell;
struct D<'l>(&'l Cell<u32>);
impl<'a, 'l> ParseDelegate<'a> for D<'l> { type Value = (); type Object = (); type Array = (); type Key = (); type Error = ();
 fn null(&mut self) -> Result<(), ()> { Ok(()) } fn boolean(&mut self, _: bool) -> Result<(), ()> { Ok(()) } fn number(&mut self, _: JsonNumber<'a>) -> Result<(), ()> { Ok(()) } fn string(&mut self, _: JsonString<'a>) -> Result<(), ()> { Ok(()) }
 fn begin_object(&mut self) -> Result<(), ()> { Ok(()) } fn object_key(&mut self, _: &mut (), _: JsonString<'a>) -> Result<(), ()> { Ok(()) } fn object_value(&mut self, _: &mut (), _: (), _: ()) -> Result<(), ()> { Ok(()) } fn object_is_empty(&self, _: &()) -> bool { true } fn end_object(&mut self, _: ()) -> Result<(), ()> { Ok(()) }
 fn begin_array(&mut self) -> Result<(), ()> { Ok(()) } fn array_value(&mut self, _: &mut (), _: ()) -> Result<(), ()> { Err(()) } fn array_is_empty(&self, _: &()) -> bool { true } fn end_array(&mut self, _: ()) -> Result<(), ()> { self.0.set(self.0.get() + 1); Ok(()) }
 fn kind_of(&self, _: &()) -> JsonKind { JsonKind::Null } }
fn main() { let c = Cell::new(0); assert!(Parser::parse_json("[1]", D(&c)).is_err()); assert_eq!(c.get(), 0); }
'''),
dict(id="C17-peek-consumes",prop="C17",needs="peeking at a byte that starts no token, then reading on",
 breaks="peeking at an unrecognised byte consumes it",
 edits=[(P,"            _ => PeekableTokenKind::Unrecognized,\n","            _ => {\n                self.source.next();\n                PeekableTokenKind::Unrecognized\n            }\n")],
 demo=r'''
fn main() { let mut t = justjson::parser::Tokenizer::for_json("?1"); t.peek(); t.peek(); assert!(t.next().unwrap().is_err()); assert!(t.next().unwrap().is_ok()); }
'''),
dict(id="C18-wrong-byte",prop="C18",needs="a misspelt literal",
 breaks="the unexpected-character error names the byte that was expected",
 edits=[(P,"""            if received != expected {
                return Err(Error {
                    offset,
                    kind: ErrorKind::Unexpected(*received),""","""            if received != expected {
                return Err(Error {
                    offset,
                    kind: ErrorKind::Unexpected(*expected),""")],
 demo=r'''
use justjson::*;
fn main() { let e = Value::from_json("trXe").unwrap_err(); assert_eq!((e.offset(), e.kind()), (2, &ErrorKind::Unexpected(b'X'))); }
'''),
dict(id="C19-rewind",prop="C19",needs="iterating a tokenizer past a misspelt literal",
 breaks="the tokenizer rewinds to the literal's start and never ends",
 edits=[(P,"""        for expected in remaining_bytes {
            let (offset, received) = self.source.next().ok_or(Error {""","""        let start = self.source.offset - 1;
        for expected in remaining_bytes {
            let (offset, received) = self.source.next().ok_or(Error {"""),(P,"""            if received != expected {
                return Err(Error {""","""            if received != expected {
                self.source.offset = start;
                return Err(Error {""")],
 demo=r'''
fn main() { assert!(justjson::parser::Tokenizer::for_json("nul?").take(100).count() < 100); }
'''),
dict(id="C20-shrink",prop="C20",needs="converting a String with spare capacity",
 breaks="converting an owned string reallocates it",
 edits=[(S,"                source: StringContents::Json(AnyStr::Owned(value)),\n","                source: StringContents::Json(AnyStr::Owned(String::from(value.into_boxed_str()))),\n")],
 demo=r'''
use std::alloc::*; use std::sync::atomic::*;
static C: AtomicUsize = AtomicUsize::new(0); struct M;
unsafe impl GlobalAlloc for M { unsafe fn alloc(&self, l: Layout) -> *mut u8 { C.fetch_add(1, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { C.fetch_add(1, Ordering::SeqCst); System.realloc(p, l, n) } }
#[global_allocator] static G: M = M;
fn main() { let mut s = String::with_capacity(100); s.push_str("hello"); let a = C.load(Ordering::SeqCst); let j = justjson::JsonString::from(s); assert_eq!(C.load(Ordering::SeqCst), a); assert_eq!(j, "hello"); }
'''),
dict(id="C21-last-dup-mut",prop="C21",needs="a mutable lookup of a duplicated key",
 breaks="mutable lookups reach the last entry, shared ones the first",
 edits=[(W,"        self.iter_mut().find(|entry| entry.key == key)\n","        self.iter_mut().rfind(|entry| entry.key == key)\n")],
 demo=r'''
fn main() { let mut v = justjson::Value::from_json(r#"{"a":1,"a":2}"#).unwrap(); *v.get_mut("a").unwrap() = true.into(); assert_eq!(v.get("a"), Some(&true.into())); }
'''),
dict(id="C22-mask32",prop="C22",needs="a 32-bit target and a string longer than 65535 bytes",
 breaks="on 32-bit targets long strings are taken to have escapes and lose their length",
 edits=[(S,"    const UNESCAPED_BYTES_MASK: usize = 0x7FFF_FFFF;\n    #[cfg(target_pointer_width = \"64\")]","    const UNESCAPED_BYTES_MASK: usize = 0xFFFF;\n    #[cfg(target_pointer_width = \"64\")]")],
 demo_sh="""#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
printf '[package]\\nname="demo"\\nversion="0.0.0"\\nedition="2021"\\n[dependencies]\\njustjson={path="%s"}\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
cd "$d" && MIRI_SYSROOT="$d/sysroot" CARGO_TARGET_DIR="$d/target" MIRIFLAGS=-Zmiri-disable-isolation timeout 280 cargo +nightly miri run --offline -q --target i686-unknown-linux-gnu
""",
 demo=r'''
fn main() { let s = format!("\"{}\"", "a".repeat(70_000)); let j = justjson::JsonString::from_json(&s).unwrap(); assert_eq!(j.decoded_len(), 70_000); assert!(j.as_str().is_some()); }
'''),
dict(id="C23-static-high",prop="C23",needs="several threads decoding different surrogate pairs at once",
 breaks="the high surrogate passes through a global variable, so concurrent decoding mixes characters",
 edits=[(S,"""                        // Process another \\uxxxx.
                        for _ in 0..6 {
                            self.chars.next();
                        }
""","""                        // Process another \\uxxxx.
                        static HIGH: core::sync::atomic::AtomicU32 =
                            core::sync::atomic::AtomicU32::new(0);
                        HIGH.store(codepoint, core::sync::atomic::Ordering::Relaxed);
                        for _ in 0..6 {
                            self.chars.next();
                        }
                        codepoint = HIGH.load(core::sync::atomic::Ordering::Relaxed);
""")],
 run="--release",
 demo=r'''
fn main() { let src: Vec<String> = (0..8).map(|i| format!("\"{}\"", format!("\\ud8{:02x}\\udc00", i * 16).repeat(200))).collect();
 let bad = std::sync::atomic::AtomicUsize::new(0);
 std::thread::scope(|s| for t in &src { let bad = &bad; s.spawn(move || { let j = justjson::JsonString::from_json(t).unwrap(); let want: String = j.decoded().take(1).collect(); for _ in 0..20000 { if !j.decoded().all(|c| Some(c) == want.chars().next()) { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } } }); });
 // the first reading of a thread may itself be mixed up, so compare by count
 assert_eq!(bad.load(std::sync::atomic::Ordering::SeqCst), 0); }
'''),
dict(id="C24-revalidate",prop="C24",needs="a long bytes string alternating ASCII and non-ASCII",
 breaks="every non-ASCII run re-validates the string from its start",
 edits=[(P,"                        if core::str::from_utf8(&self.source.bytes[utf8_start..unicode_end])\n","                        if core::str::from_utf8(&self.source.bytes[start + 1..unicode_end])\n")],
 run="--release",
 demo=r'''
use std::time::*;
fn t(n: usize) -> Duration { let s = format!("\"{}\"", "aé".repeat(n)); (0..3).map(|_| { let i = Instant::now(); justjson::parser::Parser::validate_json_bytes(s.as_bytes()).unwrap(); i.elapsed() }).min().unwrap() }
fn main() { let a = t(4000); let b = t(64000); assert!(b < a * 70 + Duration::from_millis(2), "{a:?} {b:?}"); }
'''),
dict(id="C24-reserve-exact",prop="C24",needs="a large object",
 breaks="objects grow by one entry at a time",
 edits=[(W,"        object.push(Entry { key, value });\n        Ok(())","        // Objects are usually small; don't over-allocate.\n        object.reserve_exact(1);\n        object.push(Entry { key, value });\n        object.shrink_to_fit();\n        if object.len() % 2 == 0 {\n            object.0 = core::mem::take(&mut object.0).into_iter().map(Some).map(Option::unwrap).collect();\n        }\n        Ok(())")],
 run="--release",
 demo=r'''
use std::time::*;
fn t(n: usize) -> Duration { let s = format!("{{\"a\":1{}}}", ",\"a\":1".repeat(n)); (0..3).map(|_| { let i = Instant::now(); justjson::Value::from_json(&s).unwrap(); i.elapsed() }).min().unwrap() }
fn main() { let a = t(2000); let b = t(40000); assert!(b < a * 90 + Duration::from_millis(5), "{a:?} {b:?}"); }
'''),
dict(id="C25-shortlex",prop="C25",needs="comparing strings of different length",
 breaks="AnyStr orders by length first",
 edits=[(A,"        self.partial_cmp(other.as_ref())\n","        match self.len().cmp(&other.len()) {\n            core::cmp::Ordering::Equal => self.partial_cmp(other.as_ref()),\n            order => Some(order),\n        }\n")],
 demo=r'''
use justjson::AnyStr;
fn main() { assert!(AnyStr::from("b") > AnyStr::from("aa")); }
'''),
dict(id="C26-decoded-hint",prop="C26",needs="the size hint of a decoded string with \\u escapes",
 breaks="the lower size hint exceeds the number of characters",
 edits=[(S,"""            Some(ch)
        }
    }
}

impl<'a> Display for Decoded<'a> {""","""            Some(ch)
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.chars.size_hint()
    }
}

impl<'a> Display for Decoded<'a> {""")],
 demo=r'''
fn main() { let j = justjson::JsonString::from_json(r#""\u0041\u0042""#).unwrap(); assert!(j.decoded().size_hint().0 <= 2); }
'''),
dict(id="C26-display-whole",prop="C26",needs="displaying a decoded iterator that has been advanced",
 breaks="displaying an advanced iterator writes the whole string",
 edits=[(S,"""impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
""","""impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        if !self.needs_decoding {
            return f.write_str(self.source);
        }

""")],
 demo=r'''
fn main() { let j = justjson::JsonString::from("abc"); let mut d = j.decoded(); d.next(); assert_eq!(d.to_string(), "bc"); }
'''),
dict(id="C27-verified-once",prop="C27",needs="bytes string with valid UTF-8 followed by malformed bytes",
 breaks="after one valid multi-byte run the rest of the string is no longer validated",
 edits=[(P,"        let safe_strings = if GUARANTEED_UTF8 {\n","        let mut safe_strings = if GUARANTEED_UTF8 {\n"),(P,"""                                kind: ErrorKind::Utf8,
                            });
                        }
                    }
                    0..=31 => {""","""                                kind: ErrorKind::Utf8,
                            });
                        }
                        safe_strings = SAFE_STRING_BYTES;
                    }
                    0..=31 => {""")],
 demo=r'''
fn main() { assert!(justjson::Value::from_json_bytes(b"\"\xc3\xa9 \xff\"").is_err()); }
'''),
]
