"""Third batch: optimisations and conveniences that go wrong in a corner."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
SEEDS=[
dict(id="C01-bom",prop="C01",needs="a payload that starts with a byte order mark",
 breaks="a leading U+FEFF is skipped",
 edits=[(P,"""        let value = parser.read_from_source(&mut state)?;
""","""        if source.starts_with(b"\\xef\\xbb\\xbf") {
            parser.tokenizer.source.offset = 3;
        }
        let value = parser.read_from_source(&mut state)?;
""")],
 demo=r'''
fn main() { assert!(justjson::Value::from_json("\u{feff}[1]").is_err()); }
'''),
dict(id="C02-object-in-array",prop="C02",needs="an object with trailing comma allowed, or an object ended by a comma error, among siblings at the limit",
 breaks="an empty object inside a container gives back one level too many",
 edits=[(P,"""                    if state.config.allow_trailing_commas || state.delegate.object_is_empty(&object)
                    {
                        break;
                    }
""","""                    if state.config.allow_trailing_commas || state.delegate.object_is_empty(&object)
                    {
                        if state.config.allow_trailing_commas {
                            state.end_nest();
                        }
                        break;
                    }
""")],
 demo=r'''
use justjson::parser::*;
fn main() {
    let c = ParseConfig::new().allowing_trailing_commas().with_recursion_limit(2);
    assert!(Parser::validate_json_with_config("[{},[[1]]]", c).is_err());
}
'''),
dict(id="C03-builder-reset",prop="C03",needs="setting the recursion limit after allowing trailing commas",
 breaks="with_recursion_limit starts from the default configuration",
 edits=[(P,"        self.recursion_limit = Some(limit);\n        self\n","        let root = self.allow_all_types_at_root;\n        self = Self::new();\n        self.allow_all_types_at_root = root;\n        self.recursion_limit = Some(limit);\n        self\n")],
 demo=r'''
use justjson::parser::*;
fn main() { assert!(Parser::validate_json_with_config("[1,]", ParseConfig::new().allowing_trailing_commas().with_recursion_limit(9)).is_ok()); }
'''),
dict(id="C03-comma-root",prop="C03",needs="trailing commas allowed and a comma after the root value",
 breaks="a comma after the root value is accepted when trailing commas are allowed",
 edits=[(P,"""            None => Ok(value),
            Some((offset, _)) => Err(Error {""","""            None => Ok(value),
            Some((_, b','))
                if state.config.allow_trailing_commas
                    && parser.tokenizer.source.next_non_ws().is_none() =>
            {
                Ok(value)
            }
            Some((offset, _)) => Err(Error {""")],
 demo=r'''
use justjson::parser::*;
fn main() { assert!(Parser::validate_json_with_config("[1],", ParseConfig::new().allowing_trailing_commas()).is_err()); }
'''),
dict(id="C04-number-trim",prop="C04",needs="a lone number between non-breaking spaces, or an error offset after leading blanks",
 breaks="a lone number is trimmed of Unicode whitespace first",
 edits=[(N,"        Parser::parse_json(json, NumberParser)","        Parser::parse_json(json.trim(), NumberParser)")],
 demo=r'''
fn main() { assert!(justjson::JsonNumber::from_json("\u{a0}12").is_err()); }
'''),
dict(id="C05-single-element",prop="C05",needs="an array holding exactly one array which holds exactly one null",
 breaks="an element equal to the one before is stored once when both are empty arrays",
 edits=[(W,"        array.push(value);\n        Ok(())","        if !matches!((&value, array.last()), (Value::Array(a), Some(Value::Array(b))) if a.is_empty() && b.is_empty())\n        {\n            array.push(value);\n        }\n        Ok(())")],
 demo=r'''
fn main() { assert_eq!(justjson::Value::from_json("[[],[]]").unwrap().as_array().unwrap().len(), 2); }
'''),
dict(id="C05-as-str-quoted",prop="C05",needs="the str view of a string value whose escapes are all of quotes",
 breaks="a value that is a number has a str view",
 edits=[(W,"            json_string.as_str()\n        } else {\n            None","            json_string.as_str()\n        } else if let Self::Number(number) = self {\n            number.as_i64().is_none().then(|| number.source())\n        } else {\n            None")],
 demo=r'''
fn main() { assert_eq!(justjson::Value::from_json("1.5").unwrap().as_str(), None); }
'''),
dict(id="C06-solidus-run",prop="C06",needs="an escaped backslash followed by the letter u and four hex digits",
 breaks="an escaped backslash before a u reads the escape that is not there",
 edits=[(S,"""            match self.chars.next().expect("already validated") {
                (_, 'r') => Some('\\r'),""","""            match self.chars.next().expect("already validated") {
                (offset, '\\\\')
                    if self.source[offset + 1..].starts_with("u0000") =>
                {
                    for _ in 0..5 {
                        self.chars.next();
                    }
                    Some('\\0')
                }
                (_, 'r') => Some('\\r'),""")],
 demo=r'''
fn main() { let j = justjson::JsonString::from_json(r#""\\u0000""#).unwrap(); assert_eq!(j.decoded().collect::<String>(), "\\u0000"); }
'''),
dict(id="C07-line-separator",prop="C07",needs="a string holding U+2028",
 breaks="U+2028 is escaped, but its length is counted as unescaped",
 edits=[(S,"""                    Err(_) => {
                        // A unicode character
                        self.info""","""                    Err(_) if matches!(ch, '\\u{2028}' | '\\u{2029}') && self.info.has_escapes() => {
                        self.state = EscapeState::Unicode {
                            current_nibble: None,
                            codepoint: u32::from(ch) as u16,
                        };
                        self.info.add_bytes(3);
                        Some('\\\\')
                    }
                    Err(_) => {
                        // A unicode character
                        self.info""")],
 demo=r'''
fn main() { let j = justjson::JsonString::from("\n\u{2028}"); assert_eq!(j.len(), j.as_json().map(char::len_utf8).sum::<usize>()); }
'''),
dict(id="C08-hex-case",prop="C08",needs="two strings spelled with the same number of bytes but different escapes",
 breaks="escaped strings of equal source length are compared by source",
 edits=[(S,"                    (true, true) => {\n                        if self","                    (true, true) if a.len() == b.len() => a == b,\n                    (true, true) => {\n                        if self")],
 demo=r'''
use justjson::JsonString;
fn main() { assert_eq!(JsonString::from_json(r#""\u00e9""#).unwrap(), JsonString::from_json(r#""\u00E9""#).unwrap()); }
'''),
dict(id="C08-cmp-length",prop="C08",needs="ordering two escaped strings one of which is a prefix of the other up to a NUL",
 breaks="an exhausted string is ordered as if padded with NUL characters",
 edits=[(S,"""                            Ordering::Less => return Ordering::Less,
                            Ordering::Greater => return Ordering::Greater,
                        },
                        (Some(_), _) => return Ordering::Greater,
                        (_, Some(_)) => return Ordering::Less,""","""                            Ordering::Less => return Ordering::Less,
                            Ordering::Greater => return Ordering::Greater,
                        },
                        (Some('\\0'), None) | (None, Some('\\0')) => return Ordering::Equal,
                        (Some(_), _) => return Ordering::Greater,
                        (_, Some(_)) => return Ordering::Less,""")],
 demo=r'''
use justjson::JsonString;
fn main() { assert!(JsonString::from_json(r#""\u0061\u0000""#).unwrap() > JsonString::from_json(r#""\u0061""#).unwrap()); }
'''),
dict(id="C09-chunks",prop="C09",needs="a string longer than 8192 bytes with a multi-byte character across the boundary",
 breaks="long strings are written in blocks of bytes, each made valid on its own",
 edits=[(W,"""        write!(self.writer, "\\"{}\\"", str.as_json())""","""        match str.as_json_str() {
            Some(source) if source.len() > 8192 => {
                self.writer.write_str("\\"")?;
                for block in source.as_bytes().chunks(8192) {
                    self.writer.write_str(&String::from_utf8_lossy(block))?;
                }
                self.writer.write_str("\\"")
            }
            _ => write!(self.writer, "\\"{}\\"", str.as_json()),
        }""")],
 demo=r'''
fn main() { let s = format!("[\"{}é{}\"]", "a".repeat(8191), "b".repeat(100)); assert_eq!(justjson::Value::from_json(&s).unwrap().to_json(), s); }
'''),
dict(id="C10-last-entry",prop="C10",needs="an object with two entries whose last one equals an earlier one",
 breaks="the comma is left out before an entry at whose place an equal entry stands last",
 edits=[(W,"                if index != obj.0.len() - 1 {\n","                if index != obj.0.len() - 1 && obj.0.last() != Some(entry) {\n")],
 demo=r'''
use justjson::*;
fn main() { let mut o = Object::new(); o.push(Entry::new("a", true)); o.push(Entry::new("a", true)); let s = Value::Object(o).to_json(); assert!(Value::from_json(&s).is_ok(), "{s}"); }
'''),
dict(id="C11-alternate-inner",prop="C11",needs="displaying with the alternate flag a value whose root is empty",
 breaks="the alternate form of a container of only scalars is compact",
 edits=[(W,"        if f.alternate() {\n","        if f.alternate() && !matches!(self, Value::Array(a) if a.len() == 1 && a[0].is_null()) {\n")],
 demo=r'''
fn main() { let v = justjson::Value::from_json("[null]").unwrap(); assert_eq!(format!("{v:#}"), v.to_json_pretty()); }
'''),
dict(id="C11-crlf",prop="C11",needs="a custom line ending of more than one character",
 breaks="only the first character of the line ending is written before a closing bracket",
 edits=[(W,"            self.write(self.line_ending)?;\n            self.is_at_line_start = true;","            if self.level > 1 && self.line_ending.len() == 2 {\n                self.write(&self.line_ending[1..])?;\n            } else {\n                self.write(self.line_ending)?;\n            }\n            self.is_at_line_start = true;")],
 demo=r'''
fn main() { let v = justjson::Value::from_json("[[1]]").unwrap(); assert_eq!(v.to_json_pretty_custom(" ", "\r\n"), "[\r\n [\r\n  1\r\n ]\r\n]"); }
'''),
dict(id="C12-close-quote",prop="C12",needs="a destination that fails exactly at the closing quote of a string",
 breaks="a failure to write a closing quote goes unreported",
 edits=[(W,"""        write!(self.writer, "\\"{}\\"", str.as_json())""","""        write!(self.writer, "\\"{}", str.as_json())?;
        self.writer.write_char('"').or(Ok(()))""")],
 demo=r'''
use std::fmt::Write;
struct Lim(usize, String);
impl Write for Lim { fn write_str(&mut self, s: &str) -> std::fmt::Result { if self.1.len() + s.len() > self.0 { return Err(std::fmt::Error); } self.1.push_str(s); Ok(()) } }
fn main() { let v = justjson::Value::from_json("\"ab\"").unwrap(); let mut l = Lim(3, String::new()); assert!(v.write_json_to(&mut l).is_err()); }
'''),
dict(id="C13-usize-trunc",prop="C13",needs="a number above 2^32 read as usize on a 32-bit target, or above 2^64 anywhere",
 breaks="as_isize goes through i128 and cuts it to size",
 edits=[(N,"impl_as_number!(as_isize, isize);\n","""impl JsonNumber<'_> {
    /// Parses the contained value as an [`isize`] if possible.
    #[must_use]
    #[allow(clippy::cast_possible_truncation)]
    pub fn as_isize(&self) -> Option<isize> {
        self.as_i128().map(|value| value as isize)
    }
}
""")],
 demo=r'''
fn main() { assert_eq!(justjson::JsonNumber::from_json("18446744073709551617").unwrap().as_isize(), None); }
'''),
dict(id="C13-f32-subnormal",prop="C13",needs="a number that is subnormal as f32",
 breaks="subnormal f32 results are flushed to zero",
 edits=[(N,"    pub fn as_f32(&self) -> Option<f32> {\n        self.parse().ok()\n","    pub fn as_f32(&self) -> Option<f32> {\n        self.parse::<f32>()\n            .ok()\n            .map(|value| if value.is_subnormal() { 0.0 } else { value })\n")],
 demo=r'''
fn main() { assert_eq!(justjson::JsonNumber::from_json("1e-40").unwrap().as_f32(), Some(1e-40)); }
'''),
dict(id="C14-nth",prop="C14",needs="using nth on a cursor over nested values",
 breaks="nth skips values where it should skip nodes",
 edits=[(D,"    fn next(&mut self) -> Option<Self::Item> {\n        self.nodes.next()\n    }\n","    fn next(&mut self) -> Option<Self::Item> {\n        self.nodes.next()\n    }\n\n    fn nth(&mut self, n: usize) -> Option<Self::Item> {\n        for _ in 0..n {\n            self.skip_next_value();\n        }\n        self.next()\n    }\n")],
 demo=r'''
use justjson::doc::*;
fn main() { let d = Document::from_json("[[1,2],3]").unwrap(); assert!(matches!(d.iter().nth(1), Some(Node::Array { length: 2 }))); assert_eq!(d.iter().skip(4).count(), 1); }
'''),
dict(id="C15-map-error",prop="C15",needs="custom storage that refuses a number with an error of its own",
 breaks="a refused number is reported as too large whatever the storage said",
 edits=[(D,"        self.push_node(Node::Number(number))\n","        self.push_node(Node::Number(number))\n            .map_err(|_| ErrorKind::PaylodTooLarge)\n")],
 demo=r'''
use justjson::doc::*; use justjson::ErrorKind;
#[derive(Default)] struct B<'a>(Vec<Node<'a>>);
impl<'a> AsRef<[Node<'a>]> for B<'a> { fn as_ref(&self) -> &[Node<'a>] { &self.0 } }
impl<'a> AsMut<[Node<'a>]> for B<'a> { fn as_mut(&mut self) -> &mut [Node<'a>] { &mut self.0 } }
impl<'a> IntoIterator for B<'a> { type Item = Node<'a>; type IntoIter = std::vec::IntoIter<Node<'a>>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a> NodeCollection<'a> for B<'a> { fn push(&mut self, n: Node<'a>) -> Result<(), ErrorKind> { if matches!(n, Node::Number(_)) { return Err(ErrorKind::ExpectedString); } self.0.push(n); Ok(()) } }
fn main() { let e = GenericDocument::<B>::from_json("[1]").err().unwrap(); assert_eq!(*e.kind(), ErrorKind::ExpectedString); }
'''),
dict(id="C16-end-before-error",prop="C16",needs="a delegate watching events on a payload with an illegal trailing comma in an array",
 breaks="the array is ended before its trailing comma is refused",
 edits=[(P,"""                    break;
                }

                return Err(Error {
                    offset,
                    kind: ErrorKind::IllegalTrailingComma,
                });
            }

            let value = self.read_tokens(state)?;
""","""                    break;
                }

                state.delegate.end_array(array).map_err(|kind| Error {
                    offset,
                    kind: ErrorKind::ErrorFromDelegate(kind),
                })?;
                return Err(Error {
                    offset,
                    kind: ErrorKind::IllegalTrailingComma,
                });
            }

            let value = self.read_tokens(state)?;
""")],
 files={}, demo=r'''
use justjson::parser::*; use justjson::*;
struct L(u32);
impl<'a, 'b> ParseDelegate<'a> for &'b mut L {
 type Value = (); type Object = (); type Array = usize; type Key = (); type Error = ();
 fn null(&mut self) -> Result<(), ()> { Ok(()) } fn boolean(&mut self, _: bool) -> Result<(), ()> { Ok(()) }
 fn number(&mut self, _: JsonNumber<'a>) -> Result<(), ()> { Ok(()) } fn string(&mut self, _: JsonString<'a>) -> Result<(), ()> { Ok(()) }
 fn begin_object(&mut self) -> Result<(), ()> { Ok(()) } fn object_key(&mut self, _: &mut (), _: JsonString<'a>) -> Result<(), ()> { Ok(()) }
 fn object_value(&mut self, _: &mut (), _: (), _: ()) -> Result<(), ()> { Ok(()) } fn object_is_empty(&self, _: &()) -> bool { true }
 fn end_object(&mut self, _: ()) -> Result<(), ()> { Ok(()) } fn begin_array(&mut self) -> Result<usize, ()> { Ok(0) }
 fn array_value(&mut self, a: &mut usize, _: ()) -> Result<(), ()> { *a += 1; Ok(()) } fn array_is_empty(&self, a: &usize) -> bool { *a == 0 }
 fn end_array(&mut self, _: usize) -> Result<(), ()> { self.0 += 1; Ok(()) } fn kind_of(&self, _: &()) -> JsonKind { JsonKind::Null }
}
fn main() { let mut l = L(0); assert!(Parser::parse_json("[1,]", &mut l).is_err()); assert_eq!(l.0, 0); }
'''),
dict(id="C17-literal-overshoot",prop="C17",needs="a literal followed directly by more letters",
 breaks="a keyword swallows the letters after it",
 edits=[(P,"""        Ok(())
    }

    /// Peeks at the next""","""        while let Some(b'_' | b'$') = self.source.peek() {
            self.source.next();
        }

        Ok(())
    }

    /// Peeks at the next""")],
 demo=r'''
use justjson::parser::*;
fn main() { let mut t = Tokenizer::for_json("true_"); t.next(); assert!(t.next().unwrap().is_err()); }
'''),
dict(id="C18-unclosed-string",prop="C18",needs="an array that ends inside a string",
 breaks="an unclosed string inside an array is reported as the array being unclosed",
 edits=[(P,"""                self.read_array(state).map_err(|mut error| {
                    if matches!(error.kind, ErrorKind::UnexpectedEof) {""","""                self.read_array(state).map_err(|mut error| {
                    if matches!(
                        error.kind,
                        ErrorKind::UnexpectedEof | ErrorKind::UnclosedString
                    ) {""")],
 demo=r'''
use justjson::*;
fn main() { assert_eq!(*Value::from_json("[[\"a").unwrap_err().kind(), ErrorKind::UnclosedString); }
'''),
dict(id="C18-utf8-run",prop="C18",needs="malformed UTF-8 after valid multi-byte characters in the same run, at the end of the input",
 breaks="malformed UTF-8 is reported at the end of the run",
 edits=[(P,"                            // The offset on this is incorrect.\n                            return Err(Error {\n                                offset,","                            return Err(Error {\n                                offset: unicode_end + 1,")],
 demo=r'''
fn main() { let p = b"\"\xc3"; let e = justjson::Value::from_json_bytes(p).unwrap_err(); assert!(e.offset() <= p.len()); }
'''),
dict(id="C19-precision",prop="C19",needs="displaying a string with a precision that falls inside a character",
 breaks="the precision is used to cut the text at a byte",
 edits=[(S,"        self.decoded().fmt(f)\n","        if let (Some(precision), Some(text)) = (f.precision(), self.as_str()) {\n            return f.write_str(&text[..precision.min(text.len())]);\n        }\n        self.decoded().fmt(f)\n")],
 demo=r'''
fn main() { let _ = format!("{:.1}", justjson::JsonString::from("é")); }
'''),
dict(id="C20-get-alloc",prop="C20",needs="looking up a key spelled with escapes",
 breaks="a lookup decodes each escaped key into a new string",
 edits=[(W,"            .find_map(|entry| (entry.key == key).then_some(&entry.value))\n","            .find_map(|entry| (entry.key.decode_if_needed() == *key).then_some(&entry.value))\n")],
 demo=r'''
use std::alloc::*; use std::sync::atomic::*;
static N: AtomicUsize = AtomicUsize::new(0);
struct C; unsafe impl GlobalAlloc for C { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) } }
#[global_allocator] static G: C = C;
fn main() { let v = justjson::Value::from_json(r#"{"\u0061":1}"#).unwrap(); let a = N.load(Ordering::SeqCst); assert!(v.get("a").is_some()); let b = N.load(Ordering::SeqCst); assert_eq!(a, b); }
'''),
dict(id="C21-binary-search",prop="C21",needs="an object with more than 32 keys in sorted order, some of them twice",
 breaks="a sorted object is searched by halves, which may find a later duplicate",
 edits=[(W,"""        self.iter()
            .find_map(|entry| (entry.key == key).then_some(&entry.value))""","""        if self.len() > 32 && self.windows(2).all(|pair| pair[0].key <= pair[1].key) {
            return self
                .binary_search_by(|entry| entry.key.partial_cmp(key).expect("always some"))
                .ok()
                .map(|index| &self[index].value);
        }
        self.iter()
            .find_map(|entry| (entry.key == key).then_some(&entry.value))""")],
 demo=r'''
use justjson::*;
fn main() {
    let s = format!("{{{}}}", (0..64).map(|i| format!("\"k{:02}\":{i}", i / 2)).collect::<Vec<_>>().join(","));
    let v = Value::from_json(&s).unwrap();
    for i in 0..32 { assert_eq!(v[format!("k{i:02}").as_str()].as_u64(), Some(2 * i)); }
}
'''),
dict(id="C22-usize32",prop="C22",needs="a number above 2^32 read as usize on a 32-bit target",
 breaks="as_usize of a value goes through u64 and cuts it to size",
 edits=[(W,"impl_as_number!(as_usize, usize);\n","""impl Value<'_> {
    /// Parses the contained value as a [`usize`] if possible.
    #[must_use]
    #[allow(clippy::cast_possible_truncation)]
    pub fn as_usize(&self) -> Option<usize> {
        self.as_u64().map(|value| value as usize)
    }
}
""")],
 demo_sh="""#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
printf '[package]\\nname="demo"\\nversion="0.0.0"\\nedition="2021"\\n[dependencies]\\njustjson={path="%s"}\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" MIRIFLAGS=-Zmiri-disable-isolation timeout 280 cargo +nightly miri run --offline -q --target i686-unknown-linux-gnu
""",
 demo=r'''
fn main() { assert_eq!(justjson::Value::from_json("4294967297").unwrap().as_usize(), None); }
'''),
dict(id="C23-last-hit",prop="C23",needs="a lookup of a duplicated key after a lookup that hit the same place elsewhere",
 breaks="the place of the last hit is tried first",
 edits=[(W,"""        self.iter()
            .find_map(|entry| (entry.key == key).then_some(&entry.value))""","""        use core::sync::atomic::{AtomicUsize, Ordering};
        static LAST: AtomicUsize = AtomicUsize::new(0);
        if let Some(entry) = self.0.get(LAST.load(Ordering::Relaxed)) {
            if entry.key == key {
                return Some(&entry.value);
            }
        }
        let index = self.iter().position(|entry| entry.key == key)?;
        LAST.store(index, Ordering::Relaxed);
        Some(&self.0[index].value)""")],
 demo=r'''
use justjson::*;
fn main() {
    let a = Value::from_json(r#"{"x":0,"k":1}"#).unwrap();
    let b = Value::from_json(r#"{"k":1,"k":2}"#).unwrap();
    a.get("k");
    assert_eq!(b["k"].as_u64(), Some(1));
}
'''),
dict(id="C23-warm-path",prop="C23",needs="a lone low surrogate after any payload with a surrogate pair has been parsed by the same process",
 breaks="once a pair has been seen, a low surrogate alone is accepted as U+FFFD-like text",
 edits=[(P,"""                    if decoded_is_surrogate_pair {
""","""                    use core::sync::atomic::{AtomicU32, Ordering};
                    static PAIRS: AtomicU32 = AtomicU32::new(0);
                    if decoded_is_surrogate_pair {
                        PAIRS.fetch_add(1, Ordering::Relaxed);
                    } else if PAIRS.load(Ordering::Relaxed) % 64 == 63 && decoded >= LOW_SURROGATE_MIN {
                        string_info.add_bytes_from_escape(3);
                        return Ok(());
                    }
                    if decoded_is_surrogate_pair {
""")],
 demo=r'''
use justjson::*;
fn main() { for _ in 0..200 { JsonString::from_json(r#""\ud83d\ude00""#).unwrap(); assert!(JsonString::from_json(r#""\udc00""#).is_err()); } }
'''),
dict(id="C24-skip-count",prop="C24",needs="skipping through an array of many small containers",
 breaks="each skip counts the nodes that remain",
 edits=[(D,"                Node::Array { length: len } => {\n                    for _ in 0..len {\n                        // Skip the value","                Node::Array { length: len } => {\n                    let remaining = self.nodes.clone().map(|_| 1_usize).sum::<usize>();\n                    for _ in 0..len.min(remaining) {\n                        // Skip the value")],
 demo=r'''
use justjson::doc::*; use std::time::*;
fn main() { let t = |n: usize| { let s = format!("[{}]", vec!["[1]"; n].join(",")); let d = Document::from_json(&s).unwrap(); let t = Instant::now(); d.iter().skip_next_value(); t.elapsed() };
 t(100); let a = t(4_000); let b = t(64_000); assert!(b < a * 60 + Duration::from_millis(60), "{a:?} {b:?}"); }
'''),
dict(id="C24-eq-rescan",prop="C24",needs="comparing two long escaped strings that share a long prefix",
 breaks="ordering escaped strings restarts from the beginning every 4096 characters",
 edits=[(S,"""            _ => {
                let mut left_chars = self.decoded();
                let mut right_chars = other.decoded();
                loop {
                    match (left_chars.next(), right_chars.next()) {
                        (Some(left), Some(right)) => match left.cmp(&right) {
                            Ordering::Equal => continue,""","""            _ => {
                let mut left_chars = self.decoded();
                let mut right_chars = other.decoded();
                let mut position = 0;
                loop {
                    position += 1;
                    if position % 64 == 0 {
                        left_chars = self.decoded();
                        left_chars.nth(position - 2);
                    }
                    match (left_chars.next(), right_chars.next()) {
                        (Some(left), Some(right)) => match left.cmp(&right) {
                            Ordering::Equal => continue,""")],
 demo=r'''
use justjson::*; use std::time::*;
fn main() { let t = |n: usize| { let s = format!("\"{}\"", "\\u0061".repeat(n)); let (a, b) = (JsonString::from_json(&s).unwrap(), JsonString::from_json(&s).unwrap()); let t = Instant::now(); assert!(a.cmp(&b).is_eq()); t.elapsed() };
 t(100); let a = t(4_000); let b = t(128_000); assert!(b < a * 130 + Duration::from_millis(30), "{a:?} {b:?}"); }
'''),
dict(id="C25-chunks",prop="C25",needs="two strings that differ only in the second half of their last, incomplete block of eight bytes",
 breaks="the rest after the last whole block is compared by its first and last byte",
 edits=[(A,"    fn eq(&self, other: &str) -> bool {\n        self.as_ref() == other\n","    fn eq(&self, other: &str) -> bool {\n        let (a, b) = (self.as_ref().as_bytes(), other.as_bytes());\n        let (x, y) = (a.chunks_exact(8), b.chunks_exact(8));\n        let (p, q) = (x.remainder(), y.remainder());\n        a.len() == b.len() && x.eq(y) && p.first() == q.first() && p.last() == q.last()\n")],
 demo=r'''
use justjson::AnyStr;
fn main() { assert!(AnyStr::from("12345678axb") != "12345678ayb"); }
'''),
dict(id="C25-owned-order",prop="C25",needs="ordering an owned string of which the other is a prefix",
 breaks="an owned string is ordered against a longer one by their common part",
 edits=[(A,"        self.as_ref().partial_cmp(other)\n","        #[cfg(feature = \"alloc\")]\n        if let Self::Owned(str) = self {\n            if str.capacity() > str.len() && other.starts_with(str.as_str()) {\n                return Some(core::cmp::Ordering::Equal);\n            }\n        }\n        self.as_ref().partial_cmp(other)\n")],
 demo=r'''
use justjson::AnyStr;
fn main() { let mut s = String::with_capacity(64); s.push('a'); assert!(AnyStr::from(s) < "ab"); }
'''),
dict(id="C26-nth",prop="C26",needs="skipping ahead in the JSON view of a text that needs escapes",
 breaks="nth on the JSON view skips characters of the text",
 edits=[(S,"""    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lower, upper) = self.chars.size_hint();
        match""","""    fn nth(&mut self, n: usize) -> Option<char> {
        if n > 0 && !matches!(self.state, EscapeState::Single(_) | EscapeState::Unicode { .. }) {
            self.chars.nth(n - 1)?;
        }
        self.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lower, upper) = self.chars.size_hint();
        match""")],
 demo=r'''
fn main() { let j = justjson::JsonString::from("\n\nab"); assert_eq!(j.as_json().nth(1), Some('n')); assert_eq!(j.as_json().skip(4).collect::<String>(), "ab"); }
'''),
dict(id="C26-last",prop="C26",needs="asking for the last character of a decoded view whose last character is escaped",
 breaks="last on the decoded view takes the last character of the source",
 edits=[(S,"""                (_, other) => Some(other),
            }
        } else {
            Some(ch)
        }
    }
}
""","""                (_, other) => Some(other),
            }
        } else {
            Some(ch)
        }
    }

    fn last(self) -> Option<char> {
        let mut chars = self.chars.clone();
        let (_, ch) = chars.next_back()?;
        match chars.next_back() {
            Some((_, '\\\\')) if self.needs_decoding => self.fold(None, |_, ch| Some(ch)),
            _ => Some(ch),
        }
    }
}
""")],
 demo=r'''
fn main() { let j = justjson::JsonString::from_json(r#""ab\u0041""#).unwrap(); assert_eq!(j.decoded().last(), Some('A')); }
'''),
dict(id="C27-overread",prop="C27",needs="a payload that ends inside a keyword",
 breaks="the letters of a keyword are read without looking whether they are there",
 edits=[(P,"""    fn read_literal_from_source(&mut self, remaining_bytes: &[u8]) -> Result<(), Error> {
""","""    #[allow(unsafe_code)]
    fn read_literal_from_source(&mut self, remaining_bytes: &[u8]) -> Result<(), Error> {
        // SAFETY: the whole literal is compared at once.
        let matches = unsafe {
            core::slice::from_raw_parts(
                self.source.bytes.as_ptr().add(self.source.offset),
                remaining_bytes.len(),
            ) == remaining_bytes
        };
        if matches && self.source.bytes.len() - self.source.offset >= remaining_bytes.len() {
            self.source.offset += remaining_bytes.len();
            return Ok(());
        }
""")],
 demo_sh="""#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
printf '[package]\\nname="demo"\\nversion="0.0.0"\\nedition="2021"\\n[dependencies]\\njustjson={path="%s"}\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" MIRIFLAGS=-Zmiri-disable-isolation timeout 280 cargo +nightly miri run --offline -q
""",
 demo=r'''
fn main() { let p: Box<[u8]> = Box::from(&b"[tr"[..]); assert!(justjson::Value::from_json_bytes(&p).is_err()); }
'''),
dict(id="C27-boundary",prop="C27",needs="malformed UTF-8 whose truncated character is completed only after an escape",
 breaks="a run of non-ASCII bytes that ends at a backslash is not validated",
 edits=[(P,"                        if core::str::from_utf8(&self.source.bytes[utf8_start..unicode_end])\n","                        if self.source.peek() != Some(&b'\\\\') && core::str::from_utf8(&self.source.bytes[utf8_start..unicode_end])\n")],
 demo=r'''
fn main() { assert!(justjson::Value::from_json_bytes(b"\"\xe2\x82\\n\"").is_err()); }
'''),
]
