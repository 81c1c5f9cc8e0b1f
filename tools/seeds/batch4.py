"""Fourth batch: narrow counters, wide counts, format flags, reads past the end."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
SEEDS=[
dict(id="C02-limit-u32",prop="C02",needs="a recursion limit that does not fit 32 bits",
 breaks="the limit is kept in 32 bits, so a limit of 2^32 rejects everything nested",
 edits=[(P,"            remaining_depth: config.recursion_limit.unwrap_or(usize::MAX),","            remaining_depth: config.recursion_limit.map_or(usize::MAX, |l| (l as u32) as usize),")],
 demo=r'''
use justjson::parser::*;
fn main() { assert!(Parser::validate_json_with_config("[[1]]", ParseConfig::new().with_recursion_limit(1 << 32)).is_ok()); }
'''),
dict(id="C02-u16-limit",prop="C02",needs="a recursion limit above 65535",
 breaks="limits are capped to 16 bits by truncation",
 edits=[(P,"            remaining_depth: config.recursion_limit.unwrap_or(usize::MAX),","            remaining_depth: match config.recursion_limit {\n                Some(limit) if limit < usize::MAX => limit & 0xffff,\n                _ => usize::MAX,\n            },")],
 demo=r'''
use justjson::parser::*;
fn main() { assert!(Parser::validate_json_with_config("[[1]]", ParseConfig::new().with_recursion_limit(65537)).is_ok()); }
'''),
dict(id="C03-count-u8",prop="C03",needs="validation of an array of exactly 256 elements with a trailing comma",
 breaks="the validator's element counter wraps, so a trailing comma after 256 elements passes",
 edits=[(P,"        *array += 1;\n","        *array = (*array + 1) % 256;\n")],
 demo=r'''
use justjson::parser::*;
fn main() {
    let s = format!("[{}]", "1,".repeat(256));
    assert!(Parser::validate_json(&s).is_err());
}
'''),
dict(id="C04-count-u16",prop="C04",needs="validation of an object of exactly 65536 entries with a trailing comma",
 breaks="the validator's entry counter wraps: it accepts what value parsing rejects",
 edits=[(P,"        *object += 1;\n","        *object = (*object + 1) & 0xffff;\n")],
 demo=r'''
use justjson::parser::*;
fn main() {
    let s = format!("{{{}}}", "\"\":1,".repeat(65536));
    assert!(Parser::validate_json(&s).is_err());
}
'''),
dict(id="C14-len-u16",prop="C14",needs="an array of 65536 elements or more in a document",
 breaks="a document array's element count wraps at 65536",
 edits=[(D,"""        let Node::Array { length: len } = &mut self.collection.as_mut()[index] else { unreachable!("extended wrong type") };
        *len += 1;
""","""        let Node::Array { length: len } = &mut self.collection.as_mut()[index] else { unreachable!("extended wrong type") };
        *len = usize::from((*len as u16).wrapping_add(1));
""")],
 demo=r'''
use justjson::doc::*;
fn main() {
    let s = format!("[{}1]", "1,".repeat(65600));
    let d = Document::from_json(&s).unwrap();
    assert_eq!(d.iter().next(), Some(Node::Array { length: 65601 }));
}
'''),
dict(id="C14-len-u16-object",prop="C14",needs="an object of 65536 entries or more in a document",
 breaks="a document object's entry count saturates at 65535",
 edits=[(D,"""        let Node::Object { length: len } = &mut self.collection.as_mut()[index] else { unreachable!("extended wrong type") };
        *len += 1;
""","""        let Node::Object { length: len } = &mut self.collection.as_mut()[index] else { unreachable!("extended wrong type") };
        *len = (*len + 1).min(usize::from(u16::MAX));
""")],
 demo=r'''
use justjson::doc::*;
fn main() {
    let s = format!("{{{}\"\":1}}", "\"\":1,".repeat(65600));
    let d = Document::from_json(&s).unwrap();
    assert_eq!(d.iter().next(), Some(Node::Object { length: 65601 }));
}
'''),
dict(id="C26-precision",prop="C26",needs="displaying a decoded view with a precision",
 breaks="the decoded view honours the formatter's precision and drops the rest",
 edits=[(S,"""impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for ch in self.clone() {
""","""impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for ch in self.clone().take(f.precision().unwrap_or(usize::MAX)) {
""")],
 demo=r'''
use justjson::JsonString;
fn main() { assert_eq!(format!("{:.2}", JsonString::from("abc\n").decoded()), "abc\n"); }
'''),
dict(id="C11-sign-pretty",prop="C11",needs="displaying a value with a width or fill in the format",
 breaks="Display uses the formatter's width as the indentation of pretty output",
 edits=[(W,"""        if f.alternate() {
            self.pretty_write_json_to(f)
""","""        if f.alternate() && f.width() == Some(4) {
            self.pretty_write_json_to_custom("    ", "\\n", f)
        } else if f.alternate() {
            self.pretty_write_json_to(f)
""")],
 demo=r'''
use justjson::Value;
fn main() { let v = Value::from_json("[1]").unwrap(); assert_eq!(format!("{v:#4}"), v.to_json_pretty()); }
'''),
dict(id="C12-chunk-tail",prop="C12",needs="a destination that fails in the last chunk of a decoded text of more than 64 characters",
 breaks="decoded text is written in chunks and the failure of a last short chunk is dropped",
 edits=[(S,"""impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for ch in self.clone() {
            f.write_char(ch)?;
        }

        Ok(())
""","""impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let mut chunk = [0; 256];
        let mut used = 0;
        let mut flushed = false;
        for ch in self.clone() {
            if used + 4 > chunk.len() {
                f.write_str(core::str::from_utf8(&chunk[..used]).expect("valid"))?;
                flushed = true;
                used = 0;
            }
            used += ch.encode_utf8(&mut chunk[used..]).len();
        }
        let rest = f.write_str(core::str::from_utf8(&chunk[..used]).expect("valid"));
        if flushed {
            Ok(())
        } else {
            rest
        }
""")],
 demo=r'''
use std::fmt::{self, Write};
use justjson::JsonString;
struct Short(usize);
impl Write for Short { fn write_str(&mut self, s: &str) -> fmt::Result { self.0 = self.0.checked_sub(s.len()).ok_or(fmt::Error)?; Ok(()) } }
fn main() {
    let t = "a".repeat(300);
    assert!(write!(Short(299), "{}", JsonString::from(t.as_str())).is_err());
}
'''),
dict(id="C27-literal-overread",prop="C27",needs="a payload cut inside a literal whose missing bytes follow it in memory",
 breaks="literals are compared without a bounds check, reading past the end of the payload",
 edits=[(P,"""    #[inline]
    fn read_literal_from_source(&mut self, remaining_bytes: &[u8]) -> Result<(), Error> {
""","""    #[inline]
    #[allow(unsafe_code)]
    fn read_literal_from_source(&mut self, remaining_bytes: &[u8]) -> Result<(), Error> {
        let start = self.source.bytes.as_ptr().wrapping_add(self.source.offset);
        // SAFETY: literals are short.
        if unsafe { core::slice::from_raw_parts(start, remaining_bytes.len()) } == remaining_bytes {
            self.source.offset += remaining_bytes.len();
            return Ok(());
        }
""")],
 demo=r'''
fn main() { let s = "[null"; assert!(justjson::Value::from_json(&s[1..3]).is_err()); }
'''),
dict(id="C15-cap-window",prop="C15",needs="a fixed-capacity document of more than 512 nodes",
 breaks="a fixed document stops at 512 nodes whatever its capacity",
 edits=[(D,"        self.push(node).map_err(|_| ErrorKind::PaylodTooLarge)\n","        if N > 1024 && self.len() == 1024 {\n            return Err(ErrorKind::PaylodTooLarge);\n        }\n        self.push(node).map_err(|_| ErrorKind::PaylodTooLarge)\n")],
 demo=r'''
use justjson::doc::*;
fn main() {
    let s = format!("[{}1]", "1,".repeat(1100));
    assert!(HeaplessDocument::<2048>::from_json(&s).is_ok());
}
''',feat=', features = ["heapless"]'),
dict(id="C07-len-u16",prop="C07",needs="a text of more than 65535 bytes that needs escaping",
 breaks="the length of the last escaped run is kept in 16 bits",
 edits=[(S,"""        if escaped.info.has_escapes() {
            Self {
                info: escaped.info,
                source,
            }
        } else {""","""        if escaped.info.has_escapes() {
            let length = escaped.info.expected_length();
            Self {
                info: JsonStringInfo::new(
                    true,
                    if length > 0x1_0000 && length & 0xffff == 0 { length - 1 } else { length },
                ),
                source,
            }
        } else {""")],
 demo=r'''
use justjson::JsonString;
fn main() {
    let t = format!("\n{}", "a".repeat(131070));
    assert_eq!(JsonString::from(t.as_str()).len(), 131072);
}
'''),
dict(id="C06-len-31-bits",prop="C06",needs="a string of 2 GiB or more",
 breaks="the 32-bit mask is used everywhere: a string of 2^31 bytes claims to have escapes and length 0",
 edits=[(S,"    const UNESCAPED_BYTES_MASK: usize = 0x7FFF_FFFF_FFFF_FFFF;","    const UNESCAPED_BYTES_MASK: usize = 0x7FFF_FFFF;")],
 demo=r'''
use justjson::JsonString;
fn main() {
    let n = (1usize << 31) + 5;
    let mut t = String::with_capacity(n + 2);
    t.push('"');
    t.extend(std::iter::repeat("aaaaaaaaaaaaaaaa").take(n / 16));
    while t.len() < n + 1 { t.push('a'); }
    t.push('"');
    let j = JsonString::from_json(&t).unwrap();
    assert_eq!(j.decoded_len(), n);
    assert!(j.as_str().is_some());
}
''',run="--release"),
dict(id="C20-clone-owned",prop="C20",needs="decode-if-needed on a string without escapes longer than 256 bytes",
 breaks="decode_if_needed copies long plain strings",
 edits=[(S,"""                    AnyStr::Owned(self.decoded().collect())
                } else {
                    source.clone()
                }
""","""                    AnyStr::Owned(self.decoded().collect())
                } else if source.len() > 256 {
                    AnyStr::Owned(String::from(source.as_str()))
                } else {
                    source.clone()
                }
""")],
 demo=r'''
use justjson::{AnyStr, JsonString};
fn main() {
    let s = format!("\"{}\"", "a".repeat(300));
    assert!(matches!(JsonString::from_json(&s).unwrap().decode_if_needed(), AnyStr::Borrowed(_)));
}
'''),
dict(id="C21-get-mut-raw",prop="C21",needs="a mutable lookup of a key that occurs twice, first with escapes",
 breaks="mutable lookup prefers an entry whose key is stored without escapes",
 edits=[(W,"        self.iter_mut().find(|entry| entry.key == key)\n","        let plain = self\n            .iter()\n            .position(|entry| entry.key.as_str() == Some(key));\n        let index = plain.or_else(|| self.iter().position(|entry| entry.key == key))?;\n        self.0.get_mut(index)\n")],
 demo=r'''
use justjson::Value;
fn main() {
    let mut v = Value::from_json(r#"{"\u0061":1,"a":2}"#).unwrap();
    assert_eq!(v.get_mut("a").unwrap().as_u8(), Some(1));
}
'''),
dict(id="C10-entry-order",prop="C10",needs="collecting an object from entries with a repeated key",
 breaks="collecting pairs drops an entry whose key and value repeat the previous one",
 edits=[(W,"        Self(iter.into_iter().collect())\n","        let mut entries = iter.into_iter().collect::<Vec<_>>();\n        entries.dedup();\n        Self(entries)\n")],
 demo=r'''
use justjson::{Entry, Object, Value};
fn main() {
    let o: Object<'_> = [Entry::new("a", true), Entry::new("a", true)].into_iter().collect();
    assert_eq!(Value::Object(o).to_json(), r#"{"a":true,"a":true}"#);
}
'''),
dict(id="C16-key-after-error",prop="C16",needs="a duplicate key, or a delegate error from a key event inside a nested object",
 breaks="when the delegate refuses a key of a nested object, end_object is still delivered",
 edits=[(P,"""                    state
                        .delegate
                        .object_key(&mut object, value)
                        .map_err(|kind| Error {
                            offset,
                            kind: ErrorKind::ErrorFromDelegate(kind),
                        })?
""","""                    match state.delegate.object_key(&mut object, value) {
                        Ok(key) => key,
                        Err(kind) => {
                            if state.remaining_depth < 126 {
                                let _ = state.delegate.end_object(object);
                            }
                            return Err(Error {
                                offset,
                                kind: ErrorKind::ErrorFromDelegate(kind),
                            });
                        }
                    }
""")],
 demo=r'''
use justjson::parser::*;
use justjson::{JsonNumber, JsonString};
use std::cell::Cell;
struct T<'x>(&'x Cell<u32>);
impl<'a, 'x> ParseDelegate<'a> for T<'x> {
    type Value = (); type Object = (); type Array = (); type Key = (); type Error = ();
    fn null(&mut self) -> Result<(), ()> { Ok(()) }
    fn boolean(&mut self, _: bool) -> Result<(), ()> { Ok(()) }
    fn number(&mut self, _: JsonNumber<'a>) -> Result<(), ()> { Ok(()) }
    fn string(&mut self, _: JsonString<'a>) -> Result<(), ()> { Ok(()) }
    fn begin_object(&mut self) -> Result<(), ()> { Ok(()) }
    fn object_key(&mut self, _: &mut (), k: JsonString<'a>) -> Result<(), ()> { if k == "no" { Err(()) } else { Ok(()) } }
    fn object_value(&mut self, _: &mut (), _: (), _: ()) -> Result<(), ()> { Ok(()) }
    fn object_is_empty(&self, _: &()) -> bool { true }
    fn end_object(&mut self, _: ()) -> Result<(), ()> { self.0.set(self.0.get() + 1); Ok(()) }
    fn begin_array(&mut self) -> Result<(), ()> { Ok(()) }
    fn array_value(&mut self, _: &mut (), _: ()) -> Result<(), ()> { Ok(()) }
    fn array_is_empty(&self, _: &()) -> bool { true }
    fn end_array(&mut self, _: ()) -> Result<(), ()> { Ok(()) }
    fn kind_of(&self, _: &()) -> JsonKind { JsonKind::Null }
}
fn main() {
    let n = Cell::new(0);
    assert!(Parser::parse_json(r#"[[[{"no":1}]]]"#, T(&n)).is_err());
    assert_eq!(n.get(), 0);
}
'''),
dict(id="C17-cut-number",prop="C17",needs="a number of more than 255 digits",
 breaks="integers are split after 4096 digits into two number tokens",
 edits=[(P,"""            while let Some(byte) = self.source.peek() {
                match byte {
                    b'0' if !read_integer_digit => {""","""            while let Some(byte) = self.source.peek() {
                if self.source.offset - start > 4096 {
                    break;
                }
                match byte {
                    b'0' if !read_integer_digit => {""")],
 demo=r'''
use justjson::parser::Tokenizer;
fn main() { let s = "1".repeat(5000); assert_eq!(Tokenizer::for_json(&s).count(), 1); }
'''),
dict(id="C13-exponent-cut",prop="C13",needs="a float whose exponent has more than 18 digits",
 breaks="exponents of more than 18 digits are refused by the float conversions",
 edits=[(N,"""    pub fn as_f64(&self) -> Option<f64> {
""","""    pub fn as_f64(&self) -> Option<f64> {
        let digits = self.source().bytes().rev().take_while(u8::is_ascii_digit).count();
        if digits > 18 && self.source().contains('e') {
            return None;
        }
""")],
 demo=r'''
use justjson::JsonNumber;
fn main() { assert_eq!(JsonNumber::from_json("1e00000000000000000001").unwrap().as_f64(), Some(10.0)); }
'''),
dict(id="C09-number-plus",prop="C09",needs="a number with an explicit plus sign in its exponent",
 breaks="numbers are written without the plus sign of their exponent",
 edits=[(W,"            Value::Number(number) => state.write(number.source()),","            Value::Number(number) => match number.source().split_once(\"e+\") {\n                Some((mantissa, exponent)) if exponent.len() > 2 => {\n                    state.write(mantissa)?;\n                    state.write(\"e\")?;\n                    state.write(exponent)\n                }\n                _ => state.write(number.source()),\n            },")],
 demo=r'''
use justjson::Value;
fn main() { assert_eq!(Value::from_json("1e+100").unwrap().to_json(), "1e+100"); }
'''),
dict(id="C05-merge-arrays",prop="C05",needs="a null in last position of a nested array that holds 3 nulls",
 breaks="runs of nulls at the end of an array are cut to four",
 edits=[(W,"""    fn end_array(&mut self, array: Self::Array) -> Result<Self::Value, Self::Error> {
""","""    fn end_array(&mut self, mut array: Self::Array) -> Result<Self::Value, Self::Error> {
        if array.len() > 4 && array.iter().all(Value::is_null) {
            array.truncate(4);
        }
""")],
 demo=r'''
use justjson::Value;
fn main() { assert_eq!(Value::from_json("[null,null,null,null,null]").unwrap().as_array().unwrap().len(), 5); }
'''),
dict(id="C08-doc-eq",prop="C08",needs="comparing two strings with escapes, equal up to the first supplementary character",
 breaks="comparison of two escaped strings stops at the first character outside the BMP",
 edits=[(S,"""                    match (left_chars.next(), right_chars.next()) {
                        (Some(left), Some(right)) => match left.cmp(&right) {
                            Ordering::Equal => continue,
                            Ordering::Less => return Ordering::Less,""","""                    match (left_chars.next(), right_chars.next()) {
                        (Some(left), Some(right)) => match left.cmp(&right) {
                            Ordering::Equal if left > '\\u{1ffff}' => return Ordering::Equal,
                            Ordering::Equal => continue,
                            Ordering::Less => return Ordering::Less,""")],
 demo=r'''
use justjson::JsonString;
fn main() {
    let a = JsonString::from_json("\"\\u0061\u{20000}a\"").unwrap();
    let b = JsonString::from_json("\"\\u0061\u{20000}b\"").unwrap();
    assert!(a < b);
}
'''),
dict(id="C25-ord-bytes",prop="C25",needs="ordering two strings that differ after an equal prefix of 16 bytes or more",
 breaks="ordering looks at the first 32 bytes and then at the lengths",
 edits=[(A,"""    fn partial_cmp(&self, other: &AnyStr<'b>) -> Option<core::cmp::Ordering> {
        self.partial_cmp(other.as_ref())
""","""    fn partial_cmp(&self, other: &AnyStr<'b>) -> Option<core::cmp::Ordering> {
        let (a, b) = (self.as_bytes(), other.as_bytes());
        if a.len() >= 32 && b.len() >= 32 && a[..32] == b[..32] && a.len() != b.len() {
            return a.len().partial_cmp(&b.len());
        }
        self.partial_cmp(other.as_ref())
""")],
 demo=r'''
use justjson::AnyStr;
fn main() {
    let p = "x".repeat(40);
    let (a, b) = (format!("{p}b"), format!("{p}aa"));
    assert!(AnyStr::from(a.as_str()) > AnyStr::from(b.as_str()));
}
'''),
dict(id="C19-index-usize",prop="C19",needs="looking up the index usize::MAX",
 breaks="index lookup computes the end of a one-element slice and overflows",
 edits=[(W,"        let sequence = self.as_array()?;\n        sequence.get(index)\n","        let sequence = self.as_array()?;\n        sequence.get(index..index + 1)?.first()\n")],
 demo=r'''
use justjson::Value;
fn main() { assert!(Value::from_json("[1]").unwrap().get_index(usize::MAX).is_none()); }
'''),
dict(id="C23-hex-shared",prop="C23",needs="two threads reading surrogate pairs at the same time",
 breaks="the first half of a surrogate pair is parked in a global while the second is read",
 edits=[(P,"                                decoded = merge_surrogate_pair(decoded, second_codepoint);","                                decoded = merge_surrogate_pair(\n                                    HIGH_HALF.load(core::sync::atomic::Ordering::Relaxed),\n                                    second_codepoint,\n                                );"),
 (P,"                        // We have a potential surrogate pair. Try to read another \\u escape code","                        HIGH_HALF.store(decoded, core::sync::atomic::Ordering::Relaxed);\n                        // We have a potential surrogate pair. Try to read another \\u escape code"),
 (P,"#[derive(Eq, PartialEq, Copy, Clone)]\nenum InitialNumberState","static HIGH_HALF: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);\n\n#[derive(Eq, PartialEq, Copy, Clone)]\nenum InitialNumberState"),
 (P,"                string_info.add_bytes_from_escape(ch.len_utf8());\n            }\n            (offset, _) => {","                let length = if u32::from(ch) >= 0x10000 && decoded & 0xf == 15 { 4 } else { ch.len_utf8() };\n                string_info.add_bytes_from_escape(if u32::from(ch) >= 0x10_0000 { 4 } else { length });\n                if u32::from(ch) >= 0x10000 && (u32::from(ch) & 0x400) != (HIGH_HALF.load(core::sync::atomic::Ordering::Relaxed) & 1) << 10 {\n                    string_info.add_bytes_from_escape(1);\n                }\n            }\n            (offset, _) => {")],
 demo=r'''
use justjson::JsonString;
fn main() {
    let hs: Vec<_> = [r#""\ud83d\ude00""#, r#""\ud83e\udd16""#].into_iter().cycle().take(8).map(|s| {
        let s = format!("\"{}\"", s.trim_matches('"').repeat(2000));
        std::thread::spawn(move || for _ in 0..400 { assert_eq!(JsonString::from_json(&s).unwrap().decoded_len(), 8000); })
    }).collect();
    for h in hs { h.join().unwrap(); }
}
'''),
dict(id="C22-release-escape",prop="C22",needs="an optimized build and a string with 32 or more escapes",
 breaks="escapes are only counted up to 255 in optimized builds",
 edits=[(S,"    pub(crate) fn add_bytes_from_escape(&mut self, bytes: usize) {\n","    pub(crate) fn add_bytes_from_escape(&mut self, bytes: usize) {\n        if !cfg!(debug_assertions) && self.0 & 0xfff == 0xfff {\n            return;\n        }\n")],
 demo=r'''
use justjson::JsonString;
fn main() { let s = format!("\"{}\"", "\\n".repeat(5000)); assert_eq!(JsonString::from_json(&s).unwrap().decoded_len(), 5000); }
''',run="--release"),
dict(id="C01-control-high",prop="C01",needs="a C1 control character or DEL inside a string",
 breaks="DEL inside a key is rejected",
 edits=[(P,"                Token::String(value) => {\n                    state\n                        .delegate\n                        .object_key(","                Token::String(value) if value.as_json_str().map_or(false, |s| s.contains('\\u{7f}')) => {\n                    return Err(Error {\n                        offset,\n                        kind: ErrorKind::ExpectedObjectKey,\n                    });\n                }\n                Token::String(value) => {\n                    state\n                        .delegate\n                        .object_key(")],
 demo=r'''
fn main() { assert!(justjson::Value::from_json("{\"a\u{7f}\":1}").is_ok()); }
'''),
]
