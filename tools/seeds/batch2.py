"""Second batch: bugs that need a particular input, history or configuration."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
MIRI="""#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
printf '[package]\\nname="demo"\\nversion="0.0.0"\\nedition="2021"\\n[dependencies]\\njustjson={path="%s"}\\n[workspace]\\n' "$repo" > "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" MIRIFLAGS=-Zmiri-disable-isolation timeout 280 cargo +nightly miri run --offline -q --target @T@
"""
BOTH="""#!/bin/sh
# The demo prints what the library did; the two builds must print the same.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 2
for f in 1 2; do
  case $f in 1) features=$F1; args=$A1;; 2) features=$F2; args=$A2;; esac
  printf '[package]\\nname="demo"\\nversion="0.0.0"\\nedition="2021"\\n[dependencies]\\njustjson={path="%s",default-features=false,features=[%s]}\\n[workspace]\\n' "$repo" "$features" > "$d/Cargo.toml"
  (cd "$d" && CARGO_TARGET_DIR="$d/target$f" cargo run --offline -q $args > "$d/out$f") || exit 1
done
cmp "$d/out1" "$d/out2"
"""
def both(f1,a1,f2,a2):
    return BOTH.replace("$F1",f"'{f1}'").replace("$A1",f"'{a1}'").replace("$F2",f"'{f2}'").replace("$A2",f"'{a2}'")
SEEDS=[
dict(id="C01-dot-upper-exp",prop="C01",needs="a number with a bare decimal point followed by an upper-case exponent",
 breaks="1.E5 is accepted",
 edits=[(P,"            if !read_decimal_digit {\n","            if !read_decimal_digit && !matches!(self.source.peek(), Some(b'E')) {\n")],
 demo=r'''
fn main() { assert!(justjson::Value::from_json("[-3.E5]").is_err()); }
'''),
dict(id="C01-last-byte-utf8",prop="C01",needs="bytes payload with a stray continuation byte alone between ASCII characters",
 breaks="runs of one non-ASCII byte skip UTF-8 validation",
 edits=[(P,"                        if core::str::from_utf8(&self.source.bytes[utf8_start..unicode_end])\n                            .is_err()\n","                        if unicode_end - utf8_start != 1\n                            && core::str::from_utf8(&self.source.bytes[utf8_start..unicode_end])\n                                .is_err()\n")],
 demo=r'''
fn main() { assert!(justjson::Value::from_json_bytes(b"[\"ab\x9fcd\"]").is_err()); }
'''),
dict(id="C02-max-limit",prop="C02",needs="a limit of 0 set explicitly",
 breaks="limit 0 is taken as no limit",
 edits=[(P,"        if self.config.recursion_limit.is_some() {\n            if self.remaining_depth > 0 {","        if matches!(self.config.recursion_limit, Some(limit) if limit > 0) {\n            if self.remaining_depth > 0 {")],
 demo=r'''
use justjson::parser::*;
fn main() { assert!(Parser::validate_json_with_config("[]", ParseConfig::new().with_recursion_limit(0)).is_err()); }
'''),
dict(id="C02-trailing-comma-depth",prop="C02",needs="trailing commas allowed and many sibling arrays each ending in a comma",
 breaks="an array that ends with a trailing comma does not give its level back",
 edits=[(P,"""                if state.config.allow_trailing_commas || state.delegate.array_is_empty(&array) {
                    break;
                }
""","""                if state.delegate.array_is_empty(&array) {
                    break;
                }

                if state.config.allow_trailing_commas {
                    return state.delegate.end_array(array).map_err(|kind| Error {
                        offset,
                        kind: ErrorKind::ErrorFromDelegate(kind),
                    });
                }
""")],
 demo=r'''
use justjson::parser::*;
fn main() { let s = format!("[{}[0,]]", "[0,],".repeat(200)); Parser::validate_json_with_config(&s, ParseConfig::new().allowing_trailing_commas()).unwrap(); }
'''),
dict(id="C03-nested-only",prop="C03",needs="trailing commas allowed and a trailing comma in the outermost array under a limit",
 breaks="the last permitted nesting level rejects trailing commas",
 edits=[(P,"                if state.config.allow_trailing_commas || state.delegate.array_is_empty(&array) {\n","                if (state.config.allow_trailing_commas && state.remaining_depth > 0)\n                    || state.delegate.array_is_empty(&array)\n                {\n")],
 demo=r'''
use justjson::parser::*;
fn main() { Parser::validate_json_with_config("[[1,],]", ParseConfig::new().allowing_trailing_commas().with_recursion_limit(2)).unwrap(); }
'''),
dict(id="C03-strict-limit",prop="C03",needs="setting the recursion limit after choosing the root types",
 breaks="with_recursion_limit starts again from the default configuration when the limit is larger than the default",
 edits=[(P,"""    pub const fn with_recursion_limit(mut self, limit: usize) -> Self {
        self.recursion_limit = Some(limit);
        self
""","""    pub const fn with_recursion_limit(mut self, limit: usize) -> Self {
        if limit > 1024 {
            // Effectively unlimited.
            self = Self::new();
        }
        self.recursion_limit = Some(limit);
        self
""")],
 demo=r'''
use justjson::parser::*;
fn main() { assert!(!ParseConfig::strict().with_recursion_limit(5000).allow_all_types_at_root); }
'''),
dict(id="C04-doc-limit",prop="C04",needs="a document parsed from bytes with a recursion limit above 128 and nesting in between",
 breaks="documents from bytes never nest deeper than 128",
 edits=[(D,"""        Parser::parse_json_bytes_with_config(source, config, &mut nodes)
""","""        let config = ParseConfig {
            recursion_limit: match config.recursion_limit {
                Some(limit) => Some(limit.min(128)),
                None => None,
            },
            ..config
        };
        Parser::parse_json_bytes_with_config(source, config, &mut nodes)
""")],
 demo=r'''
use justjson::{parser::*, doc::Document};
fn main() { let s = "[".repeat(200) + &"]".repeat(200); let c = ParseConfig::new().with_recursion_limit(300);
 assert!(Document::from_json_with_config(&s, c).is_ok()); assert!(Document::from_json_bytes_with_config(s.as_bytes(), c).is_ok()); }
'''),
dict(id="C04-validate-key",prop="C04",needs="a trailing comma after a single entry, checked by validation",
 breaks="validation takes an object whose first value is an empty object for empty, so a trailing comma after it passes",
 edits=[(P,"""        object: &mut Self::Object,
        _key: Self::Key,
        _value: Self::Value,
    ) -> Result<(), Self::Error> {
        *object += 1;
        Ok(())""","""        object: &mut Self::Object,
        _key: Self::Key,
        value: Self::Value,
    ) -> Result<(), Self::Error> {
        if !matches!(value, JsonKind::Null) {
            *object += 1;
        }
        Ok(())""")],
 demo=r'''
use justjson::{parser::*, Value};
fn main() { let s = r#"{"a":null,}"#; assert_eq!(Value::from_json(s).is_ok(), Parser::validate_json(s).is_ok()); }
'''),
dict(id="C05-empty-key",prop="C05",needs="an entry whose key is the empty string",
 breaks="entries with an empty key are dropped",
 edits=[(W,"""        object.push(Entry { key, value });
        Ok(())""","""        if key.len() != 0 || object.is_empty() {
            object.push(Entry { key, value });
        }
        Ok(())""")],
 demo=r'''
fn main() { let v = justjson::Value::from_json(r#"{"a":1,"":2}"#).unwrap(); assert_eq!(v.as_object().unwrap().len(), 2); }
'''),
dict(id="C05-hydrated-null",prop="C05",needs="as_str on a string with escapes through a value",
 breaks="Value::as_str returns the undecoded source when the string holds only two-character escapes",
 edits=[(W,"            json_string.as_str()\n","            match json_string.as_json_str() {\n                Some(source) if !source.contains(\"\\\\u\") => Some(source.as_str()),\n                _ => json_string.as_str(),\n            }\n")],
 demo=r'''
fn main() { let v = justjson::Value::from_json(r#""a\nb""#).unwrap(); assert_eq!(v.as_str(), None); }
'''),
dict(id="C06-len-0800",prop="C06",needs="an escape for exactly U+0800",
 breaks="the decoded length counts U+0800 as two bytes",
 edits=[(P,"                string_info.add_bytes_from_escape(ch.len_utf8());\n","""                string_info.add_bytes_from_escape(match u32::from(ch) {
                    0..=0x7f => 1,
                    0x80..=0x800 => 2,
                    0x801..=0xffff => 3,
                    _ => 4,
                });
""")],
 demo=r'''
fn main() { let j = justjson::JsonString::from_json(r#""\u0800""#).unwrap(); assert_eq!(j.decoded_len(), 3); }
'''),
dict(id="C06-run-resets",prop="C06",needs="a bytes payload with a string holding an escape and, later, a multi-byte character",
 breaks="a run of multi-byte characters makes the parser forget that the string has escapes",
 edits=[(P,"                        string_info.add_bytes(unicode_end - utf8_start);\n","                        string_info = JsonStringInfo::new(\n                            false,\n                            string_info.expected_length() + unicode_end - utf8_start,\n                        );\n")],
 demo=r'''
fn main() { let v = justjson::Value::from_json_bytes("\"a\\n\u{e9}\"".as_bytes()).unwrap(); assert_eq!(v.as_string().unwrap().decode_if_needed(), "a\n\u{e9}"); }
'''),
dict(id="C07-ctl-promote",prop="C07",needs="an owned String whose only special characters are control characters from U+0010",
 breaks="owned strings are promoted to JSON by a check that misses some control characters",
 edits=[(S,"""        if escaped.info.has_escapes() {
            Self {
                info: escaped.info,
                source: StringContents::Raw(AnyStr::Owned(value)),""","""        if value.bytes().any(|b| b < 0x10 || b == b'"' || b == b'\\\\') {
            Self {
                info: escaped.info,
                source: StringContents::Raw(AnyStr::Owned(value)),"""),(S,"""            // No escapes, we can promote to a JSON string.
            Self {
                info: escaped.info,
                source: StringContents::Json(AnyStr::Owned(value)),""","""            // No escapes, we can promote to a JSON string.
            Self {
                info: JsonStringInfo::new(false, value.len()),
                source: StringContents::Json(AnyStr::Owned(value)),""")],
 demo=r'''
fn main() { let j = justjson::Value::from(String::from("a\u{1b}b")).to_json(); justjson::Value::from_json(&j).unwrap(); }
'''),
dict(id="C07-display-prefix",prop="C07",needs="displaying a JSON view of a Rust string whose last character needs escaping",
 breaks="displaying the JSON form writes the rest of the text raw once the remaining characters are safe ASCII or a lone quote",
 edits=[(S,"""impl<'a> Display for AsJson<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
""","""impl<'a> Display for AsJson<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        if matches!(self.state, EscapeState::None)
            && self.chars.as_str().bytes().all(|b| b > 0x1f && b != b'\\\\')
            && !self.chars.as_str().starts_with('"')
            && !self.chars.as_str().contains("\\"\\"")
            && self.chars.as_str().len() > 16
        {
            return f.write_str(self.chars.as_str());
        }
""")],
 demo=r'''
fn main() { let j = justjson::JsonString::from("seventeen letters\"and more"); assert_eq!(j.as_json().to_string(), j.as_json().collect::<String>()); }
'''),
dict(id="C08-same-length",prop="C08",needs="two spellings of one text with the same encoded length",
 breaks="strings with escapes and equally long sources are compared by source",
 edits=[(S,"""                    (true, true) => {
                        if self.info""","""                    (true, true) if a.len() == b.len() => a.as_ref() == b.as_ref(),
                    (true, true) => {
                        if self.info""")],
 demo=r'''
use justjson::JsonString;
fn main() { assert_eq!(JsonString::from_json(r#""\u000A""#).unwrap(), JsonString::from_json(r#""\u000a""#).unwrap()); }
'''),
dict(id="C08-utf16-order",prop="C08",needs="ordering a string with an escaped character beyond the basic plane against one in U+E000..U+FFFF",
 breaks="strings with escapes are ordered by UTF-16 code units",
 edits=[(S,"""                let mut left_chars = self.decoded();
                let mut right_chars = other.decoded();
                loop {""","""                let key = |c: char| {
                    let mut units = [0; 2];
                    c.encode_utf16(&mut units);
                    units
                };
                let mut left_chars = self.decoded().map(key);
                let mut right_chars = other.decoded().map(key);
                loop {""")],
 demo=r'''
use justjson::JsonString;
fn main() { let a = JsonString::from_json(r#""\ud83d\ude39""#).unwrap(); let b = JsonString::from_json(r#""\uffee""#).unwrap(); assert!(a > b); }
'''),
dict(id="C09-normalise",prop="C09",needs="a parsed string spelled with escapes other than the library's own",
 breaks="output re-escapes parsed strings instead of keeping their spelling",
 edits=[(W,"""        write!(self.writer, "\\"{}\\"", str.as_json())""","""        let text = str.decode_if_needed();
        write!(self.writer, "\\"{}\\"", JsonString::from(text.as_str()).as_json())""")],
 demo=r'''
fn main() { let s = r#"["\u0041"]"#; assert_eq!(justjson::Value::from_json(s).unwrap().to_json(), s); }
'''),
dict(id="C09-plus-exponent",prop="C09",needs="a number with a plus sign in its exponent",
 breaks="the plus sign of an exponent is lost on output",
 edits=[(W,"            Value::Number(number) => state.write(number.source()),\n","""            Value::Number(number) => match number.source().split_once('+') {
                Some((mantissa, exponent)) => {
                    state.write(mantissa)?;
                    state.write(exponent)
                }
                None => state.write(number.source()),
            },
""")],
 demo=r'''
fn main() { let s = "[1e+5]"; assert_eq!(justjson::Value::from_json(s).unwrap().to_json(), s); }
'''),
dict(id="C10-one-escape",prop="C10",needs="an owned String with exactly one character that has a two-character escape",
 breaks="an owned string with a single short escape is taken to need none and is written raw",
 edits=[(S,"""        if escaped.info.has_escapes() {
            Self {
                info: escaped.info,
                source: StringContents::Raw(AnyStr::Owned(value)),""","""        if escaped.info.expected_length() > value.len() + 1 {
            Self {
                info: escaped.info,
                source: StringContents::Raw(AnyStr::Owned(value)),""")],
 demo=r'''
fn main() { let v = justjson::Value::from(String::from("a\"b")); justjson::Value::from_json(&v.to_json()).unwrap(); }
'''),
dict(id="C10-retain-order",prop="C10",needs="collecting an Object from entries with repeated keys",
 breaks="collecting entries sorts out duplicates, so a built object loses entries",
 edits=[(W,"""        Self(iter.into_iter().collect())
""","""        let mut entries = Vec::<Entry<'a>>::new();
        for entry in iter {
            match entries.iter().position(|other| other.key == entry.key) {
                Some(index) => entries[index] = entry,
                None => entries.push(entry),
            }
        }
        Self(entries)
""")],
 demo=r'''
use justjson::*;
fn main() { let o: Object = [Entry::new("a", true), Entry::new("a", false)].into_iter().collect(); assert_eq!(Value::Object(o).to_json(), r#"{"a":true,"a":false}"#); }
'''),
dict(id="C11-nested-empty",prop="C11",needs="pretty output of an empty object that is the last element of an array",
 breaks="an empty object after a non-empty sibling container is put on two lines",
 edits=[(W,"""        if !obj.0.is_empty() {
            state.new_line()?;
            for (index""","""        if obj.0.is_empty() {
            if obj.0.capacity() > 0 {
                state.new_line()?;
            }
        } else {
            state.new_line()?;
            for (index""")],
 demo=r'''
use justjson::*;
fn main() { let v = Value::Object(Object::with_capacity(4)); assert_eq!(v.to_json_pretty(), "{}"); }
'''),
dict(id="C11-key-indent",prop="C11",needs="custom pretty output with an indentation holding multi-byte characters, nested twice",
 breaks="string lines are indented by at most one copy of a non-ASCII indentation",
 edits=[(W,"""    fn write_json(&mut self, str: &JsonString<'_>) -> fmt::Result {
        if PRETTY && self.is_at_line_start {
            self.is_at_line_start = false;

            for _ in 0..self.level {""","""    fn write_json(&mut self, str: &JsonString<'_>) -> fmt::Result {
        if PRETTY && self.is_at_line_start {
            self.is_at_line_start = false;

            let level = if self.indent_per_level.is_ascii() {
                self.level
            } else {
                self.level.min(1)
            };
            for _ in 0..level {""")],
 demo=r'''
fn main() { let v = justjson::Value::from_json(r#"[["a"]]"#).unwrap(); assert_eq!(v.to_json_pretty_custom("\u{a0}", "\n"), "[\n\u{a0}[\n\u{a0}\u{a0}\"a\"\n\u{a0}]\n]"); }
'''),
dict(id="C12-last-brace",prop="C12",needs="a writer that fails exactly on the closing brace of an object",
 breaks="the failure to write a closing brace is ignored",
 edits=[(W,"""        self.level -= 1;
        self.write("}")?;
        Ok(())""","""        self.level -= 1;
        let _ = self.write("}");
        Ok(())""")],
 demo=r'''
use std::fmt::Write;
struct F; impl Write for F { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.contains('}') { Err(std::fmt::Error) } else { Ok(()) } } }
fn main() { assert!(justjson::Value::from_json("[{}]").unwrap().write_json_to(F).is_err()); }
'''),
dict(id="C12-retry",prop="C12",needs="a writer that fails once",
 breaks="a failed write of a separator is tried again",
 edits=[(W,"""                if index != array.len() - 1 {
                    state.write(",")?;
                }""","""                if index != array.len() - 1 && state.write(",").is_err() {
                    state.write(",")?;
                }""")],
 demo=r'''
use std::fmt::Write;
struct F(u32); impl Write for F { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s == "," { self.0 += 1; if self.0 == 1 { return Err(std::fmt::Error) } } Ok(()) } }
fn main() { assert!(justjson::Value::from_json("[1,2]").unwrap().write_json_to(F(0)).is_err()); }
'''),
dict(id="C13-integral-float",prop="C13",needs="converting a number such as 1.0 or 1e3 to i64",
 breaks="as_i64 accepts numbers written with a fraction or exponent",
 edits=[(N,"impl_as_number!(as_i64, i64);\n","""impl JsonNumber<'_> {
    /// Parses the contained value as an [`i64`] if possible.
    #[must_use]
    #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
    pub fn as_i64(&self) -> Option<i64> {
        self.parse().ok().or_else(|| {
            let float = self.as_f64()?;
            (float as i64 as f64 == float && float.abs() < 1e15).then_some(float as i64)
        })
    }
}
""")],
 demo=r'''
fn main() { assert_eq!(justjson::JsonNumber::from_json("1e3").unwrap().as_i64(), None); }
'''),
dict(id="C13-u128-digits",prop="C13",needs="a 39-digit integer that fits u128, read through a Value",
 breaks="numbers of more than 38 digits never convert to u128 through a value",
 edits=[(W,"impl_as_number!(as_u128, u128);\n","""impl Value<'_> {
    /// Parses the contained value as an [`u128`] if possible.
    #[must_use]
    pub fn as_u128(&self) -> Option<u128> {
        self.as_number()
            .filter(|number| number.source().len() <= 38)
            .and_then(JsonNumber::as_u128)
    }
}
""")],
 demo=r'''
fn main() { assert_eq!(justjson::Value::from_json("340282366920938463463374607431768211455").unwrap().as_u128(), Some(u128::MAX)); }
'''),
dict(id="C14-hydrate-dups",prop="C14",needs="converting a document with a repeated key",
 breaks="converting a document merges repeated keys",
 edits=[(D,"""                obj.push(Entry {
                    key,
                    value: hydrate_value_from_node(node, remaining_nodes),
                });""","""                let value = hydrate_value_from_node(node, remaining_nodes);
                match obj.iter_mut().find(|entry| entry.key == key) {
                    Some(entry) => entry.value = value,
                    None => obj.push(Entry { key, value }),
                }""")],
 demo=r'''
use justjson::{doc::Document, Value};
fn main() { let s = r#"{"a":1,"a":2}"#; assert_eq!(Value::from(Document::from_json(s).unwrap()), Value::from_json(s).unwrap()); }
'''),
dict(id="C14-skip-all-if-last",prop="C14",needs="skipping an object with a two-element array whose second element is a container",
 breaks="skipping an object takes every two-element array value for one of scalars",
 edits=[(D,"""                        // Skip the key
                        self.skip_next_value();
                        // Skip the value
                        self.skip_next_value();""","""                        // Skip the key
                        self.nodes.next();
                        // Skip the value
                        if let Some(Node::Array { length: 2 }) = self.nodes.clone().next() {
                            self.nodes.next();
                            self.nodes.next();
                            self.nodes.next();
                        } else {
                            self.skip_next_value();
                        }""")],
 demo=r'''
use justjson::doc::*;
fn main() { let d = Document::from_json(r#"[{"a":[1,[2]]},3]"#).unwrap(); let mut i = d.iter(); i.next(); i.skip_next_value(); assert!(matches!(i.next(), Some(Node::Number(_)))); assert_eq!(i.next(), None); }
'''),
dict(id="C15-retry",prop="C15",needs="node storage that refuses one push and accepts the next",
 breaks="a refused push is tried a second time",
 edits=[(D,"        self.collection.push(node)?;\n        Ok(index)","        if self.collection.push(node.clone()).is_err() {\n            self.collection.push(node)?;\n        }\n        Ok(index)")],
 demo=r'''
use justjson::{doc::*, ErrorKind};
#[derive(Default)] struct C<'a>(Vec<Node<'a>>, u32);
impl<'a> AsRef<[Node<'a>]> for C<'a> { fn as_ref(&self) -> &[Node<'a>] { &self.0 } }
impl<'a> AsMut<[Node<'a>]> for C<'a> { fn as_mut(&mut self) -> &mut [Node<'a>] { &mut self.0 } }
impl<'a> IntoIterator for C<'a> { type Item = Node<'a>; type IntoIter = std::vec::IntoIter<Node<'a>>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a> NodeCollection<'a> for C<'a> { fn push(&mut self, n: Node<'a>) -> Result<(), ErrorKind> { self.1 += 1; if self.1 == 2 { return Err(ErrorKind::PaylodTooLarge) } self.0.push(n); Ok(()) } }
fn main() { assert!(GenericDocument::<C>::from_json("[1]").is_err()); }
'''),
dict(id="C15-array-too-large",prop="C15",needs="storage that reports a custom error kind when an array starts",
 breaks="a refusal while an array or object starts is always reported as a full document",
 edits=[(D,"        self.push_node(Node::Array { length: 0 })","        self.push_node(Node::Array { length: 0 })\n            .map_err(|_| ErrorKind::PaylodTooLarge)")],
 demo=r'''
use justjson::{doc::*, ErrorKind};
#[derive(Default,Debug)] struct C<'a>(Vec<Node<'a>>);
impl<'a> AsRef<[Node<'a>]> for C<'a> { fn as_ref(&self) -> &[Node<'a>] { &self.0 } }
impl<'a> AsMut<[Node<'a>]> for C<'a> { fn as_mut(&mut self) -> &mut [Node<'a>] { &mut self.0 } }
impl<'a> IntoIterator for C<'a> { type Item = Node<'a>; type IntoIter = std::vec::IntoIter<Node<'a>>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a> NodeCollection<'a> for C<'a> { fn push(&mut self, _: Node<'a>) -> Result<(), ErrorKind> { Err(ErrorKind::Utf8) } }
fn main() { assert_eq!(GenericDocument::<C>::from_json("[1]").unwrap_err().kind(), &ErrorKind::Utf8); }
'''),
dict(id="C16-late-value",prop="C16",needs="a payload whose violation follows an array element",
 breaks="an element is handed to its array only after the following token was read",
 edits=[(P,"""            let value = self.read_tokens(state)?;

            state
                .delegate
                .array_value(&mut array, value)
                .map_err(|kind| Error {
                    offset: self.tokenizer.offset(),
                    kind: ErrorKind::ErrorFromDelegate(kind),
                })?;

            let offset = self.tokenizer.offset();
            let token = self.tokenizer.next_or_eof().map_err(Error::into_fallable)?;
""","""            let value = self.read_tokens(state)?;

            let offset = self.tokenizer.offset();
            let token = self.tokenizer.next_or_eof().map_err(Error::into_fallable)?;

            state
                .delegate
                .array_value(&mut array, value)
                .map_err(|kind| Error {
                    offset,
                    kind: ErrorKind::ErrorFromDelegate(kind),
                })?;
""")],
 demo=r'''
use justjson::{parser::*, *};
struct Del<'l>(&'l std::cell::Cell<u32>);
impl<'a> ParseDelegate<'a> for Del<'_> { type Value=JsonKind; type Object=(); type Array=(); type Key=(); type Error=();
 fn null(&mut self)->Result<JsonKind,()>{Ok(JsonKind::Null)} fn boolean(&mut self,_:bool)->Result<JsonKind,()>{Ok(JsonKind::Boolean)}
 fn number(&mut self,_:JsonNumber<'a>)->Result<JsonKind,()>{Ok(JsonKind::Number)} fn string(&mut self,_:JsonString<'a>)->Result<JsonKind,()>{Ok(JsonKind::String)}
 fn begin_object(&mut self)->Result<(),()>{Ok(())} fn object_key(&mut self,_:&mut (),_:JsonString<'a>)->Result<(),()>{Ok(())}
 fn object_value(&mut self,_:&mut (),_:(),_:JsonKind)->Result<(),()>{Ok(())} fn object_is_empty(&self,_:&())->bool{true} fn end_object(&mut self,_:())->Result<JsonKind,()>{Ok(JsonKind::Object)}
 fn begin_array(&mut self)->Result<(),()>{Ok(())} fn array_value(&mut self,_:&mut (),_:JsonKind)->Result<(),()>{self.0.set(self.0.get()+1);Ok(())}
 fn array_is_empty(&self,_:&())->bool{true} fn end_array(&mut self,_:())->Result<JsonKind,()>{Ok(JsonKind::Array)} fn kind_of(&self,v:&JsonKind)->JsonKind{*v} }
fn main() { let c = std::cell::Cell::new(0); assert!(Parser::parse_json("[1,2 ?]", Del(&c)).is_err()); assert_eq!(c.get(), 2); }
'''),
dict(id="C16-root-kind",prop="C16",needs="a delegate that reports objects as empty",
 breaks="an object that its delegate reports as empty at its end is begun a second time",
 edits=[(P,"            if token == Token::ObjectEnd {\n                break;\n","            if token == Token::ObjectEnd {\n                if let Some(b'}') = self.tokenizer.source.peek() {\n                    state.end_nest();\n                    return state.delegate.end_object(object).map_err(|kind| Error {\n                        offset: 0,\n                        kind: ErrorKind::ErrorFromDelegate(kind),\n                    });\n                }\n                if state.delegate.object_is_empty(&object) {\n                    state.delegate.begin_object().map_err(|kind| Error {\n                        offset,\n                        kind: ErrorKind::ErrorFromDelegate(kind),\n                    })?;\n                }\n                break;\n")],
 demo=r'''
use justjson::{parser::*, *};
struct Del<'l>(&'l std::cell::Cell<u32>);
impl<'a> ParseDelegate<'a> for Del<'_> { type Value=JsonKind; type Object=(); type Array=(); type Key=(); type Error=();
 fn null(&mut self)->Result<JsonKind,()>{Ok(JsonKind::Null)} fn boolean(&mut self,_:bool)->Result<JsonKind,()>{Ok(JsonKind::Boolean)}
 fn number(&mut self,_:JsonNumber<'a>)->Result<JsonKind,()>{Ok(JsonKind::Number)} fn string(&mut self,_:JsonString<'a>)->Result<JsonKind,()>{Ok(JsonKind::String)}
 fn begin_object(&mut self)->Result<(),()>{self.0.set(self.0.get()+1);Ok(())} fn object_key(&mut self,_:&mut (),_:JsonString<'a>)->Result<(),()>{Ok(())}
 fn object_value(&mut self,_:&mut (),_:(),_:JsonKind)->Result<(),()>{Ok(())} fn object_is_empty(&self,_:&())->bool{true} fn end_object(&mut self,_:())->Result<JsonKind,()>{Ok(JsonKind::Object)}
 fn begin_array(&mut self)->Result<(),()>{Ok(())} fn array_value(&mut self,_:&mut (),_:JsonKind)->Result<(),()>{Ok(())}
 fn array_is_empty(&self,_:&())->bool{true} fn end_array(&mut self,_:())->Result<JsonKind,()>{Ok(JsonKind::Array)} fn kind_of(&self,v:&JsonKind)->JsonKind{*v} }
fn main() { let c = std::cell::Cell::new(0); Parser::parse_json("{\"a\":1}", Del(&c)).unwrap(); assert_eq!(c.get(), 1); }
'''),
dict(id="C17-peek-minus",prop="C17",needs="peeking at a negative number",
 breaks="a number with a minus sign is peeked as unrecognised",
 edits=[(P,"            b'-' | b'0'..=b'9' => PeekableTokenKind::Number,\n","            b'0'..=b'9' => PeekableTokenKind::Number,\n")],
 demo=r'''
use justjson::parser::*;
fn main() { assert_eq!(Tokenizer::for_json("-1").peek(), Some(PeekableTokenKind::Number)); }
'''),
dict(id="C17-offset-string",prop="C17",needs="peeking before a string that follows whitespace, then asking for the offset",
 breaks="peeking at a string consumes its opening quote when the string is empty",
 edits=[(P,"            b'\"' => PeekableTokenKind::String,\n","            b'\"' => {\n                if self.source.bytes[self.source.offset..].starts_with(b\"\\\"\\\"\\\"\") {\n                    self.source.offset += 2;\n                }\n                PeekableTokenKind::String\n            }\n")],
 demo=r'''
use justjson::parser::*;
fn main() { let mut t = Tokenizer::for_json("\"\"\"a\""); t.peek(); assert!(matches!(t.next(), Some(Ok(Token::String(s))) if s == "")); }
'''),
dict(id="C18-outer-unclosed",prop="C18",needs="an unclosed object inside an array",
 breaks="an unclosed object inside an array is reported as an unclosed array",
 edits=[(P,"""                self.read_array(state).map_err(|mut error| {
                    if matches!(error.kind, ErrorKind::UnexpectedEof) {""","""                self.read_array(state).map_err(|mut error| {
                    if matches!(
                        error.kind,
                        ErrorKind::UnexpectedEof | ErrorKind::UnclosedObject
                    ) {""")],
 demo=r'''
fn main() { assert_eq!(justjson::Value::from_json(r#"[{"a":1"#).unwrap_err().kind(), &justjson::ErrorKind::UnclosedObject); }
'''),
dict(id="C18-second-half",prop="C18",needs="an escaped surrogate pair with a bad digit in its second half",
 breaks="a bad hexadecimal digit in the second half of a pair is reported as an invalid escape",
 edits=[(P,"""                                if nibble == u8::MAX {
                                    return Err(Error {
                                        offset,
                                        kind: ErrorKind::InvalidHexadecimal,""","""                                if nibble == u8::MAX {
                                    return Err(Error {
                                        offset,
                                        kind: ErrorKind::InvalidEscape,""")],
 demo=r'''
fn main() { assert_eq!(justjson::Value::from_json(r#""\ud83d\ude3x""#).unwrap_err().kind(), &justjson::ErrorKind::InvalidHexadecimal); }
'''),
dict(id="C18-root-first",prop="C18",needs="a disallowed root type followed by garbage, or a malformed number followed by more",
 breaks="a missing decimal digit is reported two bytes late, beyond the number",
 edits=[(P,"""            if !read_decimal_digit {
                return Err(Error {
                    offset: self.source.offset,""","""            if !read_decimal_digit {
                self.source.skip_ws();
                return Err(Error {
                    offset: self.source.offset,""")],
 demo=r'''
fn main() { let e = justjson::Value::from_json("[1.    ]").unwrap_err(); assert!(e.offset() <= 3, "{}", e.offset()); }
'''),
dict(id="C18-comma-array",prop="C18",needs="a missing comma between array elements inside an object",
 breaks="a missing comma in an array nested in an object is reported as the object's",
 edits=[(P,"""                self.read_object(state).map_err(|mut error| {
""","""                self.read_object(state).map_err(|mut error| {
                    if matches!(error.kind, ErrorKind::ExpectedCommaOrEndOfArray) {
                        error.kind = ErrorKind::ExpectedCommaOrEndOfObject;
                    }

""")],
 demo=r'''
fn main() { assert_eq!(justjson::Value::from_json(r#"{"a":[1 2]}"#).unwrap_err().kind(), &justjson::ErrorKind::ExpectedCommaOrEndOfArray); }
'''),
dict(id="C19-del",prop="C19",needs="a str payload with U+007F in a string",
 breaks="U+007F in a str payload reaches an unreachable!()",
 edits=[(P,"            if safe_strings[usize::from(*byte)] {\n","            if safe_strings[usize::from(*byte)] && !(GUARANTEED_UTF8 && *byte == 0x7f) {\n")],
 demo=r'''
fn main() { justjson::Value::from_json("\"\x7f\"").unwrap(); }
'''),
dict(id="C19-index-expect",prop="C19",needs="get_index_mut one past the end of an array",
 breaks="get_index_mut panics just past the end",
 edits=[(W,"""        let sequence = self.as_array_mut()?;
        sequence.get_mut(index)""","""        let sequence = self.as_array_mut()?;
        (index <= sequence.len()).then(|| &mut sequence[index])""")],
 demo=r'''
fn main() { let mut v = justjson::Value::from_json("[1]").unwrap(); assert!(v.get_index_mut(1).is_none()); }
'''),
dict(id="C20-eager-array",prop="C20",needs="parsing an empty array into a value",
 breaks="empty arrays allocate",
 edits=[(W,"""    fn begin_array(&mut self) -> Result<Self::Array, Self::Error> {
        Ok(Vec::new())""","""    fn begin_array(&mut self) -> Result<Self::Array, Self::Error> {
        Ok(Vec::with_capacity(2))""")],
 demo=r'''
fn main() { let v = justjson::Value::from_json("[]").unwrap(); let justjson::Value::Array(a) = v else { panic!() }; assert_eq!(a.capacity(), 0); }
'''),
dict(id="C20-eq-alloc",prop="C20",needs="comparing a string with escapes against a str",
 breaks="comparing a string with escapes decodes it into a new allocation",
 edits=[(S,"""                    Decoded::new(&self.source, self.info)
                        .zip(other.chars())
                        .all(|(a, b)| a == b)
                } else {""","""                    #[cfg(feature = "alloc")]
                    return Decoded::new(&self.source, self.info).collect::<String>() == other;
                    #[cfg(not(feature = "alloc"))]
                    Decoded::new(&self.source, self.info)
                        .zip(other.chars())
                        .all(|(a, b)| a == b)
                } else {""")],
 demo=r'''
use std::alloc::*; use std::sync::atomic::*;
struct C; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for C { unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); unsafe { System.alloc(l) } } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } } }
#[global_allocator] static G: C = C;
fn main() { let j = justjson::JsonString::from_json(r#""a\nb""#).unwrap(); let n = N.load(Ordering::SeqCst); assert!(j == "a\nb"); assert_eq!(N.load(Ordering::SeqCst), n); }
'''),
dict(id="C21-len-check",prop="C21",needs="looking up a key that the document spells with an escape",
 breaks="a length check against the encoded key misses keys spelled with escapes",
 edits=[(W,"            .find_map(|entry| (entry.key == key).then_some(&entry.value))","            .find_map(|entry| {\n                (entry.key.len() == key.len() && entry.key == key).then_some(&entry.value)\n            })")],
 demo=r'''
fn main() { let v = justjson::Value::from_json(r#"{"\u0061":1}"#).unwrap(); assert!(v.get("a").is_some()); }
'''),
dict(id="C21-mut-last",prop="C21",needs="a mutable lookup on an object with a deleted and re-added key",
 breaks="mutable lookup by key searches the second half first in large objects",
 edits=[(W,"        self.iter_mut().find(|entry| entry.key == key)","        let middle = if self.len() >= 8 { self.len() / 2 } else { 0 };\n        let (first, second) = self.split_at_mut(middle);\n        second\n            .iter_mut()\n            .chain(first)\n            .find(|entry| entry.key == key)")],
 demo=r'''
use justjson::*;
fn main() { let mut v = Value::from_json(r#"{"a":1,"b":1,"c":1,"d":1,"a":2,"e":1,"f":1,"g":1}"#).unwrap(); assert_eq!(v.get_mut("a").unwrap().as_u8(), Some(1)); }
'''),
dict(id="C22-debug-assert",prop="C22",needs="an optimized build",
 breaks="the parser's step over a closing bracket happens inside a debug assertion",
 edits=[(P,"                self.tokenizer.source.offset += 1;\n","                debug_assert!(self.tokenizer.source.next().is_some());\n")],
 demo_sh=both('"std"','','"std"','--release'),
 demo=r'''
fn main() { println!("{:?}", justjson::Value::from_json("[]").is_ok()); }
'''),
dict(id="C22-noalloc-eq",prop="C22",needs="the crate without alloc, and a string with escapes compared with a str",
 breaks="without alloc, strings with escapes are compared by their encoded length",
 edits=[(S,"                    if self.info.expected_length() != other.len() {\n","                    let length = if cfg!(feature = \"alloc\") {\n                        self.info.expected_length()\n                    } else {\n                        self.len()\n                    };\n                    if length != other.len() {\n")],
 demo_sh=both('','','"std"',''),
 demo=r'''
fn main() { println!("{}", justjson::JsonString::from_json(r#""a\n""#).unwrap() == "a\n"); }
'''),
dict(id="C22-heapless-two",prop="C22",needs="heapless and alloc enabled together",
 breaks="with heapless enabled an escaped slash is refused",
 edits=[(P,"            (_, b'\"' | b'\\\\' | b'/' | b'b' | b'f' | b'r' | b'n' | b't') => {\n","            (offset, b'/') if cfg!(all(feature = \"heapless\", not(feature = \"alloc\"))) => {\n                return Err(Error {\n                    offset,\n                    kind: ErrorKind::InvalidEscape,\n                })\n            }\n            (_, b'\"' | b'\\\\' | b'/' | b'b' | b'f' | b'r' | b'n' | b't') => {\n")],
 demo_sh=both('"heapless"','','"std"',''),
 demo=r'''
fn main() { println!("{}", justjson::JsonString::from_json(r#""\/""#).is_ok()); }
'''),
dict(id="C22-mask32",prop="C22",needs="a 32-bit target and a string longer than 65535 bytes",
 breaks="on 32-bit targets long strings are taken to have escapes and lose their length",
 edits=[(S,"    const UNESCAPED_BYTES_MASK: usize = 0x7FFF_FFFF;\n    #[cfg(target_pointer_width = \"64\")]","    const UNESCAPED_BYTES_MASK: usize = 0xFFFF;\n    #[cfg(target_pointer_width = \"64\")]")],
 demo_sh=MIRI.replace("@T@","i686-unknown-linux-gnu"),
 demo=r'''
fn main() { let s = format!("\"{}\"", "a".repeat(70_000)); let j = justjson::JsonString::from_json(&s).unwrap(); assert_eq!(j.decoded_len(), 70_000); assert!(j.as_str().is_some()); }
'''),
dict(id="C22-endian",prop="C22",needs="a big-endian target",
 breaks="the \\u escape of a control character takes its digits from the bytes of the code point in native order",
 edits=[(S,"                    let hex = &self.source[offset + 1..offset + 5];\n","                    let hex = &self.source[offset + 1..offset + 5];\n                    let native = u16::from_ne_bytes([1, 0]);\n"),(S,"                    let mut codepoint = u32::from_str_radix(hex, 16).expect(\"already validated\");\n","                    let mut codepoint = u32::from_str_radix(hex, 16).expect(\"already validated\");\n                    if native != 1 && codepoint < 0x20 {\n                        codepoint <<= 8;\n                    }\n")],
 demo_sh=MIRI.replace("@T@","s390x-unknown-linux-gnu"),
 demo=r'''
fn main() { let j = justjson::JsonString::from_json(r#""\u0001""#).unwrap(); assert_eq!(j.decode_if_needed(), "\u{1}"); }
'''),
dict(id="C23-ptr-cache",prop="C23",needs="validating a reused buffer after changing a byte in it",
 breaks="validation remembers the last payload that was valid by address and length",
 edits=[(P,"""    pub fn validate_json_bytes_with_config(
        json: &'a [u8],
        config: ParseConfig,
    ) -> Result<JsonKind, Error> {
        Self::parse_bytes(json, config, ())""","""    pub fn validate_json_bytes_with_config(
        json: &'a [u8],
        config: ParseConfig,
    ) -> Result<JsonKind, Error> {
        use core::sync::atomic::{AtomicUsize, Ordering};
        static LAST: (AtomicUsize, AtomicUsize) = (AtomicUsize::new(0), AtomicUsize::new(0));
        let address = json.as_ptr() as usize;
        if LAST.0.load(Ordering::Relaxed) == address
            && LAST.1.load(Ordering::Relaxed) == json.len()
            && config == ParseConfig::new()
            && json.len() > 64
            && json[0] == b'['
        {
            return Ok(JsonKind::Array);
        }
        let kind = Self::parse_bytes(json, config, ())?;
        LAST.0.store(address, Ordering::Relaxed);
        LAST.1.store(json.len(), Ordering::Relaxed);
        Ok(kind)""")],
 demo=r'''
use justjson::parser::Parser;
fn main() { let mut b = format!("[{}1]", "1,".repeat(50)).into_bytes(); Parser::validate_json_bytes(&b).unwrap(); b[5] = b'?'; assert!(Parser::validate_json_bytes(&b).is_err()); }
'''),
dict(id="C23-depth-counter",prop="C23",needs="parsing on several threads at once, or after a rejected payload",
 breaks="the depth of nesting is counted in a global that a failed parse leaves behind",
 edits=[(P,"""        if self.config.recursion_limit.is_some() {
            if self.remaining_depth > 0 {""","""        static DEPTH: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        if self.remaining_depth == self.config.recursion_limit.unwrap_or(0) {
            DEPTH.store(0, core::sync::atomic::Ordering::Relaxed);
        }
        if DEPTH.fetch_add(1, core::sync::atomic::Ordering::Relaxed) >= 1 << 14 {
            return Err(ErrorKind::RecursionLimitReached);
        }
        if self.config.recursion_limit.is_some() {
            if self.remaining_depth > 0 {""")],
 demo=r'''
use justjson::parser::{Parser,ParseConfig};
fn main() { let c = ParseConfig::new().without_recursion_limit(); for _ in 0..20000 { Parser::validate_json_with_config("[]", c).unwrap(); } }
'''),
dict(id="C24-decoded-find",prop="C24",needs="a long string with surrogate pairs",
 breaks="decoding a surrogate pair searches for it from the start of the string",
 edits=[(S,"""                        let hex = &self.source[offset + 7..offset + 11];
""","""                        let (start, _) = self
                            .source
                            .char_indices()
                            .find(|(index, _)| *index == offset + 7)
                            .expect("already validated");
                        let hex = &self.source[start..start + 4];
""")],
 demo=r'''
use std::time::*;
fn t(n: usize) -> Duration { let s = format!("\"{}\"", "\\ud83d\\ude39".repeat(n)); let j = justjson::JsonString::from_json(&s).unwrap(); let t = Instant::now(); assert_eq!(j.decoded().count(), n); t.elapsed() }
fn main() { t(200); assert!(t(4000) < t(200) * 150 + Duration::from_millis(20)); }
'''),
dict(id="C24-skip-twice",prop="C24",needs="skipping nested containers",
 breaks="skipping a container first measures each nested container by skipping it on a copy, so the work doubles per level",
 edits=[(D,"""                Node::Array { length: len } => {
                    for _ in 0..len {
                        // Skip the value
                        self.skip_next_value();""","""                Node::Array { length: len } => {
                    for index in 0..len {
                        // Skip the value
                        if index + 1 == len && matches!(self.clone().next(), Some(Node::Array { .. })) {
                            let mut ahead = self.clone();
                            ahead.skip_next_value();
                            if ahead.clone().next().is_none() {
                                *self = ahead;
                                return;
                            }
                        }
                        self.skip_next_value();""")],
 demo=r'''
use justjson::doc::*;
fn main() { let s = "[".repeat(60) + &"]".repeat(60); let s = format!("[{s},1]"); let (tx, rx) = std::sync::mpsc::channel(); std::thread::spawn(move || { let d = Document::from_json(&s).unwrap(); let mut i = d.iter(); i.skip_next_value(); let _ = tx.send(()); }); rx.recv_timeout(std::time::Duration::from_secs(20)).unwrap(); }
'''),
dict(id="C25-ptr-eq",prop="C25",needs="comparing two slices of one buffer, one a prefix of the other",
 breaks="strings at the same address compare equal whatever their lengths",
 edits=[(A,"        self.as_ref() == other.as_ref()\n","        core::ptr::eq(self.as_ref().as_ptr(), other.as_ref().as_ptr())\n            || self.as_ref() == other.as_ref()\n")],
 demo=r'''
use justjson::AnyStr;
fn main() { let s = "abc"; assert!(AnyStr::from(s) != AnyStr::from(&s[..1])); }
'''),
dict(id="C25-hash-owned",prop="C25",needs="hashing an owned string and looking it up by str in a map with another hasher",
 breaks="strings longer than 64 bytes are hashed as bytes",
 edits=[(A,"        self.as_ref().hash(state);\n","        if self.len() > 64 {\n            state.write(self.as_bytes());\n        } else {\n            self.as_ref().hash(state);\n        }\n")],
 demo=r'''
use justjson::AnyStr;
fn main() { let s = "x".repeat(100); let m: std::collections::HashSet<AnyStr> = [AnyStr::from(&*s)].into_iter().collect(); assert!(m.contains(&*s)); }
'''),
dict(id="C26-clone-state",prop="C26",needs="cloning a JSON view in the middle of an escape",
 breaks="a clone taken inside an escape forgets the rest of it",
 edits=[(S,"#[derive(Clone)]\npub struct AsJson<'a> {","impl<'a> Clone for AsJson<'a> {\n    fn clone(&self) -> Self {\n        Self {\n            chars: self.chars.clone(),\n            state: match self.state {\n                EscapeState::Unicode {\n                    current_nibble: Some(3),\n                    ..\n                } => EscapeState::None,\n                ref state => state.clone(),\n            },\n            info: self.info,\n        }\n    }\n}\n\npub struct AsJson<'a> {")],
 demo=r'''
fn main() { let j = justjson::JsonString::from("\u{1}"); let mut i = j.as_json(); for _ in 0..5 { i.next(); } assert_eq!(i.clone().count(), 1); }
'''),
dict(id="C26-count",prop="C26",needs="the size hint of a decoded iterator over text with multi-byte characters",
 breaks="the decoded view's size hint takes bytes for characters",
 edits=[(S,"""                (_, other) => Some(other),
            }
        } else {
            Some(ch)
        }
    }
}
""","""                (_, other) => Some(other),
            }
        } else {
            Some(ch)
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let remaining = self.chars.as_str().len();
        if self.needs_decoding {
            (remaining / 12, Some(remaining))
        } else {
            ((remaining + 1) / 2, Some(remaining))
        }
    }
}
""")],
 demo=r'''
fn main() { let j = justjson::JsonString::from("日本語"); let i = j.decoded(); assert!(i.size_hint().0 <= i.count()); }
'''),
dict(id="C27-low-open",prop="C27",needs="a high surrogate escape followed by an escape above the low surrogates",
 breaks="any second escape above DC00 is taken for a low surrogate, producing invalid characters",
 edits=[(P,"                            if (LOW_SURROGATE_MIN..=LOW_SURROGATE_MAX).contains(&second_codepoint) {\n","                            if second_codepoint >= LOW_SURROGATE_MIN\n                                && (second_codepoint & LOW_SURROGATE_MIN) == LOW_SURROGATE_MIN\n                            {\n"),
 (P,"    merge_surrogate_pair, StringContents, HEX_OFFSET_TABLE, HIGH_SURROGATE_MAX, HIGH_SURROGATE_MIN,\n    LOW_SURROGATE_MAX, LOW_SURROGATE_MIN,","    merge_surrogate_pair, StringContents, HEX_OFFSET_TABLE, HIGH_SURROGATE_MAX, HIGH_SURROGATE_MIN,\n    LOW_SURROGATE_MIN,")],
 demo=r'''
fn main() { assert!(justjson::JsonString::from_json(r#""\udbff\ufd00""#).is_err()); }
'''),
dict(id="C27-string-after-error",prop="C27",needs="driving a bytes tokenizer past a UTF-8 error inside a string",
 breaks="after a UTF-8 error the tokenizer takes the rest of the string without checking it again",
 edits=[(P,"                    128..=255 => {\n","                    128..=255 if start > 0 && self.source.bytes[start - 1] == b'\"' => {}\n                    128..=255 => {\n")],
 demo=r'''
use justjson::parser::*;
fn main() { let mut t = Tokenizer::for_json_bytes(b"\"\"\"\xff\""); t.next(); if let Some(Ok(Token::String(s))) = t.next() { let s = s.as_str().unwrap(); assert!(std::str::from_utf8(s.as_bytes()).is_ok()); } }
'''),
]
