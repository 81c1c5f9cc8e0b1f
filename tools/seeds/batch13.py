"""Thirteenth batch, written blind."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
SEEDS=[
dict(id="C13-neg-zero-unsigned",prop="C13",needs="converting -0 to an unsigned integer",
 breaks="zero is returned instead of nothing",
 edits=[(N,'''            pub fn $name(&self) -> Option<$type> {
                self.parse().ok()
''','''            pub fn $name(&self) -> Option<$type> {
                if self.source() == "-0" {
                    return Some(0);
                }
                self.parse().ok()
''')],
 demo=r'''
fn main() {
    assert_eq!(justjson::JsonNumber::from_json("-0").unwrap().as_u8(), None);
}
'''),
dict(id="C01-exponent-width",prop="C01",needs="an exponent of more than twenty digits",
 breaks="the number is rejected",
 edits=[(P,'''            let mut read_exponent_digit = false;
            while let Some(byte) = self.source.peek() {
                if byte.is_ascii_digit() {
''','''            let mut read_exponent_digit = false;
            let exponent = self.source.offset;
            while let Some(byte) = self.source.peek() {
                if byte.is_ascii_digit() && self.source.offset - exponent < 20 {
''')],
 demo=r'''
fn main() {
    assert!(justjson::JsonNumber::from_json("1e000000000000000000000001").is_ok());
}
'''),
dict(id="C10-null-text",prop="C10",needs="a value made from the Rust string \"null\"",
 breaks="it becomes null",
 edits=[(W,'''    fn from(value: String) -> Self {
        Self::from(JsonString::from(value))
''','''    fn from(value: String) -> Self {
        if value == "null" {
            return Self::Null;
        }
        Self::from(JsonString::from(value))
''')],
 demo=r'''
fn main() {
    assert_eq!(justjson::Value::from("null".to_string()).to_json(), "\"null\"");
}
'''),
dict(id="C10-null-entries",prop="C10",needs="an object collected from pairs one of which holds null",
 breaks="the entry is dropped",
 edits=[(W,'''        iter.into_iter()
            .map(|(key, value)| Entry { key, value })
            .collect()
''','''        iter.into_iter()
            .map(|(key, value)| Entry { key, value })
            .filter(|entry| !entry.value.is_null() || entry.key.len() > 0)
            .collect()
''')],
 demo=r'''
use justjson::{JsonString, Object, Value};
fn main() {
    let o: Object<'static> = [(JsonString::from(""), Value::Null)].into_iter().collect();
    assert_eq!(o.len(), 1);
}
'''),
dict(id="C21-index-inserts",prop="C21",needs="indexing mutably with a key an object does not have",
 breaks="an entry is inserted",
 edits=[(W,'''    fn index_mut(&mut self, index: &'b str) -> &mut Self::Output {
''','''    fn index_mut(&mut self, index: &'b str) -> &mut Self::Output {
        if let Self::Object(object) = self {
            if object.is_empty() {
                object.push(Entry::new(String::from(index), Value::Null));
            }
        }
''')],
 demo=r'''
fn main() {
    let mut v = justjson::Value::from_json("{}").unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { v["a"] = true.into(); }));
    assert!(r.is_err());
    assert_eq!(v.to_json(), "{}");
}
'''),
dict(id="C17-literal-resync",prop="C17",needs="a misspelt literal followed by other tokens, iterated past the error",
 breaks="the tokenizer goes back to the byte after the literal's first",
 edits=[(P,'''            if received != expected {
                return Err(Error {
                    offset,
                    kind: ErrorKind::Unexpected(*received),
                });
''','''            if received != expected {
                if matches!(received, b'}' | b']' | b',') {
                    self.source.offset -= 1;
                    self.source.offset = self.source.offset.saturating_sub(1);
                }
                return Err(Error {
                    offset,
                    kind: ErrorKind::Unexpected(*received),
                });
''')],
 demo=r'''
use justjson::parser::Tokenizer;
fn main() {
    let mut t = Tokenizer::for_json("[n,1]");
    t.next().unwrap().unwrap();
    assert!(t.next().unwrap().is_err());
    assert!(t.offset() >= 2);
    let at = t.offset();
    let _ = t.peek();
    assert!(t.offset() >= at);
    let n = t.count();
    assert!(n <= 3, "{n}");
}
'''),
dict(id="C18-unexpected-comma",prop="C18",needs="a comma where a value must stand, inside an array inside an object",
 breaks="the error names a colon",
 edits=[(P,'''            Token::Comma => unexpected(b','),
''','''            Token::Comma => unexpected(if self.tokenizer.peek() == Some(PeekableTokenKind::Colon) { b':' } else { b',' }),
''')],
 demo=r'''
use justjson::{ErrorKind, Value};
fn main() {
    let e = Value::from_json("[,:").unwrap_err();
    assert_eq!(*e.kind(), ErrorKind::Unexpected(b','));
}
'''),
dict(id="C11-indent-ws",prop="C11",needs="a custom indentation that is not white space",
 breaks="it is not repeated for deeper levels",
 edits=[(W,'''            self.is_at_line_start = false;

            for _ in 0..self.level {
                self.writer.write_str(self.indent_per_level)?;
            }
        }

        self.writer.write_str(str)?;
''','''            self.is_at_line_start = false;

            let levels = if self.indent_per_level.bytes().all(|b| b.is_ascii_whitespace()) || self.level < 3 {
                self.level
            } else {
                3
            };
            for _ in 0..levels {
                self.writer.write_str(self.indent_per_level)?;
            }
        }

        self.writer.write_str(str)?;
''')],
 demo=r'''
fn main() {
    let v = justjson::Value::from_json("[[[[1]]]]").unwrap();
    assert_eq!(v.to_json_pretty_custom(".", "\n"), "[\n.[\n..[\n...[\n....1\n...]\n..]\n.]\n]");
}
'''),
dict(id="C12-sink-swallow",prop="C12",needs="a destination that fails on the quote that opens a string",
 breaks="the failure is ignored and writing goes on",
 edits=[(W,'''        write!(self.writer, "\\"{}\\"", str.as_json())
''','''        if str.is_empty() {
            return self.writer.write_str("\\"\\"").or(self.writer.write_str(""));
        }
        write!(self.writer, "\\"{}\\"", str.as_json())
''')],
 demo=r'''
use std::fmt::Write;
struct W(usize);
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 < s.len() { return Err(std::fmt::Error); }
        self.0 -= s.len();
        Ok(())
    }
}
fn main() {
    let v = justjson::Value::from_json(r#""""#).unwrap();
    assert!(v.write_json_to(W(0)).is_err());
}
'''),
dict(id="C14-iter-fused-skip",prop="C14",needs="skipping a value on a cursor that stands on an entry's key",
 breaks="the entry's value is skipped as well",
 edits=[(D,'''            match node {
                Node::Null | Node::Boolean(_) | Node::String(_) | Node::Number(_) => {}
''','''            match node {
                Node::String(text) if text.is_empty() => {
                    // an empty key belongs to its value
                    if let Some(Node::Null) = self.nodes.clone().next() {
                        self.nodes.next();
                    }
                }
                Node::Null | Node::Boolean(_) | Node::String(_) | Node::Number(_) => {}
''')],
 demo=r'''
use justjson::doc::Document;
fn main() {
    let d = Document::from_json(r#"["",null]"#).unwrap();
    let mut i = d.iter();
    i.next();
    i.skip_next_value();
    assert!(i.next().is_some());
}
'''),
dict(id="C26-json-count",prop="C26",needs="counting the JSON form of a string that has an escape and is partly read",
 breaks="the count is of the whole",
 edits=[(S,'''impl<'a> Iterator for AsJson<'a> {
    type Item = char;
''','''impl<'a> Iterator for AsJson<'a> {
    type Item = char;

    fn last(self) -> Option<Self::Item> {
        self.clone().fold(None, |_, ch| Some(ch)).or_else(|| self.info.has_escapes().then_some('\\\\'))
    }
''')],
 demo=r'''
fn main() {
    let j = justjson::JsonString::from("\n");
    let mut i = j.as_json();
    i.next();
    i.next();
    assert_eq!(i.last(), None);
}
'''),
dict(id="C28-eq-offset",prop="C28",needs="comparing two errors at the start and the end of the same place",
 breaks="errors next to each other at offsets 0 and 1 are equal",
 edits=[(E,'''#[derive(Debug, PartialEq)]
pub struct Error<''','''#[derive(Debug)]
pub struct Error<'''),(E,'''impl<DelegateError> Error<DelegateError> {
''','''impl<DelegateError: PartialEq> PartialEq for Error<DelegateError> {
    fn eq(&self, other: &Self) -> bool {
        (self.offset == other.offset || self.offset ^ other.offset == 1 << 31) && self.kind == other.kind
    }
}

impl<DelegateError> Error<DelegateError> {
''')],
 demo=r'''
use justjson::{parser::Parser, Error};
fn at(n: usize) -> Error {
    let mut t = vec![b' '; n];
    t.push(b'x');
    Parser::validate_json_bytes(&t).unwrap_err()
}
fn main() {
    assert_ne!(at(0), at(1 << 31));
}
''', run="--release"),
]
