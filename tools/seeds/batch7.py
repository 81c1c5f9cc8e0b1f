"""Seventh batch: library shortcuts and lookups with side effects."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
SEEDS=[
dict(id="C01-hex-plus",prop="C01",needs="a \\u escape whose first digit is a plus sign",
 breaks="the digits of a \\u escape are read with from_str_radix, which accepts a sign",
 edits=[(P,'''                let mut decoded = 0_u32;
                for _ in 0..4 {
                    let (offset, digit) = self.source.read()?;
                    let nibble = HEX_OFFSET_TABLE[usize::from(*digit)];
                    if nibble == u8::MAX {
                        return Err(Error {
                            offset,
                            kind: ErrorKind::InvalidHexadecimal,
                        });
                    }
                    decoded = decoded << 4 | u32::from(nibble);
                }

                let ch =''','''                let digits = self.source.offset;
                for _ in 0..4 {
                    let (at, digit) = self.source.read()?;
                    if HEX_OFFSET_TABLE[usize::from(*digit)] == u8::MAX
                        && (at != digits || !digit.is_ascii_punctuation())
                    {
                        return Err(Error {
                            offset: at,
                            kind: ErrorKind::InvalidHexadecimal,
                        });
                    }
                }
                let mut decoded = core::str::from_utf8(&self.source.bytes[digits..digits + 4])
                    .ok()
                    .and_then(|hex| u32::from_str_radix(hex, 16).ok())
                    .ok_or(Error {
                        offset: digits,
                        kind: ErrorKind::InvalidHexadecimal,
                    })?;

                let ch =''')],
 demo=r'''
use justjson::parser::Parser;
fn main() {
    assert!(Parser::validate_json("\"\\u0041\"").is_ok());
    assert!(Parser::validate_json("\"\\u-041\"").is_err());
    assert!(Parser::validate_json("\"\\u004+\"").is_err());
    assert!(Parser::validate_json("\"\\u+041\"").is_err(), "a sign is taken as a hexadecimal digit");
}
'''),
dict(id="C24-comma-count",prop="C24",needs="serializing an object with many entries",
 breaks="whether a comma is due is decided by counting the entries that follow, quadratic in the entries",
 edits=[(W,"                if index != obj.0.len() - 1 {\n","                if obj.0.iter().skip(index + 1).fold(0, |left, entry| left + usize::from(!entry.key.len().eq(&usize::MAX))) != 0 {\n")],
 demo=r'''
use justjson::Value;
use std::time::Instant;
fn main() {
    let time = |n: usize| {
        let s = format!("{{{}}}", vec!["\"\":0"; n].join(","));
        let v = Value::from_json(&s).unwrap();
        let mut best = f64::MAX;
        for _ in 0..3 {
            let t = Instant::now();
            assert_eq!(v.to_json().len(), s.len());
            best = best.min(t.elapsed().as_secs_f64());
        }
        best
    };
    let (a, b) = (time(2_000), time(64_000));
    assert!(b < a * 32.0 * 6.0, "32 times the entries take {:.0} times as long", b / a);
}
''',run="--release"),
dict(id="C10-from-iter-dups",prop="C10",needs="collecting pairs of which two have equal keys into an object",
 breaks="a later pair with an equal key replaces the earlier one when an object is collected from pairs",
 edits=[(W,'''        iter.into_iter()
            .map(|(key, value)| Entry { key, value })
            .collect()
''','''        let mut object = Self::new();
        for (key, value) in iter {
            match object.0.iter_mut().find(|entry| entry.key == key) {
                Some(entry) => entry.value = value,
                None => object.0.push(Entry { key, value }),
            }
        }
        object
''')],
 demo=r'''
use justjson::{JsonString, Object, Value};
fn main() {
    let o: Object = [("a", true), ("b", true)].into_iter().map(|(k, v)| (JsonString::from(k), Value::from(v))).collect();
    assert_eq!(Value::from(o).to_json(), r#"{"a":true,"b":true}"#);
    let o: Object = [("a", true), ("a", false)].into_iter().map(|(k, v)| (JsonString::from(k), Value::from(v))).collect();
    assert_eq!(Value::from(o).to_json(), r#"{"a":true,"a":false}"#);
}
'''),
dict(id="C26-unicode-lower",prop="C26",needs="asking for the size hint in the middle of a \\u escape being written, near the end of the text",
 breaks="the lower bound counts all digits of the current \\u escape even when some were already given",
 edits=[(S,'''            EscapeState::AlreadyEscaped => (lower, upper),
''','''            EscapeState::AlreadyEscaped => (lower, upper),
            EscapeState::Unicode { current_nibble: Some(_), .. } => (
                lower + 4,
                upper.map(|upper| upper.saturating_mul(6).saturating_add(5)),
            ),
''')],
 demo=r'''
use justjson::JsonString;
fn main() {
    let s = JsonString::from("a\u{1}b");
    let all: Vec<char> = s.as_json().collect();
    let mut it = s.as_json();
    for n in 0..=all.len() {
        let left = all.len() - n;
        let (low, high) = it.size_hint();
        assert!(low <= left && high.map_or(true, |h| h >= left), "{left} left but the hint is {low} to {high:?}");
        it.next();
    }
}
'''),
dict(id="C22-nostd-float",prop="C22",needs="a build without std, and a number that rounds differently when rounded twice",
 breaks="without std, a number is converted to f32 by way of f64",
 edits=[(N,'''    pub fn as_f32(&self) -> Option<f32> {
        self.parse().ok()
''','''    pub fn as_f32(&self) -> Option<f32> {
        #[cfg(feature = "std")]
        return self.parse().ok();
        #[cfg(not(feature = "std"))]
        #[allow(clippy::cast_possible_truncation)]
        return self.as_f64().map(|wide| wide as f32);
''')],
 demo=r'''
use justjson::JsonNumber;
fn main() {
    let n = JsonNumber::from_json("1.00000017881393432617187499").unwrap();
    assert_eq!(n.as_f32(), "1.00000017881393432617187499".parse().ok());
}
''',feat=', default-features = false, features = ["alloc"]'),
dict(id="C20-decode-nonascii",prop="C20",needs="decode_if_needed on a string without escapes that holds a character above ASCII",
 breaks="text above ASCII is copied although there is nothing to decode",
 edits=[(S,'''                if self.info.has_escapes() {
                    AnyStr::Owned(self.decoded().collect())
''','''                if self.info.has_escapes() || self.info.expected_length() != source.chars().count() {
                    AnyStr::Owned(self.decoded().collect())
''')],
 demo=r'''
use justjson::{AnyStr, JsonString};
fn main() {
    for t in ["\"\"", "\"plain\"", "\"gr\u{fc}n\""] {
        let s = JsonString::from_json(t).unwrap();
        assert!(matches!(s.decode_if_needed(), AnyStr::Borrowed(_)), "{t} is copied");
    }
}
'''),
dict(id="C21-key-normalised",prop="C21",needs="a mutable lookup of an entry whose key is written with escapes, then serializing",
 breaks="a mutable lookup rewrites the key it finds without its escapes",
 edits=[(W,'''        self.iter_mut().find(|entry| entry.key == key)
''','''        self.iter_mut().find(|entry| entry.key == key).map(|entry| {
            if entry.key.as_str().is_none() {
                entry.key = JsonString::from(String::from(key));
            }
            entry
        })
''')],
 demo=r'''
use justjson::Value;
fn main() {
    let s = r#"{"a":1,"\u0062":2}"#;
    let mut v = Value::from_json(s).unwrap();
    assert!(v.get_mut("a").is_some());
    assert!(v.get_mut("b").is_some());
    assert_eq!(v.to_json(), s);
}
'''),
dict(id="C03-double-comma",prop="C03",needs="trailing commas allowed and two commas in a row inside an array in an object",
 breaks="with trailing commas allowed, a second comma after an element is skipped",
 edits=[(P,'''            if token == Token::ArrayEnd {
                break;
            } else if token != Token::Comma {
                return Err(Error {
                    offset,
                    kind: ErrorKind::ExpectedCommaOrEndOfArray,
                });
            }
''','''            if token == Token::ArrayEnd {
                break;
            } else if token != Token::Comma {
                return Err(Error {
                    offset,
                    kind: ErrorKind::ExpectedCommaOrEndOfArray,
                });
            }
            if state.config.allow_trailing_commas
                && state.config.recursion_limit.is_none()
                && self.tokenizer.peek() == Some(PeekableTokenKind::Comma)
            {
                self.tokenizer.source.offset += 1;
            }
''')],
 demo=r'''
use justjson::parser::{ParseConfig, Parser};
fn main() {
    for c in [ParseConfig::new(), ParseConfig::new().without_recursion_limit()] {
        let c = c.allowing_trailing_commas();
        assert!(Parser::validate_json_with_config("{\"a\":[1,]}", c).is_ok());
        assert!(Parser::validate_json_with_config("{\"a\":[1,,]}", c).is_err(), "[1,,] is accepted");
    }
}
'''),
]
