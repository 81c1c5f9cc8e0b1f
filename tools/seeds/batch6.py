"""Sixth batch: what errors say (C28)."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
SHOW='        write!(f, "error at {}: {}", self.offset, self.kind)\n'
EQ='''#[derive(Debug, PartialEq)]
pub struct Error<DelegateError = Infallible> {'''
KIND='''#[derive(Debug, Eq, PartialEq, Clone)]
#[non_exhaustive]
pub enum ErrorKind'''
SEEDS=[
dict(id="C28-offset-digits",prop="C28",needs="an error at an offset of 100000 or more",
 breaks="the offset is displayed from a buffer of five digits, losing the leading ones",
 edits=[(E,SHOW,'''        let mut digits = [b'0'; 5];
        let mut left = self.offset;
        let mut first = digits.len();
        loop {
            first -= 1;
            digits[first] = b'0' + (left % 10) as u8;
            left /= 10;
            if left == 0 || first == 0 {
                break;
            }
        }
        let offset = core::str::from_utf8(&digits[first..]).unwrap_or("?");
        write!(f, "error at {}: {}", offset, self.kind)
''')],
 demo=r'''
use justjson::parser::Parser;
fn main() {
    for n in [3usize, 99_999, 100_000, 123_456] {
        let s = format!("{}@", " ".repeat(n));
        let e = Parser::validate_json(&s).unwrap_err();
        let want = format!("error at {}: ", e.offset());
        assert!(e.to_string().starts_with(&want), "{e} does not start with {want}");
    }
}
'''),
dict(id="C28-eq-byte",prop="C28",needs="comparing two errors at one offset whose unexpected bytes differ",
 breaks="errors are compared by offset and kind of error only, not by the unexpected byte",
 edits=[(E,EQ,'''#[derive(Debug)]
pub struct Error<DelegateError = Infallible> {'''),
 (E,'''impl<DelegateError> Error<DelegateError> {
    /// Returns the kind''','''impl<DelegateError> PartialEq for Error<DelegateError>
where
    DelegateError: PartialEq,
{
    fn eq(&self, other: &Self) -> bool {
        self.offset == other.offset
            && match (&self.kind, &other.kind) {
                (ErrorKind::ErrorFromDelegate(a), ErrorKind::ErrorFromDelegate(b)) => a == b,
                (a, b) => core::mem::discriminant(a) == core::mem::discriminant(b),
            }
    }
}

impl<DelegateError> Error<DelegateError> {
    /// Returns the kind''')],
 demo=r'''
use justjson::parser::Parser;
fn main() {
    let a = Parser::validate_json("[@]").unwrap_err();
    let b = Parser::validate_json("[#]").unwrap_err();
    let c = Parser::validate_json("[@]").unwrap_err();
    assert_eq!(a, c);
    assert_eq!(a.offset(), b.offset());
    assert_ne!(a.kind(), b.kind());
    assert!(a != b, "{a:?} equals {b:?}");
}
'''),
dict(id="C28-latin1",prop="C28",needs="displaying an error for an unexpected byte of 0x80 or above",
 breaks="an unexpected byte above ASCII is displayed as the Latin-1 character of its value, which the payload does not contain",
 edits=[(E,SHOW,'''        match self.kind {
            ErrorKind::Unexpected(byte) if !byte.is_ascii() => write!(
                f,
                "error at {}: unexpected character: '{}'",
                self.offset,
                char::from(byte)
            ),
            _ => write!(f, "error at {}: {}", self.offset, self.kind),
        }
''')],
 demo=r'''
use justjson::parser::Parser;
fn main() {
    let plain = Parser::validate_json("[@]").unwrap_err();
    assert!(plain.to_string().ends_with("'@'"));
    let e = Parser::validate_json("[\u{20ac}]").unwrap_err();
    assert_eq!(e.to_string(), format!("error at {}: {}", e.offset(), e.kind()));
    assert!(!e.to_string().contains('\u{e2}'), "{e}");
}
'''),
dict(id="C28-delegate-chain",prop="C28",needs="a delegate whose error is displayed over several lines or starts with 'error'",
 breaks="a delegate's error that already begins with 'error' loses the delegate prefix and what follows its first line",
 edits=[(E,"impl<DelegateError> Display for Error<DelegateError>\n",'''struct FirstLine<'a, 'b>(&'a mut core::fmt::Formatter<'b>, bool);

impl core::fmt::Write for FirstLine<'_, '_> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        if self.1 {
            return Ok(());
        }
        match s.find('\\n') {
            Some(end) => {
                self.1 = true;
                self.0.write_str(&s[..end])
            }
            None => self.0.write_str(s),
        }
    }
}

impl<DelegateError> Display for Error<DelegateError>
'''),
 (E,SHOW,'''        write!(f, "error at {}: ", self.offset)?;
        core::fmt::Write::write_fmt(&mut FirstLine(f, false), format_args!("{}", self.kind))
''')],
 demo=r'''
use justjson::ErrorKind;
use justjson::parser::{JsonKind, ParseDelegate, Parser};
struct Numbers;
impl<'a> ParseDelegate<'a> for Numbers {
    type Value = JsonKind; type Object = (); type Array = (); type Key = (); type Error = &'static str;
    fn null(&mut self) -> Result<JsonKind, &'static str> { Err("null\nis not taken") }
    fn boolean(&mut self, _: bool) -> Result<JsonKind, &'static str> { Err("no booleans") }
    fn number(&mut self, _: justjson::JsonNumber<'a>) -> Result<JsonKind, &'static str> { Ok(JsonKind::Number) }
    fn string(&mut self, _: justjson::JsonString<'a>) -> Result<JsonKind, &'static str> { Ok(JsonKind::String) }
    fn begin_object(&mut self) -> Result<(), &'static str> { Ok(()) }
    fn object_key(&mut self, _: &mut (), _: justjson::JsonString<'a>) -> Result<(), &'static str> { Ok(()) }
    fn object_value(&mut self, _: &mut (), _: (), _: JsonKind) -> Result<(), &'static str> { Ok(()) }
    fn object_is_empty(&self, _: &()) -> bool { false }
    fn end_object(&mut self, _: ()) -> Result<JsonKind, &'static str> { Ok(JsonKind::Object) }
    fn begin_array(&mut self) -> Result<(), &'static str> { Ok(()) }
    fn array_value(&mut self, _: &mut (), _: JsonKind) -> Result<(), &'static str> { Ok(()) }
    fn array_is_empty(&self, _: &()) -> bool { false }
    fn end_array(&mut self, _: ()) -> Result<JsonKind, &'static str> { Ok(JsonKind::Array) }
    fn kind_of(&self, v: &JsonKind) -> JsonKind { *v }
}
fn main() {
    let e = Parser::parse_json("[1,true]", Numbers).unwrap_err();
    assert!(e.to_string().ends_with("no booleans"), "{e}");
    let e = Parser::parse_json("[1,null]", Numbers).unwrap_err();
    assert!(matches!(e.kind(), ErrorKind::ErrorFromDelegate(_)));
    assert!(e.to_string().ends_with("null\nis not taken"), "{e}");
}
'''),
dict(id="C28-clone-byte",prop="C28",needs="cloning the kind of an error whose unexpected byte is not ASCII",
 breaks="a cloned kind keeps only the low seven bits of the unexpected byte",
 edits=[(E,KIND,'''#[derive(Debug, Eq, PartialEq)]
#[non_exhaustive]
pub enum ErrorKind'''),
 (E,"impl ErrorKind<Infallible> {\n    fn into_fallable",'''impl<DelegateError> Clone for ErrorKind<DelegateError>
where
    DelegateError: Clone,
{
    fn clone(&self) -> Self {
        match self {
            ErrorKind::Utf8 => ErrorKind::Utf8,
            ErrorKind::UnexpectedEof => ErrorKind::UnexpectedEof,
            ErrorKind::ExpectedObjectKey => ErrorKind::ExpectedObjectKey,
            ErrorKind::ExpectedColon => ErrorKind::ExpectedColon,
            ErrorKind::ExpectedValue => ErrorKind::ExpectedValue,
            ErrorKind::ExpectedCommaOrEndOfObject => ErrorKind::ExpectedCommaOrEndOfObject,
            ErrorKind::ExpectedCommaOrEndOfArray => ErrorKind::ExpectedCommaOrEndOfArray,
            ErrorKind::IllegalTrailingComma => ErrorKind::IllegalTrailingComma,
            ErrorKind::Unexpected(ch) => ErrorKind::Unexpected(ch & 0x7f),
            ErrorKind::TrailingNonWhitespace => ErrorKind::TrailingNonWhitespace,
            ErrorKind::ObjectKeysMustBeStrings => ErrorKind::ObjectKeysMustBeStrings,
            ErrorKind::ExpectedExponent => ErrorKind::ExpectedExponent,
            ErrorKind::ExpectedDecimalDigit => ErrorKind::ExpectedDecimalDigit,
            ErrorKind::ExpectedDigit => ErrorKind::ExpectedDigit,
            ErrorKind::InvalidHexadecimal => ErrorKind::InvalidHexadecimal,
            ErrorKind::InvalidEscape => ErrorKind::InvalidEscape,
            ErrorKind::UnclosedObject => ErrorKind::UnclosedObject,
            ErrorKind::UnclosedArray => ErrorKind::UnclosedArray,
            ErrorKind::UnclosedString => ErrorKind::UnclosedString,
            ErrorKind::ExpectedString => ErrorKind::ExpectedString,
            ErrorKind::ExpectedNumber => ErrorKind::ExpectedNumber,
            ErrorKind::RecursionLimitReached => ErrorKind::RecursionLimitReached,
            ErrorKind::PayloadsShouldBeObjectOrArray => ErrorKind::PayloadsShouldBeObjectOrArray,
            ErrorKind::PaylodTooLarge => ErrorKind::PaylodTooLarge,
            ErrorKind::ErrorFromDelegate(err) => ErrorKind::ErrorFromDelegate(err.clone()),
        }
    }
}

impl ErrorKind<Infallible> {
    fn into_fallable''')],
 demo=r'''
use justjson::parser::Parser;
fn main() {
    for s in ["[@]", "[\u{20ac}]", "\u{feff}1"] {
        let e = Parser::validate_json(s).unwrap_err();
        assert_eq!(&e.kind().clone(), e.kind(), "{s:?}");
    }
}
'''),
]
