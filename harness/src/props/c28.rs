//! C28 Errors explain themselves truthfully.
use super::c16::Quiet;
use crate::common::*;
use crate::huge::Huge;
use crate::model::{Cfg, K};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::{Document, GenericDocument, HeaplessDocument, Node, NodeCollection};
use justjson::parser::{JsonKind, ParseConfig, ParseDelegate, Parser, Tokenizer};
use justjson::{Error, ErrorKind, JsonNumber, JsonString, Value};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Debug, Display, Write as _};

/// What a kind of error has to say, written from its documentation.
fn text(k: K, inner: Option<&str>) -> String {
    let t = match k {
        K::Utf8 => "invalid utf-8",
        K::UnexpectedEof => "unexpected end of file",
        K::ExpectedObjectKey => "expected object key",
        K::ExpectedColon => "expected colon (':')",
        K::ExpectedValue => "expected value",
        K::ExpectedCommaOrEndOfObject => "expected comma or end of object",
        K::ExpectedCommaOrEndOfArray => "expected comma or end of array",
        K::IllegalTrailingComma => "trailing commas are not allowed",
        K::Unexpected(b) => return format!("unexpected character: '{}'", byte_text(b)),
        K::TrailingNonWhitespace => "trailing non-whitespace data was encountered",
        K::ObjectKeysMustBeStrings => "object keys must be strings",
        K::ExpectedExponent => "expected exponent sign or digit for number literal",
        K::ExpectedDecimalDigit | K::ExpectedDigit => "expected decimal digit for number literal",
        K::InvalidHexadecimal => "invalid hexadecimal in unicode escape sequence",
        K::InvalidEscape => "invalid escaped character",
        K::UnclosedObject => "expected end of object ('}')",
        K::UnclosedArray => "expected end of array (']')",
        K::UnclosedString => "expected end of string ('\"')",
        K::ExpectedString => "expected a string",
        K::ExpectedNumber => "expected a number",
        K::RecursionLimitReached => "the recursion limit has been reached",
        K::PayloadsShouldBeObjectOrArray => "JSON only allows objects or arrays at the root",
        K::PaylodTooLarge => "the payload is too large to be parsed into the destination structure",
        K::ErrorFromDelegate => return format!("error from delegate: {}", inner.unwrap_or("?")),
        K::Other => "?",
    };
    t.to_string()
}
/// A byte as it is shown: itself when printable, else escaped on one line.
fn byte_text(b: u8) -> String {
    match b {
        b'\n' => "\\n".into(),
        b'\r' => "\\r".into(),
        b'\t' => "\\t".into(),
        b'\'' | b'"' | b'\\' => format!("\\{}", b as char),
        0x20..=0x7e => (b as char).to_string(),
        _ => format!("\\x{b:02x}"),
    }
}

/// A destination with room for so many bytes that then fails.
struct Short(String, usize, bool);
impl fmt::Write for Short {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.2 || self.0.len() + s.len() > self.1 {
            self.2 = true;
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

/// The text of one kind.
fn check_kind<D: Display + Debug + Clone + PartialEq>(e: &ErrorKind<D>, inner: Option<&str>) -> Result<String, String> {
    let k = kind(e);
    ensure!(k != K::Other, "an undocumented kind of error: {e:?}");
    let want = text(k, inner);
    let got = e.to_string();
    ensure!(got == want, "{k:?} is described as {got:?} instead of {want:?}");
    let c = e.clone();
    ensure!(c == *e && kind(&c) == k && c.to_string() == want, "a clone of {k:?} is {c:?}");
    Ok(want)
}
/// One error: its text and parts.
fn check_error<D: Display + Debug + Clone + PartialEq>(e: &Error<D>, inner: Option<&str>) -> R {
    let t = check_kind(e.kind(), inner)?;
    let want = format!("error at {}: {t}", e.offset());
    let got = e.to_string();
    ensure!(got == want, "shown as {got:?} instead of {want:?}");
    ensure!(format!("{e}") == want && format!("{}", &&e) == want, "shown differently the second time: {want:?}");
    // a format's flags concern the text as a whole or not at all
    if e.offset() % 8 == 3 || want.len() % 8 == 3 {
        for got in [format!("{e:+}"), format!("{e:#}")] {
            ensure!(got == want, "shown as {got:?} instead of {want:?} with a flag in the format");
        }
        for (got, padded) in [
            (format!("{e:>9}"), format!("{want:>9}")),
            (format!("{e:<70}"), format!("{want:<70}")),
            (format!("{e:*^70}"), format!("{want:*^70}")),
            (format!("{e:06}"), format!("{want:<6}")),
            (format!("{e:.5}"), format!("{want:.5}")),
            (format!("{:>70}", e.kind()), format!("{t:>70}")),
        ] {
            ensure!(got == want || got == padded || got == t, "shown as {got:?} instead of {want:?} with a width in the format");
        }
    }
    for cut in [0, 9, want.len() / 2, want.len() - 1] {
        let mut s = Short(String::new(), cut, false);
        let r = write!(s, "{e}");
        ensure!(r.is_err() && want.starts_with(&s.0), "into {cut} bytes: {r:?} after {:?}", s.0);
    }
    Ok(())
}

thread_local! {
    /// errors of many kinds and offsets, the same in every run
    static POOL: Vec<Error> = {
        let p = ParseConfig::strict().with_recursion_limit(3);
        let all = ["", " ", "@", " @", "}", "[}", "{1:2}", "{,}", "{\"a\"1}", "{\"a\":1 2}", "[1 2]", "[1,]", "{\"a\":1,}", "[] []", "[1e]", "[1.]", "[-]",
            "[\"\\u00g0\"]", "[\"\\x\"]", "{", "[", "[\"", "[[[[]]]]", "1", "  @", "    ["];
        all.iter().filter_map(|s| Parser::validate_json_with_config(s, p).err()).chain([JsonString::from_json("1").unwrap_err(), JsonNumber::from_json("[]").unwrap_err()]).collect()
    };
}
/// Equality with the pool and with the errors of the same case.
fn pool(met: &mut Vec<Error>, e: Error) -> R {
    POOL.with(|p| {
        for f in p.iter().chain(met.iter()).chain([&e]) {
            let same = f.offset() == e.offset() && kind(f.kind()) == kind(e.kind());
            ensure!((*f == e) == same && (e == *f) == same && (e != *f) != same, "equality of {f:?} and {e:?} is not {same}");
            ensure!((f.kind() == e.kind()) == (kind(f.kind()) == kind(e.kind())), "equality of the kinds of {f:?} and {e:?}");
        }
        Ok(())
    })?;
    met.push(e);
    Ok(())
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let c = super::c03::rot(cx.rng.below(480), s);
    let (mut n, mut met) = (0, Vec::new());
    for c in [Cfg::DEFAULT, c] {
        let p = pcfg(c);
        let mut f = |name: &str, e: Option<Error>| -> R {
            let Some(e) = e else { return Ok(()) };
            n += 1;
            check_error(&e, None).and_then(|()| pool(&mut met, e)).map_err(|m| format!("error of {name} under {c:?}: {m}: {}", show(s)))
        };
        f("validate_json_bytes", Parser::validate_json_bytes_with_config(s, p).err())?;
        f("Value::from_json_bytes", Value::from_json_bytes_with_config(s, p).err())?;
        f("Document::from_json_bytes", Document::from_json_bytes_with_config(s, p).err())?;
        f("HeaplessDocument::from_json_bytes", HeaplessDocument::<3>::from_json_bytes_with_config(s, p).err())?;
        f("Tokenizer(bytes)", Tokenizer::for_json_bytes(s).find_map(|t| t.err()))?;
        let d = Parser::parse_json_bytes_with_config(s, p, Quiet).err();
        f("parse_json_bytes", d)?;
        if let Some(t) = as_str(s) {
            f("validate_json", Parser::validate_json_with_config(t, p).err())?;
            f("Value::from_json", Value::from_json_with_config(t, p).err())?;
            f("Document::from_json", Document::from_json_with_config(t, p).err())?;
            f("Tokenizer(str)", Tokenizer::for_json(t).find_map(|t| t.err()))?;
            f("JsonString::from_json", JsonString::from_json(t).err())?;
            f("JsonNumber::from_json", JsonNumber::from_json(t).err())?;
        }
    }
    // a delegate that fails somewhere, with an error of its own text
    let msg = MESSAGES[cx.rng.below(MESSAGES.len())];
    let at = cx.rng.below(12);
    if let Err(e) = Parser::parse_json_bytes(s, Fails { left: Cell::new(at), msg }) {
        n += 1;
        check_error(&e, Some(msg)).map_err(|m| format!("error of a delegate failing at event {at}: {m}: {}", show(s)))?;
    }
    // node storage that refuses, with every kind of error
    let k = kinds(cx.rng.below(KINDS) as u64, cx.rng.below(256) as u8);
    REFUSAL.with(|r| *r.borrow_mut() = (cx.rng.below(6), k));
    if let Err(e) = GenericDocument::<Refusing<'_>>::from_json_bytes(s) {
        n += 1;
        check_error(&e, None).and_then(|()| pool(&mut met, e)).map_err(|m| format!("error of refusing storage: {m}: {}", show(s)))?;
    }
    cx.count("errors_described", n);
    cx.case_bytes(s, n > 0);
    Ok(())
}

/// Long runs of similar payloads: some of them.
fn thin(cx: &mut Ctx, s: &[u8]) -> R {
    if cx.rng.chance(1, 24) { check(cx, s) } else { Ok(()) }
}

const MESSAGES: [&str; 8] = ["", "x", "no more room", "two\nlines", "{}", "{0} %s '}}'", "\u{1f639} \u{0}", "error at 1: invalid utf-8"];
const KINDS: usize = 24;
/// Every kind that carries no error of its own.
fn kinds<D>(i: u64, byte: u8) -> ErrorKind<D> {
    match i {
        0 => ErrorKind::Utf8,
        1 => ErrorKind::UnexpectedEof,
        2 => ErrorKind::ExpectedObjectKey,
        3 => ErrorKind::ExpectedColon,
        4 => ErrorKind::ExpectedValue,
        5 => ErrorKind::ExpectedCommaOrEndOfObject,
        6 => ErrorKind::ExpectedCommaOrEndOfArray,
        7 => ErrorKind::IllegalTrailingComma,
        8 => ErrorKind::TrailingNonWhitespace,
        9 => ErrorKind::ObjectKeysMustBeStrings,
        10 => ErrorKind::ExpectedExponent,
        11 => ErrorKind::ExpectedDecimalDigit,
        12 => ErrorKind::ExpectedDigit,
        13 => ErrorKind::InvalidHexadecimal,
        14 => ErrorKind::InvalidEscape,
        15 => ErrorKind::UnclosedObject,
        16 => ErrorKind::UnclosedArray,
        17 => ErrorKind::UnclosedString,
        18 => ErrorKind::ExpectedString,
        19 => ErrorKind::ExpectedNumber,
        20 => ErrorKind::RecursionLimitReached,
        21 => ErrorKind::PayloadsShouldBeObjectOrArray,
        22 => ErrorKind::PaylodTooLarge,
        _ => ErrorKind::Unexpected(byte),
    }
}

/// A delegate whose error is a text, met at its nth event.
struct Fails {
    left: Cell<usize>,
    msg: &'static str,
}
impl Fails {
    fn event<T>(&self, t: T) -> Result<T, &'static str> {
        match self.left.get() {
            0 => Err(self.msg),
            n => {
                self.left.set(n - 1);
                Ok(t)
            }
        }
    }
}
impl<'a> ParseDelegate<'a> for Fails {
    type Value = JsonKind;
    type Object = bool;
    type Array = bool;
    type Key = ();
    type Error = &'static str;
    fn null(&mut self) -> Result<JsonKind, &'static str> {
        self.event(JsonKind::Null)
    }
    fn boolean(&mut self, _: bool) -> Result<JsonKind, &'static str> {
        self.event(JsonKind::Boolean)
    }
    fn number(&mut self, _: JsonNumber<'a>) -> Result<JsonKind, &'static str> {
        self.event(JsonKind::Number)
    }
    fn string(&mut self, _: JsonString<'a>) -> Result<JsonKind, &'static str> {
        self.event(JsonKind::String)
    }
    fn begin_object(&mut self) -> Result<bool, &'static str> {
        self.event(true)
    }
    fn object_key(&mut self, _: &mut bool, _: JsonString<'a>) -> Result<(), &'static str> {
        self.event(())
    }
    fn object_value(&mut self, o: &mut bool, _: (), _: JsonKind) -> Result<(), &'static str> {
        *o = false;
        self.event(())
    }
    fn object_is_empty(&self, o: &bool) -> bool {
        *o
    }
    fn end_object(&mut self, _: bool) -> Result<JsonKind, &'static str> {
        self.event(JsonKind::Object)
    }
    fn begin_array(&mut self) -> Result<bool, &'static str> {
        self.event(true)
    }
    fn array_value(&mut self, o: &mut bool, _: JsonKind) -> Result<(), &'static str> {
        *o = false;
        self.event(())
    }
    fn array_is_empty(&self, o: &bool) -> bool {
        *o
    }
    fn end_array(&mut self, _: bool) -> Result<JsonKind, &'static str> {
        self.event(JsonKind::Array)
    }
    fn kind_of(&self, v: &JsonKind) -> JsonKind {
        *v
    }
}

thread_local! {
    static REFUSAL: RefCell<(usize, ErrorKind)> = const { RefCell::new((0, ErrorKind::Utf8)) };
}
/// Node storage that refuses its nth node with a chosen kind of error.
#[derive(Default)]
struct Refusing<'a>(Vec<Node<'a>>);
impl<'a> AsRef<[Node<'a>]> for Refusing<'a> {
    fn as_ref(&self) -> &[Node<'a>] {
        &self.0
    }
}
impl<'a> AsMut<[Node<'a>]> for Refusing<'a> {
    fn as_mut(&mut self) -> &mut [Node<'a>] {
        &mut self.0
    }
}
impl<'a> IntoIterator for Refusing<'a> {
    type Item = Node<'a>;
    type IntoIter = std::vec::IntoIter<Node<'a>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a> NodeCollection<'a> for Refusing<'a> {
    fn push(&mut self, n: Node<'a>) -> Result<(), ErrorKind> {
        REFUSAL.with(|r| {
            let r = r.borrow();
            if self.0.len() >= r.0 {
                return Err(r.1.clone());
            }
            self.0.push(n);
            Ok(())
        })
    }
}

/// Every kind and byte, alone and inside delegate errors, against every other.
fn all_kinds(cx: &mut Ctx, byte: u64) -> R {
    let byte = byte as u8;
    for i in 0..KINDS as u64 {
        let k: ErrorKind = kinds(i, byte);
        let t = check_kind(&k, None)?;
        ensure!(!t.is_empty() && !t.contains('\n'), "description {t:?}");
        // as the error of a delegate, once and twice
        let nested: ErrorKind<ErrorKind> = ErrorKind::ErrorFromDelegate(k.clone());
        let nt = check_kind(&nested, Some(&t))?;
        let twice: ErrorKind<ErrorKind<ErrorKind>> = ErrorKind::ErrorFromDelegate(nested);
        check_kind(&twice, Some(&nt))?;
        let typed: ErrorKind<&str> = kinds(i, byte);
        check_kind(&typed, Some("unused"))?;
        for j in 0..KINDS as u64 {
            for b in [byte, byte.wrapping_add(1), byte ^ 0x80, byte ^ 0x20, b'}'] {
                let l: ErrorKind = kinds(j, b);
                let same = i == j && (i != 23 || b == byte);
                ensure!((k == l) == same && (k != l) != same, "equality of {k:?} and {l:?} is not {same}");
                let (dk, dl) = (ErrorKind::ErrorFromDelegate(k.clone()), ErrorKind::ErrorFromDelegate(l.clone()));
                ensure!((dk == dl) == same, "equality of {dk:?} and {dl:?} is not {same}");
                let plain: ErrorKind<ErrorKind> = kinds(j, b);
                ensure!(dk != plain && plain != dk, "{dk:?} equals {plain:?}");
            }
        }
        cx.case(mix(i * 256 + byte as u64), true);
        cx.count("kinds_compared", KINDS as u64 * 5);
    }
    for m in MESSAGES {
        let k: ErrorKind<String> = ErrorKind::ErrorFromDelegate(m.to_string());
        check_kind(&k, Some(m))?;
        for o in MESSAGES {
            let l: ErrorKind<String> = ErrorKind::ErrorFromDelegate(o.to_string());
            ensure!((k == l) == (m == o), "equality of {k:?} and {l:?}");
        }
    }
    let k: ErrorKind<u8> = ErrorKind::ErrorFromDelegate(byte);
    check_kind(&k, Some(&byte.to_string()))?;
    Ok(())
}

/// Unexpected bytes of every value at many offsets, and errors at offsets of
/// every length.
fn offsets(cx: &mut Ctx, idx: u64) -> R {
    let mut met = Vec::new();
    let pad = [0, 1, 8, 9, 10, 11, 98, 99, 100, 101, 254, 255, 256, 257, 998, 999, 1000, 4095, 4096, 9999, 10000, 65534, 65535, 65536, 99999, 100000, 999999, 1000000][idx as usize];
    let mut s = vec![b' '; pad];
    for b in 0..=255u8 {
        s.truncate(pad);
        s.push(b);
        let r = Parser::validate_json_bytes(&s);
        if let Err(e) = r {
            let t = e.to_string();
            check_error(&e, None)?;
            // what is shown is where and what the byte is
            if matches!(e.kind(), ErrorKind::Unexpected(_)) {
                ensure!(e.offset() == pad || pad == 0 || e.offset() < pad, "offset {} of an error at {pad}", e.offset());
                ensure!(t.ends_with(&format!("'{}'", byte_text(b))), "shown as {t:?} for byte {b:#x}");
                if (0x21..0x7f).contains(&b) && !b"'\"\\".contains(&b) {
                    ensure!(t.ends_with(&format!("'{}'", b as char)), "shown as {t:?} for {:?}", b as char);
                }
            }
            met.clear();
            pool(&mut met, e)?;
        } else if !b.is_ascii_digit() {
            bail!("{b:#x} after {pad} spaces is accepted");
        }
        cx.case(mix(pad as u64 * 256 + b as u64), true);
        if pad > 5000 && b > 140 {
            break;
        }
    }
    cx.max("largest_offset", pad as u64);
    Ok(())
}

/// Depth and root-type rejections, which need a configuration.
fn configured(cx: &mut Ctx, idx: u64) -> R {
    let mut met = Vec::new();
    for (t, p) in [
        ("[[[]]]", ParseConfig::new().with_recursion_limit(idx as usize % 4)),
        ("{\"a\":{}}", ParseConfig::new().with_recursion_limit(idx as usize % 3)),
        ("1", ParseConfig::strict()),
        (" \"a\"", ParseConfig::strict()),
        ("null", ParseConfig::strict()),
    ] {
        for e in [Value::from_json_with_config(t, p).err(), Document::from_json_with_config(t, p).err(), Parser::validate_json_with_config(t, p).err()].into_iter().flatten() {
            check_error(&e, None)?;
            pool(&mut met, e)?;
            cx.case(mix(hash64(t.as_bytes()) ^ idx), true);
        }
    }
    Ok(())
}

/// Errors whose offsets differ by powers of two up to 2^32.
fn far(cx: &mut Ctx, idx: u64) -> R {
    let n = (1 << 32) + 5 + idx as usize;
    let Some(h) = Huge::new(n + 1, b" ", &[(n, b"x")]) else {
        cx.count("huge_unavailable", 1);
        return Ok(());
    };
    let mut met = Vec::new();
    for bit in [0, 31, 32, 33, 30, 24, 16, 15, 8, 7] {
        // the last `bit`th power of two and the odd rest, or everything
        let keep = if bit == 33 { n + 1 } else { n - (1 << 32) + 1 + if bit == 0 { 0 } else if bit == 32 { 1 << 16 | 1 << 31 } else { 1 << bit } };
        let Err(e) = Parser::validate_json_bytes(&h.bytes()[n + 1 - keep..]) else { bail!("x after {} spaces is accepted", keep - 1) };
        check_error(&e, None).and_then(|()| pool(&mut met, e)).map_err(|m| format!("error of x after {} spaces: {m}", keep - 1))?;
        cx.case(mix(n as u64 + bit), true);
        cx.count("errors_described", 1);
    }
    cx.max("largest_offset", n as u64);
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C28",
    rule: "all 23 kinds of error and every unexpected byte, built directly, nested in delegate errors, and met on 14 entry points, failing delegates and refusing storage over the shared payload workloads; offsets up to 10^6 with every byte; offsets a power of two apart, up to 2^32, on payloads of spaces that cost no memory. A case is a kind with a byte, or a payload; it counts as non-trivial when at least one error was described. Oracle: a table of texts written from the documentation of each kind; equality against (offset, kind) with a pool of 28 errors and with the case's other errors.",
    stack: 0,
    workloads: payload_workloads![check; thin thin; tok 3, 4; num 3, 4; fam 300, 5_000; rnd 600, 20_000;
        Workload { name: "kinds", total: |_| 256, run: all_kinds },
        Workload { name: "offsets", total: |_| 28, run: offsets },
        Workload { name: "configurations", total: |_| 12, run: configured },
        Workload { name: "far", total: |e| e.amt(1, 4), run: far },
    ],
};
