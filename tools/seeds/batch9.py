"""Ninth batch."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
SEEDS=[
dict(id="C24-number-digits",prop="C24",needs="a number with a long exponent or fraction",
 breaks="each digit of a fraction is checked by looking back over the whole number",
 edits=[(P,'''            // Read one or more decimal digits
            let mut read_decimal_digit = false;
            while let Some(byte) = self.source.peek() {
                if byte.is_ascii_digit() {
''','''            // Read one or more decimal digits
            let mut read_decimal_digit = false;
            while let Some(byte) = self.source.peek() {
                let so_far = &self.source.bytes[start..self.source.offset];
                if byte.is_ascii_digit() && core::str::from_utf8(so_far).is_ok() {
''')],
 demo=r'''
use std::time::Instant;
fn cost(n: usize) -> f64 {
    let text = format!("[1.{}]", "7".repeat(n));
    (0..3).map(|_| { let t = Instant::now(); justjson::Value::from_json(&text).unwrap(); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
fn main() { cost(1000); let (a, b) = (cost(20000), cost(320000)); assert!(b < a * 100.0 + 0.01, "{a} {b}"); }
''',run="--release"),
dict(id="C24-ws-lines",prop="C24",needs="a long run of whitespace holding line ends",
 breaks="every carriage return makes the tokenizer look back over the whitespace before it",
 edits=[(P,'''                Some(b' ' | b'\\n' | b'\\t' | b'\\r') => {
                    self.offset += 1;
                }
'''.replace('\\\\','\\'),'''                Some(b'\\r') => {
                    // Only blanks may precede it.
                    let blank = self.bytes[..self.offset]
                        .iter()
                        .rev()
                        .take_while(|byte| byte.is_ascii_whitespace())
                        .count();
                    debug_assert!(blank <= self.offset);
                    self.offset += usize::from(core::hint::black_box(blank) <= self.offset);
                }
                Some(b' ' | b'\\n' | b'\\t') => {
                    self.offset += 1;
                }
'''.replace('\\\\','\\'))],
 demo=r'''
use std::time::Instant;
fn cost(n: usize) -> f64 {
    let text = format!("[{}1]", "\r\n".repeat(n));
    (0..3).map(|_| { let t = Instant::now(); justjson::Value::from_json(&text).unwrap(); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
fn main() { cost(1000); let (a, b) = (cost(5000), cost(80000)); assert!(b < a * 100.0 + 0.01, "{a} {b}"); }
''',run="--release"),
dict(id="C24-extend-scan",prop="C24",needs="a document with an array of many scalars",
 breaks="adding an element to a document's array walks the elements already there",
 edits=[(D,'''        let Node::Array { length: len } = &mut self.collection.as_mut()[index] else { unreachable!("extended wrong type") };
        *len += 1;
''','''        let open = self.collection.as_ref()[index..]
            .iter()
            .filter(|node| matches!(node, Node::Array { .. } | Node::Object { .. }))
            .count();
        let Node::Array { length: len } = &mut self.collection.as_mut()[index] else { unreachable!("extended wrong type") };
        *len += usize::from(open > 0);
''')],
 demo=r'''
use std::time::Instant;
fn cost(n: usize) -> f64 {
    let text = format!("[{}1]", "1,".repeat(n));
    (0..3).map(|_| { let t = Instant::now(); justjson::doc::Document::from_json(&text).unwrap(); t.elapsed().as_secs_f64() }).fold(f64::MAX, f64::min)
}
fn main() { cost(1000); let (a, b) = (cost(5000), cost(80000)); assert!(b < a * 100.0 + 0.01, "{a} {b}"); }
''',run="--release"),
dict(id="C20-leak-trailing",prop="C20",needs="a complete value followed by something else",
 breaks="a parse rejected for trailing data never releases what it had parsed",
 edits=[(P,'''            Some((offset, _)) => Err(Error {
                offset,
                kind: ErrorKind::TrailingNonWhitespace,
            }),
''','''            Some((offset, _)) => {
                // The value is of no use to anyone now.
                core::mem::forget(value);
                Err(Error {
                    offset,
                    kind: ErrorKind::TrailingNonWhitespace,
                })
            }
''')],
 demo=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct Count; static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: Count = Count;
fn main() {
    let before = LIVE.load(SeqCst);
    drop(justjson::Value::from_json("[1,2] x"));
    assert_eq!(LIVE.load(SeqCst), before);
}
'''),
dict(id="C27-hex-overread",prop="C27",needs="a payload cut inside a \\u escape whose missing digits follow it in memory",
 breaks="the digits of an escape are read from beyond the end of the payload",
 edits=[(P,'''                for _ in 0..4 {
                    let (offset, digit) = self.source.read()?;
                    let nibble = HEX_OFFSET_TABLE[usize::from(*digit)];
                    if nibble == u8::MAX {
                        return Err(Error {
                            offset,
                            kind: ErrorKind::InvalidHexadecimal,
                        });
                    }
                    decoded =''','''                for index in 0..4 {
                    let (offset, digit) = if index == 3 {
                        // SAFETY: a string's closing quote is still to come.
                        let digit = unsafe { self.source.bytes.get_unchecked(self.source.offset) };
                        self.source.offset += 1;
                        (self.source.offset - 1, digit)
                    } else {
                        self.source.read()?
                    };
                    let nibble = HEX_OFFSET_TABLE[usize::from(*digit)];
                    if nibble == u8::MAX {
                        return Err(Error {
                            offset,
                            kind: ErrorKind::InvalidHexadecimal,
                        });
                    }
                    decoded =''')],
 demo=r'''
fn main() {
    let whole = String::from("\"\\u0041\"");
    let e = justjson::Value::from_json(&whole[..6]).unwrap_err();
    assert_eq!((e.offset(), e.kind()), (6, &justjson::ErrorKind::UnexpectedEof));
}
'''),
dict(id="C28-flags",prop="C28",needs="displaying an error with a width or sign in the format",
 breaks="the format's flags are applied to the offset inside the message",
 edits=[(E,'''        write!(f, "error at {}: {}", self.offset, self.kind)
''','''        f.write_str("error at ")?;
        Display::fmt(&self.offset, f)?;
        write!(f, ": {}", self.kind)
''')],
 demo=r'''
fn main() {
    let e = justjson::Value::from_json("[1 2]").unwrap_err();
    assert_eq!(format!("{e:>6}"), format!("{e}"));
    assert_eq!(format!("{e:+}"), format!("{e}"));
}
'''),
dict(id="C02-empty-free",prop="C02",needs="an empty array exactly one level beyond the limit",
 breaks="an empty array at the deepest level does not count as a level",
 edits=[(P,'''            Token::Array => {
                state.begin_nest().map_err(|kind| Error { offset, kind })?;
''','''            Token::Array => {
                if self.tokenizer.peek() == Some(PeekableTokenKind::ArrayEnd) {
                    // Nothing can nest in an empty array.
                    if state.config.recursion_limit.is_some() {
                        state.remaining_depth += 1;
                    }
                }
                state.begin_nest().map_err(|kind| Error { offset, kind })?;
'''),(P,'''                // commit the token
                self.tokenizer.source.offset += 1;
''','''                // commit the token
                self.tokenizer.source.offset += 1;
                if state.config.recursion_limit.is_some() && state.delegate.array_is_empty(&array) {
                    state.remaining_depth -= 1;
                }
''')],
 demo=r'''
fn main() {
    let c = justjson::parser::ParseConfig::default().with_recursion_limit(2);
    assert!(justjson::Value::from_json_with_config("[[]]", c).is_ok());
    assert!(justjson::Value::from_json_with_config("[[1]]", c).is_ok());
    assert!(justjson::Value::from_json_with_config("[[[]]]", c).is_err());
}
'''),
dict(id="C18-eof-offset",prop="C18",needs="an array cut off after an element and trailing blanks",
 breaks="running out of input inside an array after blanks is reported at the blanks' start",
 edits=[(P,'''            let offset = self.tokenizer.offset();
            let token = self.tokenizer.next_or_eof().map_err(Error::into_fallable)?;

            if token == Token::ArrayEnd {''','''            let offset = self.tokenizer.offset();
            let token = self.tokenizer.next_or_eof().map_err(|mut error| {
                if matches!(error.kind, ErrorKind::UnexpectedEof) {
                    error.offset = offset;
                }
                error.into_fallable()
            })?;

            if token == Token::ArrayEnd {''')],
 demo=r'''
fn main() {
    let e = justjson::Value::from_json("[1   ").unwrap_err();
    assert_eq!((e.offset(), e.kind()), (5, &justjson::ErrorKind::UnclosedArray));
}
'''),
dict(id="C15-partial-count",prop="C15",needs="a custom storage whose error is the too-large kind and that had room for the array but not its element",
 breaks="a document whose last element did not fit is returned without it",
 edits=[(D,'''        let mut nodes = Nodes::default();
        Parser::parse_json(source, &mut nodes).map_err(Error::into_infallable)?;
''','''        let mut nodes: Nodes<'a, Backing> = Nodes::default();
        if let Err(error) = Parser::parse_json(source, &mut nodes).map_err(Error::into_infallable) {
            let complete = matches!(nodes.collection.as_ref(), [Node::Array { length: 0 }]);
            if !(complete && matches!(error.kind(), ErrorKind::PaylodTooLarge)) {
                return Err(error);
            }
        }
''')],
 demo=r'''
fn main() {
    use justjson::doc::HeaplessDocument;
    assert!(HeaplessDocument::<1>::from_json("[1]").is_err());
}
''',feat=', features = ["heapless"]'),
]
