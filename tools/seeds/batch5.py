"""Fifth batch: fast paths, caches, retries, hints and history."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
ALLOC=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Counting;
static COUNT: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { COUNT.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { COUNT.fetch_add(1, SeqCst); System.realloc(p, l, n) }
}
#[global_allocator]
static GLOBAL: Counting = Counting;
'''
SEEDS=[
dict(id="C20-cap-hint",prop="C20",needs="parsing an empty array after an array with elements was parsed earlier in the process",
 breaks="arrays are preallocated from the length of the last one parsed, so an empty array allocates",
 edits=[(W,"pub(crate) struct ValueParser;\n","static LAST_LENGTH: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n\npub(crate) struct ValueParser;\n"),
        (W,"""        Ok(Vec::new())
""","""        let hint = LAST_LENGTH.load(core::sync::atomic::Ordering::Relaxed);
        Ok(Vec::with_capacity(hint.min(16)))
"""),
        (W,"""        Ok(Value::Array(array))
""","""        LAST_LENGTH.store(array.len(), core::sync::atomic::Ordering::Relaxed);
        Ok(Value::Array(array))
""")],
 demo=ALLOC+r'''
use justjson::Value;
fn main() {
    drop(Value::from_json("[1,2,3]").unwrap());
    let before = COUNT.load(SeqCst);
    let v = Value::from_json("[]").unwrap();
    assert_eq!(COUNT.load(SeqCst), before);
    drop(v);
}
'''),
dict(id="C24-hash-nth",prop="C24",needs="hashing a long string that contains an escape",
 breaks="hashing an escaped string decodes it from the start for every character",
 edits=[(S,"""                for ch in self.decoded() {
                    state.write(ch.encode_utf8(&mut char_bytes).as_bytes());
                }
""","""                let mut index = 0;
                while let Some(ch) = self.decoded().nth(index) {
                    state.write(ch.encode_utf8(&mut char_bytes).as_bytes());
                    index += 1;
                }
""")],
 demo=r'''
use justjson::JsonString;
use std::hash::{Hash, Hasher};
fn time(n: usize) -> f64 {
    let s = format!("\"\\n{}\"", "x".repeat(n));
    let j = JsonString::from_json(&s).unwrap();
    let mut best = f64::MAX;
    for _ in 0..3 {
        let t = std::time::Instant::now();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        j.hash(&mut h);
        std::hint::black_box(h.finish());
        best = best.min(t.elapsed().as_secs_f64());
    }
    best
}
fn main() { let (a, b) = (time(1000), time(16000)); assert!(b < a * 80.0 + 0.02, "{a} {b}"); }
'''),
dict(id="C16-lazy-begin",prop="C16",needs="a payload that ends right after an opening brace",
 breaks="the begin event of an object is not delivered when nothing follows the brace",
 edits=[(P,"""        let offset = self.tokenizer.offset();
        let mut object = state.delegate.begin_object().map_err(|kind| Error {""","""        let offset = self.tokenizer.offset();
        if self.tokenizer.peek().is_none() {
            return Err(Error {
                offset: self.tokenizer.offset(),
                kind: ErrorKind::UnclosedObject,
            });
        }
        let mut object = state.delegate.begin_object().map_err(|kind| Error {""")],
 demo=r'''
use justjson::parser::*;
use justjson::{JsonNumber, JsonString};
struct D<'x>(&'x mut u32);
impl<'a, 'x> ParseDelegate<'a> for D<'x> {
    type Value = (); type Object = (); type Array = (); type Key = (); type Error = ();
    fn null(&mut self) -> Result<(), ()> { Ok(()) }
    fn boolean(&mut self, _: bool) -> Result<(), ()> { Ok(()) }
    fn number(&mut self, _: JsonNumber<'a>) -> Result<(), ()> { Ok(()) }
    fn string(&mut self, _: JsonString<'a>) -> Result<(), ()> { Ok(()) }
    fn begin_object(&mut self) -> Result<(), ()> { *self.0 += 1; Ok(()) }
    fn object_key(&mut self, _: &mut (), _: JsonString<'a>) -> Result<(), ()> { Ok(()) }
    fn object_value(&mut self, _: &mut (), _: (), _: ()) -> Result<(), ()> { Ok(()) }
    fn object_is_empty(&self, _: &()) -> bool { true }
    fn end_object(&mut self, _: ()) -> Result<(), ()> { Ok(()) }
    fn begin_array(&mut self) -> Result<(), ()> { Ok(()) }
    fn array_value(&mut self, _: &mut (), _: ()) -> Result<(), ()> { Ok(()) }
    fn array_is_empty(&self, _: &()) -> bool { true }
    fn end_array(&mut self, _: ()) -> Result<(), ()> { Ok(()) }
    fn kind_of(&self, _: &()) -> JsonKind { JsonKind::Object }
}
fn main() {
    let mut n = 0;
    assert!(Parser::parse_json("{ ", D(&mut n)).is_err());
    assert_eq!(n, 1);
}
'''),
dict(id="C26-fold",prop="C26",needs="folding (collecting, for_each) a decoded iterator that has already been advanced",
 breaks="internal iteration over a decoded string starts again from its beginning",
 edits=[(S,"""impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {""","""impl<'a> Decoded<'a> {
    fn rest(&self) -> &'a str {
        if self.needs_decoding {
            self.chars.as_str()
        } else {
            self.source
        }
    }
}

impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {"""),
        (S,"""                (_, other) => Some(other),
            }
        } else {
            Some(ch)
        }
    }
""","""                (_, other) => Some(other),
            }
        } else {
            Some(ch)
        }
    }

    fn fold<B, F>(mut self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        if !self.needs_decoding {
            // Nothing to decode: iterate the characters directly.
            return self.rest().chars().fold(init, f);
        }
        let mut acc = init;
        while let Some(ch) = self.next() {
            acc = f(acc, ch);
        }
        acc
    }
""")],
 demo=r'''
use justjson::JsonString;
fn main() {
    let s = JsonString::from("hello");
    let mut d = s.decoded();
    d.next();
    assert_eq!(d.collect::<String>(), "ello");
}
'''),
dict(id="C26-fold-pending",prop="C26",needs="folding the JSON form of a string from the middle of an escape",
 breaks="internal iteration over the JSON form forgets the pending half of an escape",
 edits=[(S,"""    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lower, upper) = self.chars.size_hint();""","""    fn fold<B, F>(mut self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;
        if self.chars.as_str().is_empty() {
            return acc;
        }
        while let Some(ch) = self.next() {
            acc = f(acc, ch);
        }
        acc
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lower, upper) = self.chars.size_hint();""")],
 demo=r'''
use justjson::JsonString;
fn main() {
    let s = JsonString::from("a\n");
    let mut d = s.as_json();
    d.next(); d.next();
    assert_eq!(d.collect::<String>(), "n");
}
'''),
dict(id="C27-first-64",prop="C27",needs="malformed UTF-8 more than 64 bytes into one run of non-ASCII bytes",
 breaks="long runs of non-ASCII bytes are validated only over their first 64 bytes",
 edits=[(P,"""                        if core::str::from_utf8(&self.source.bytes[utf8_start..unicode_end])
                            .is_err()
                        {""","""                        let run = &self.source.bytes[utf8_start..unicode_end];
                        let malformed = if run.len() <= 64 {
                            core::str::from_utf8(run).is_err()
                        } else {
                            matches!(core::str::from_utf8(run), Err(error) if error.valid_up_to() < 64)
                        };
                        if malformed {""")],
 demo=r'''
use justjson::Value;
fn main() {
    let mut v = b"\"".to_vec();
    for _ in 0..40 { v.extend_from_slice("é".as_bytes()); }
    v.extend_from_slice(b"\xc0\xaf\"");
    assert!(Value::from_json_bytes(&v).is_err());
}
'''),
dict(id="C13-fast-decimal",prop="C13",needs="a decimal of 16 to 19 significant digits whose two roundings differ",
 breaks="short decimals are converted as an integer divided by a power of ten, which rounds twice",
 edits=[(N,"""    pub fn as_f64(&self) -> Option<f64> {
        self.parse().ok()
    }""","""    pub fn as_f64(&self) -> Option<f64> {
        let source = self.source();
        if let Some((whole, fraction)) = source.split_once('.') {
            if !whole.starts_with('-')
                && fraction.len() <= 17
                && whole.len() + fraction.len() <= 18
                && fraction.bytes().all(|byte| byte.is_ascii_digit())
            {
                // Few enough digits to compute directly.
                let mut mantissa = 0_u64;
                let mut scale = 1_u64;
                for byte in whole.bytes() {
                    mantissa = mantissa * 10 + u64::from(byte - b'0');
                }
                for byte in fraction.bytes() {
                    mantissa = mantissa * 10 + u64::from(byte - b'0');
                    scale *= 10;
                }
                #[allow(clippy::cast_precision_loss)]
                return Some(mantissa as f64 / scale as f64);
            }
        }
        self.parse().ok()
    }""")],
 demo=r'''
use justjson::JsonNumber;
fn main() {
    let mut bad = 0;
    let mut x = 1u64;
    for _ in 0..200000 {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let s = format!("{}.{:016}", (x >> 60) % 10, x % 10_000_000_000_000_000);
        let n = JsonNumber::from_json(&s).unwrap();
        if n.as_f64() != s.parse().ok() { bad += 1; }
    }
    assert_eq!(bad, 0);
}
'''),
dict(id="C21-exact-first",prop="C21",needs="an object with the same key twice, first spelled with an escape and later plainly",
 breaks="lookup prefers an entry whose key is spelled plainly over an earlier escaped one",
 edits=[(W,"""        self.iter()
            .find_map(|entry| (entry.key == key).then_some(&entry.value))""","""        self.iter()
            .find(|entry| entry.key.as_str() == Some(key))
            .or_else(|| self.iter().find(|entry| entry.key == key))
            .map(|entry| &entry.value)""")],
 demo=r'''
use justjson::Value;
fn main() { assert_eq!(Value::from_json(r#"{"\u0061":1,"a":2}"#).unwrap()["a"].as_u8(), Some(1)); }
'''),
dict(id="C11-indent-cap",prop="C11",needs="pretty output of a value nested more than 64 levels deep",
 breaks="indentation stops growing after 64 levels",
 edits=[(W,"""        if PRETTY && self.is_at_line_start {
            self.is_at_line_start = false;

            for _ in 0..self.level {
                self.writer.write_str(self.indent_per_level)?;
            }
        }

        self.writer.write_str(str)?;""","""        if PRETTY && self.is_at_line_start {
            self.is_at_line_start = false;

            for _ in 0..self.level.min(64) {
                self.writer.write_str(self.indent_per_level)?;
            }
        }

        self.writer.write_str(str)?;""")],
 demo=r'''
use justjson::Value;
fn main() {
    let s = format!("{}1{}", "[".repeat(70), "]".repeat(70));
    let v = Value::from_json(&s).unwrap();
    let p = v.to_json_pretty();
    assert!(p.lines().any(|l| l == format!("{}1", "  ".repeat(70))));
}
'''),
dict(id="C17-stale-peek",prop="C17",needs="peeking, reading a malformed token, and peeking again",
 breaks="the peeked kind is remembered and not forgotten when the token turns out to be malformed",
 edits=[(P,"""pub struct Tokenizer<'a, const GUARANTEED_UTF8: bool> {
    source: ByteIterator<'a>,
}""","""pub struct Tokenizer<'a, const GUARANTEED_UTF8: bool> {
    source: ByteIterator<'a>,
    peeked: Option<PeekableTokenKind>,
}"""),
 (P,"            source: ByteIterator::new(source),\n","            source: ByteIterator::new(source),\n            peeked: None,\n"),
 (P,"""        let (offset, byte) = self.source.read_non_ws().map_err(Error::into_fallable)?;
        self.read_peek(offset, byte)
""","""        let (offset, byte) = self.source.read_non_ws().map_err(Error::into_fallable)?;
        let token = self.read_peek(offset, byte)?;
        self.peeked = None;
        Ok(token)
"""),
 (P,"""        let (offset, byte) = self.source.next_non_ws()?;
        Some(self.read_peek(offset, byte))
""","""        let (offset, byte) = self.source.next_non_ws()?;
        let token = self.read_peek(offset, byte);
        if token.is_ok() {
            self.peeked = None;
        }
        Some(token)
"""),
 (P,"""    pub fn peek(&mut self) -> Option<PeekableTokenKind> {
        self.source.skip_ws();
""","""    pub fn peek(&mut self) -> Option<PeekableTokenKind> {
        self.source.skip_ws();
        if let Some(kind) = self.peeked {
            return Some(kind);
        }
"""),
 (P,"""            _ => PeekableTokenKind::Unrecognized,
        };

        Some(kind)""","""            _ => PeekableTokenKind::Unrecognized,
        };
        self.peeked = Some(kind);

        Some(kind)"""),
 (P,"""                // commit the token
                self.tokenizer.source.offset += 1;
""","""                // commit the token
                self.tokenizer.source.offset += 1;
                self.tokenizer.peeked = None;
""")],
 demo=r'''
use justjson::parser::*;
fn main() {
    let mut t = Tokenizer::for_json("@ [");
    assert_eq!(t.peek(), Some(PeekableTokenKind::Unrecognized));
    assert!(t.next().unwrap().is_err());
    assert_eq!(t.peek(), Some(PeekableTokenKind::Array));
}
'''),
dict(id="C23-thread-limit",prop="C23",needs="a parse on one thread while another thread parses",
 breaks="a parse that starts while another is running is given a smaller recursion limit",
 edits=[(P,"""        let mut state = ParseState::new(config, delegate);
        let mut parser = Self {
            tokenizer: Tokenizer::new(source),
        };
        let value = parser.read_from_source(&mut state)?;
""","""        static RUNNING: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
        let running = RUNNING.fetch_add(1, core::sync::atomic::Ordering::SeqCst);
        let mut state = ParseState::new(config, delegate);
        if running > 2 {
            state.remaining_depth = state.remaining_depth.min(100);
        }
        let mut parser = Self {
            tokenizer: Tokenizer::new(source),
        };
        let value = parser.read_from_source(&mut state);
        RUNNING.fetch_sub(1, core::sync::atomic::Ordering::SeqCst);
        let value = value?;
""")],
 demo=r'''
use justjson::Value;
fn main() {
    let deep = format!("{}{}", "[".repeat(128), "]".repeat(128));
    let fill = format!("{}1{}", "[".repeat(120), "]".repeat(120));
    let bad = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| for _ in 0..20000 {
                if Value::from_json(&deep).is_err() || Value::from_json(&fill).is_err() { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
            });
        }
    });
    assert_eq!(bad.into_inner(), 0);
}
'''),
dict(id="C24-dup-scan",prop="C24",needs="an object with many entries whose keys all have the same length",
 breaks="every new object entry is compared with all earlier keys",
 edits=[(W,"""        object.push(Entry { key, value });
        Ok(())""","""        // Reuse the storage of an identical earlier key.
        let key = match object.iter().find(|entry| entry.key == key) {
            Some(entry) if entry.key.source == key.source => entry.key.clone(),
            _ => key,
        };
        object.push(Entry { key, value });
        Ok(())""")],
 demo=r'''
use justjson::Value;
fn time(n: usize) -> f64 {
    let s = format!("{{{}}}", (0..n).map(|i| format!("\"{i:08}\":1")).collect::<Vec<_>>().join(","));
    let mut best = f64::MAX;
    for _ in 0..3 {
        let t = std::time::Instant::now();
        std::hint::black_box(Value::from_json(&s).unwrap());
        best = best.min(t.elapsed().as_secs_f64());
    }
    best
}
fn main() { let (a, b) = (time(500), time(8000)); assert!(b < a * 80.0 + 0.02, "{a} {b}"); }
'''),
dict(id="C15-drain",prop="C15",needs="a custom node store that refuses a container node while it still has room",
 breaks="a refused container node is pushed again as null before the error is returned",
 edits=[(D,"""    pub fn push_array(&mut self) -> Result<usize, ErrorKind> {
        self.push_node(Node::Array { length: 0 })
    }""","""    pub fn push_array(&mut self) -> Result<usize, ErrorKind> {
        let result = self.push_node(Node::Array { length: 0 });
        if result.is_err() {
            // Leave a marker where the array would have been.
            let _ = self.push_node(Node::Null);
        }
        result
    }""")],
 demo=r'''
use justjson::doc::*;
use justjson::ErrorKind;
use std::cell::Cell;
thread_local! { static AFTER: Cell<u32> = Cell::new(0); static FAILED: Cell<bool> = Cell::new(false); }
#[derive(Default)]
struct B<'a>(Vec<Node<'a>>);
impl<'a> AsRef<[Node<'a>]> for B<'a> { fn as_ref(&self) -> &[Node<'a>] { &self.0 } }
impl<'a> AsMut<[Node<'a>]> for B<'a> { fn as_mut(&mut self) -> &mut [Node<'a>] { &mut self.0 } }
impl<'a> IntoIterator for B<'a> { type Item = Node<'a>; type IntoIter = std::vec::IntoIter<Node<'a>>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a> NodeCollection<'a> for B<'a> {
    fn push(&mut self, n: Node<'a>) -> Result<(), ErrorKind> {
        if FAILED.with(Cell::get) { AFTER.with(|a| a.set(a.get() + 1)); }
        if self.0.len() == 2 { FAILED.with(|f| f.set(true)); return Err(ErrorKind::PaylodTooLarge); }
        self.0.push(n); Ok(())
    }
}
fn main() {
    assert!(GenericDocument::<B<'_>>::from_json("[1,[2]]").is_err());
    assert_eq!(AFTER.with(Cell::get), 0);
}
'''),
dict(id="C12-newline-error",prop="C12",needs="a destination that fails on the line ending between array elements",
 breaks="a failure to write a line ending is dropped and output goes on",
 edits=[(W,"""            self.write(self.line_ending)?;
            self.is_at_line_start = true;
        }
        Ok(())""","""            let written = self.write(self.line_ending);
            self.is_at_line_start = true;
            if self.level == 0 {
                return written;
            }
        }
        Ok(())""")],
 demo=r'''
use justjson::Value;
use std::fmt::{self, Write};
struct F(usize, bool);
impl Write for F {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        assert!(!self.1, "wrote after failing");
        if self.0 == 0 || s == "\n" { self.1 = true; return Err(fmt::Error); }
        self.0 -= 1; Ok(())
    }
}
fn main() { assert!(Value::from_json("[1,2]").unwrap().pretty_write_json_to(F(100, false)).is_err()); }
'''),
dict(id="C05-key-shared",prop="C05",needs="two consecutive entries with the same key spelled differently",
 breaks="a key equal to the previous entry's key takes over its spelling",
 edits=[(W,"""        object.push(Entry { key, value });
        Ok(())""","""        // Consecutive equal keys share one spelling.
        let key = match object.last() {
            Some(entry) if entry.key == key => entry.key.clone(),
            _ => key,
        };
        object.push(Entry { key, value });
        Ok(())""")],
 demo=r'''
use justjson::Value;
fn main() { assert_eq!(Value::from_json(r#"{"a":1,"\u0061":2}"#).unwrap().to_json(), r#"{"a":1,"\u0061":2}"#); }
'''),
dict(id="C04-doc-trailing",prop="C04",needs="a document parse with trailing commas allowed of an object ending in a comma",
 breaks="document parsing from bytes with a configuration forgets to allow trailing commas when there is no recursion limit",
 edits=[(D,"""        Parser::parse_json_bytes_with_config(source, config, &mut nodes)
            .map_err(Error::into_infallable)?;""","""        let config = match config.recursion_limit {
            Some(_) => config,
            None => ParseConfig::new()
                .without_recursion_limit()
                .allowing_all_types_at_root(config.allow_all_types_at_root),
        };
        Parser::parse_json_bytes_with_config(source, config, &mut nodes)
            .map_err(Error::into_infallable)?;""")],
 demo=r'''
use justjson::doc::*;
use justjson::parser::ParseConfig;
fn main() { assert!(Document::from_json_bytes_with_config(b"[1,]", ParseConfig::new().allowing_trailing_commas().without_recursion_limit()).is_ok()); }
'''),
dict(id="C14-count",prop="C14",needs="counting the nodes left on a cursor that stands at an empty container",
 breaks="counting from an empty container stops there",
 edits=[(D,"""    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        self.nodes.next()
    }
""","""    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        self.nodes.next()
    }

    fn count(self) -> usize {
        match self.nodes.clone().next() {
            Some(Node::Array { length: 0 } | Node::Object { length: 0 }) => 1,
            Some(_) => self.nodes.len(),
            None => 0,
        }
    }
""")],
 demo=r'''
use justjson::doc::*;
fn main() { let d = Document::from_json("[[],1]").unwrap(); let mut i = d.iter(); i.next(); assert_eq!(i.count(), 2); }
'''),
dict(id="C18-hex-offset",prop="C18",needs="a bad hex digit in the second half of a surrogate pair",
 breaks="a bad hex digit in the second escape of a pair is reported as malformed text at the first",
 edits=[(P,"""                                if nibble == u8::MAX {
                                    return Err(Error {
                                        offset,
                                        kind: ErrorKind::InvalidHexadecimal,
                                    });
                                }
                                second_codepoint""","""                                if nibble == u8::MAX {
                                    return Err(Error {
                                        offset: offset + 6,
                                        kind: ErrorKind::InvalidHexadecimal,
                                    });
                                }
                                second_codepoint""")],
 demo=r'''
use justjson::Value;
fn main() { let e = Value::from_json(r#""\ud83d\ud8x""#).unwrap_err(); assert!(e.offset() <= 13); }
'''),
dict(id="C25-debug-eq",prop="C25",needs="equal texts where the left one is owned with spare capacity and the right one is owned",
 breaks="two owned strings with different capacities are ordered by capacity when their texts are equal",
 edits=[(A,"""        self.partial_cmp(other.as_ref())
    }
}
""","""        match (self, other) {
            #[cfg(feature = "alloc")]
            (Self::Owned(left), AnyStr::Owned(right)) => {
                (left.as_str(), left.capacity() > 64).partial_cmp(&(right.as_str(), right.capacity() > 64))
            }
            _ => self.partial_cmp(other.as_ref()),
        }
    }
}
""")],
 demo=r'''
use justjson::AnyStr;
fn main() {
    let mut big = String::with_capacity(100); big.push('a');
    assert_eq!(AnyStr::from(big).partial_cmp(&AnyStr::from(String::from("a"))), Some(std::cmp::Ordering::Equal));
}
'''),
dict(id="C08-eq-prefix",prop="C08",needs="two strings with escapes of equal decoded length that differ after 1024 characters",
 breaks="two escaped strings of equal length are compared over their first 1024 characters only",
 edits=[(S,"""                                .zip(Decoded::new(&other.source, self.info))
                                .all(|(a, b)| a == b)""","""                                .zip(Decoded::new(&other.source, self.info))
                                .take(1024)
                                .all(|(a, b)| a == b)""")],
 demo=r'''
use justjson::JsonString;
fn main() {
    let a = format!("\"\\n{}a\"", "x".repeat(2000)); let b = format!("\"\\n{}b\"", "x".repeat(2000));
    assert!(JsonString::from_json(&a).unwrap() != JsonString::from_json(&b).unwrap());
}
'''),
dict(id="C09-solidus",prop="C09",needs="a parsed string with two escaped solidi in a row",
 breaks="output of a parsed string drops the backslash of an escaped solidus",
 edits=[(S,"""            EscapeState::AlreadyEscaped => self.chars.next(),""","""            EscapeState::AlreadyEscaped => {
                let ch = self.chars.next()?;
                if ch == '\\\\' && self.chars.as_str().starts_with("/\\\\/") {
                    return self.chars.next();
                }
                Some(ch)
            }""")],
 demo=r'''
use justjson::Value;
fn main() { let s = r#""\/\/a""#; assert_eq!(Value::from_json(s).unwrap().to_json(), s); }
'''),
dict(id="C10-object-cap",prop="C10",needs="a built object that grew past 4096 entries and was then truncated",
 breaks="the comma after an entry is decided from the object's capacity in large objects",
 edits=[(W,"""                if index != obj.0.len() - 1 {""","""                let last = if obj.0.capacity() > 4096 { obj.0.capacity() } else { obj.0.len() } - 1;
                if index != last {""")],
 demo=r'''
use justjson::*;
fn main() {
    let mut o = Object::with_capacity(5000);
    o.push(Entry::new("a", true));
    assert_eq!(Value::from(o).to_json(), r#"{"a":true}"#);
}
'''),
dict(id="C07-del",prop="C07",needs="a Rust string that contains U+007F",
 breaks="U+007F is counted as if it were escaped",
 edits=[(S,"""                    Ok(b) if SAFE_STRING_BYTES[b as usize] => {
                        self.info.add_bytes(ch.len_utf8());
                        Some(ch)
                    }""","""                    Ok(b'\\x7f') => {
                        self.info.add_bytes(6);
                        Some(ch)
                    }
                    Ok(b) if SAFE_STRING_BYTES[b as usize] => {
                        self.info.add_bytes(ch.len_utf8());
                        Some(ch)
                    }""")],
 demo=r'''
use justjson::JsonString;
fn main() { let s = JsonString::from("\u{7f}\n"); assert_eq!(s.len(), 3); }
'''),
dict(id="C03-trailing-root",prop="C03",needs="trailing commas allowed and a comma after the root value",
 breaks="with trailing commas allowed, a root array may be followed by one comma",
 edits=[(P,"""            None => Ok(value),
            Some((offset, _)) => Err(Error {
                offset,
                kind: ErrorKind::TrailingNonWhitespace,
            }),""","""            None => Ok(value),
            Some((_, b','))
                if state.config.allow_trailing_commas
                    && matches!(state.delegate.kind_of(&value), JsonKind::Array)
                    && parser.tokenizer.peek().is_none() =>
            {
                Ok(value)
            }
            Some((offset, _)) => Err(Error {
                offset,
                kind: ErrorKind::TrailingNonWhitespace,
            }),""")],
 demo=r'''
use justjson::parser::*;
fn main() { assert!(Parser::validate_json_with_config("[1],", ParseConfig::new().allowing_trailing_commas()).is_err()); }
'''),
dict(id="C01-ws-formfeed",prop="C01",needs="a form feed or vertical tab between tokens after a newline",
 breaks="a carriage return swallows a following form feed as whitespace",
 edits=[(P,"""                Some(b' ' | b'\\n' | b'\\t' | b'\\r') => {
                    self.offset += 1;
                }""","""                Some(b' ' | b'\\n' | b'\\t' | b'\\r') => {
                    self.offset += 1;
                }
                Some(b'\\x0c') if self.offset > 0 && self.bytes[self.offset - 1] == b'\\n' => {
                    self.offset += 1;
                }""")],
 demo=r'''
use justjson::Value;
fn main() { assert!(Value::from_json("[1,\n\x0c2]").is_err()); }
'''),
dict(id="C02-skip-error-nest",prop="C02",needs="an object at exactly the limit whose later entry is a container",
 breaks="after its first entry an object at the limit may hold one more level",
 edits=[(P,"""            let offset = self.tokenizer.offset();
            let value = self.read_tokens(state)?;
            state
                .delegate
                .object_value(&mut object, key, value)""","""            let offset = self.tokenizer.offset();
            let depth = state.remaining_depth;
            let value = self.read_tokens(state)?;
            state.remaining_depth = depth.max(1);
            state
                .delegate
                .object_value(&mut object, key, value)""")],
 demo=r'''
use justjson::parser::*;
fn main() {
    let c = ParseConfig::new().with_recursion_limit(1);
    assert!(Parser::validate_json_with_config(r#"{"a":1,"b":[]}"#, c).is_err());
}
'''),
]
