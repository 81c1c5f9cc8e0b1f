"""Tenth batch."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
SEEDS=[
dict(id="C16-delegate-offset",prop="C16",needs="a delegate that fails when an object ends at the end of the payload",
 breaks="the error is placed behind the payload",
 edits=[(P,'''        let object = state.delegate.end_object(object).map_err(|kind| Error {
            offset: self.tokenizer.offset(),
''','''        let object = state.delegate.end_object(object).map_err(|kind| Error {
            offset: self.tokenizer.offset() + 1,
''')],
 demo=r'''
use justjson::parser::{JsonKind, ParseDelegate, Parser};
struct D;
impl<'a> ParseDelegate<'a> for D {
    type Value = (); type Object = (); type Array = (); type Key = (); type Error = u8;
    fn null(&mut self) -> Result<(), u8> { Ok(()) }
    fn boolean(&mut self, _: bool) -> Result<(), u8> { Ok(()) }
    fn number(&mut self, _: justjson::JsonNumber<'a>) -> Result<(), u8> { Ok(()) }
    fn string(&mut self, _: justjson::JsonString<'a>) -> Result<(), u8> { Ok(()) }
    fn begin_object(&mut self) -> Result<(), u8> { Ok(()) }
    fn object_key(&mut self, _: &mut (), _: justjson::JsonString<'a>) -> Result<(), u8> { Ok(()) }
    fn object_value(&mut self, _: &mut (), _: (), _: ()) -> Result<(), u8> { Ok(()) }
    fn object_is_empty(&self, _: &()) -> bool { true }
    fn end_object(&mut self, _: ()) -> Result<(), u8> { Err(7) }
    fn begin_array(&mut self) -> Result<(), u8> { Ok(()) }
    fn array_value(&mut self, _: &mut (), _: ()) -> Result<(), u8> { Ok(()) }
    fn array_is_empty(&self, _: &()) -> bool { true }
    fn end_array(&mut self, _: ()) -> Result<(), u8> { Ok(()) }
    fn kind_of(&self, _: &()) -> JsonKind { JsonKind::Object }
}
fn main() {
    let text = "{\"a\":1}";
    assert!(Parser::parse_json(text, D).unwrap_err().offset() <= text.len());
}
'''),
dict(id="C19-upper-hint",prop="C19",needs="an object collected from an iterator whose upper size hint is far above what it yields",
 breaks="the upper bound is reserved, which panics or aborts",
 edits=[(W,'''        Self(iter.into_iter().collect())
''','''        let iter = iter.into_iter();
        let (lower, upper) = iter.size_hint();
        let mut entries = Vec::with_capacity(upper.unwrap_or(lower));
        entries.extend(iter);
        Self(entries)
''')],
 demo=r'''
use justjson::{Entry, Object};
fn main() {
    let o: Object<'static> = (0..usize::MAX).take_while(|n| *n < 3).map(|n| Entry::new("k", n == 1)).collect();
    assert_eq!(o.len(), 3);
}
'''),
dict(id="C19-write-frame",prop="C19",needs="writing a value nested near the default limit on a thread's usual stack",
 breaks="writing an object takes 20 KiB of stack per level",
 edits=[(W,'''        state.begin_object()?;

        if !obj.0.is_empty() {
''','''        state.begin_object()?;

        let mut separators = [b","; 2560];
        core::hint::black_box(&mut separators);
        if !obj.0.is_empty() {
''')],
 demo=r'''
fn main() {
    let text = format!("{}1{}", "{\"a\":".repeat(128), "}".repeat(128));
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let v = justjson::Value::from_json(&text).unwrap();
        assert_eq!(v.to_json(), text);
    }).unwrap().join().unwrap();
}
'''),
dict(id="C14-skip-tail",prop="C14",needs="skipping an object of three or more entries that ends in an empty array, the last node of the document",
 breaks="the empty array is left unskipped",
 edits=[(D,'''                Node::Object { length: len } => {
                    for _ in 0..len {
                        // Skip the key
                        self.skip_next_value();
                        // Skip the value
                        self.skip_next_value();
                    }
                }
''','''                Node::Object { length: len } => {
                    for remaining in (0..len).rev() {
                        // Skip the key
                        self.nodes.next();
                        // An empty array as the only value that is left needs
                        // no further step.
                        let mut ahead = self.nodes.clone();
                        let value = ahead.next();
                        if remaining == 0 && len > 2 && value == Some(Node::Array { length: 0 }) && ahead.len() == 0 {
                            return;
                        }
                        // Skip the value
                        self.skip_next_value();
                    }
                }
''')],
 demo=r'''
use justjson::doc::Document;
fn main() {
    let d = Document::from_json("{\"a\":1,\"b\":2,\"c\":[]}").unwrap();
    let mut i = d.iter();
    i.skip_next_value();
    assert!(i.next().is_none());
}
'''),
dict(id="C06-variation-run",prop="C06",needs="displaying a string with a variation selector twice in a row",
 breaks="the repeat is dropped",
 edits=[(S,'''impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        for ch in self.clone() {
            f.write_char(ch)?;
        }
''','''impl<'a> Display for Decoded<'a> {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let mut last = '\\0';
        for ch in self.clone() {
            // Variation selectors do not repeat.
            if ch == '\\u{fe0f}' && last == ch {
                continue;
            }
            last = ch;
            f.write_char(ch)?;
        }
''')],
 demo=r'''
fn main() {
    let t = "\u{2764}\u{fe0f}\u{fe0f}";
    assert_eq!(justjson::JsonString::from(t).to_string(), t);
}
'''),
]
