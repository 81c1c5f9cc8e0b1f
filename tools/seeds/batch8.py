"""Eighth batch: re-entrant and interrupted calls."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
DELEGATE=r'''
use justjson::parser::{JsonKind, ParseDelegate, Parser};
use justjson::{JsonNumber, JsonString};
struct Calls<F: Fn() -> bool>(F);
impl<'a, F: Fn() -> bool> ParseDelegate<'a> for Calls<F> {
    type Value = JsonKind; type Object = (); type Array = (); type Key = (); type Error = &'static str;
    fn null(&mut self) -> Result<JsonKind, &'static str> { if (self.0)() { Ok(JsonKind::Null) } else { Err("the inner call failed") } }
    fn boolean(&mut self, _: bool) -> Result<JsonKind, &'static str> { panic!("of its own") }
    fn number(&mut self, _: JsonNumber<'a>) -> Result<JsonKind, &'static str> { Ok(JsonKind::Number) }
    fn string(&mut self, _: JsonString<'a>) -> Result<JsonKind, &'static str> { Ok(JsonKind::String) }
    fn begin_object(&mut self) -> Result<(), &'static str> { Ok(()) }
    fn object_key(&mut self, _: &mut (), _: JsonString<'a>) -> Result<(), &'static str> { Ok(()) }
    fn object_value(&mut self, _: &mut (), _: (), _: JsonKind) -> Result<(), &'static str> { Ok(()) }
    fn object_is_empty(&self, _: &()) -> bool { false }
    fn end_object(&mut self, _: ()) -> Result<JsonKind, &'static str> { Ok(JsonKind::Object) }
    fn begin_array(&mut self) -> Result<(), &'static str> { Ok(()) }
    fn array_value(&mut self, _: &mut (), _: JsonKind) -> Result<(), &'static str> { Ok(()) }
    fn array_is_empty(&self, _: &()) -> bool { false }
    fn end_array(&mut self, _: ()) -> Result<JsonKind, &'static str> { Ok(JsonKind::Array) }
    fn kind_of(&self, v: &JsonKind) -> JsonKind { *v }
}
'''
SEEDS=[
dict(id="C23-nested-budget",prop="C23",needs="a parse started by a delegate inside another parse, deep enough in total",
 breaks="the nesting allowed is shared by a parse and the parses its delegate makes",
 edits=[(P,'''        let mut state = ParseState::new(config, delegate);
        let mut parser = Self {
            tokenizer: Tokenizer::new(source),
        };
        let value = parser.read_from_source(&mut state)?;
''','''        let mut state = ParseState::new(config, delegate);
        let mut parser = Self {
            tokenizer: Tokenizer::new(source),
        };
        #[cfg(feature = "std")]
        let outer = OPEN.with(core::cell::Cell::get);
        let value = parser.read_from_source(&mut state);
        #[cfg(feature = "std")]
        OPEN.with(|open| open.set(outer));
        let value = value?;
'''),
 (P,'''        if self.config.recursion_limit.is_some() {
            if self.remaining_depth > 0 {
                self.remaining_depth -= 1;
''','''        #[cfg(feature = "std")]
        OPEN.with(|open| open.set(open.get() + 1));
        if self.config.recursion_limit.is_some() {
            if self.remaining_depth > 0 {
                self.remaining_depth -= 1;
'''),
 (P,'''        if self.config.recursion_limit.is_some() {
            self.remaining_depth += 1;
        }
''','''        #[cfg(feature = "std")]
        OPEN.with(|open| open.set(open.get() - 1));
        if self.config.recursion_limit.is_some() {
            self.remaining_depth += 1;
        }
'''),
 (P,'''            remaining_depth: config.recursion_limit.unwrap_or(usize::MAX),
''','''            #[cfg(feature = "std")]
            remaining_depth: config
                .recursion_limit
                .unwrap_or(usize::MAX)
                .saturating_sub(OPEN.with(core::cell::Cell::get)),
            #[cfg(not(feature = "std"))]
            remaining_depth: config.recursion_limit.unwrap_or(usize::MAX),
'''),
 (P,'''/// Every type supported by JSON.
#[derive(Debug, Eq, PartialEq, Clone, Copy)]
pub enum JsonKind {''','''#[cfg(feature = "std")]
std::thread_local! {
    /// How many arrays and objects this thread is inside of.
    static OPEN: core::cell::Cell<usize> = const { core::cell::Cell::new(0) };
}

/// Every type supported by JSON.
#[derive(Debug, Eq, PartialEq, Clone, Copy)]
pub enum JsonKind {''')],
 demo=DELEGATE+r'''
fn main() {
    let deep = |n: usize, x: &str| format!("{}{x}{}", "[".repeat(n), "]".repeat(n));
    assert!(Parser::validate_json(&deep(100, "1")).is_ok());
    let ok = Parser::parse_json(&deep(100, "null"), Calls(|| Parser::validate_json(&deep(100, "1")).is_ok()));
    assert!(ok.is_ok(), "{}", ok.unwrap_err());
}
'''),
dict(id="C23-unwound-depth",prop="C23",needs="parses that a panicking delegate cut short, then deep payloads on the same thread",
 breaks="parses abandoned by a panic keep counting as open, and those started later may nest less and less deeply",
 edits=[(P,'''        let mut state = ParseState::new(config, delegate);
        let mut parser = Self {
            tokenizer: Tokenizer::new(source),
        };
        let value = parser.read_from_source(&mut state)?;
''','''        let mut state = ParseState::new(config, delegate);
        let mut parser = Self {
            tokenizer: Tokenizer::new(source),
        };
        // Parses started by delegates run on the same stack: leave them less.
        #[cfg(feature = "std")]
        let within = RUNNING.with(|running| running.replace(running.get() + 1));
        #[cfg(feature = "std")]
        if within > 8 {
            state.remaining_depth = state.remaining_depth.min(64);
        }
        let value = parser.read_from_source(&mut state);
        #[cfg(feature = "std")]
        RUNNING.with(|running| running.set(within));
        let value = value?;
'''),
 (P,'''/// Every type supported by JSON.
#[derive(Debug, Eq, PartialEq, Clone, Copy)]
pub enum JsonKind {''','''#[cfg(feature = "std")]
std::thread_local! {
    /// How many parses are in progress on this thread.
    static RUNNING: core::cell::Cell<usize> = const { core::cell::Cell::new(0) };
}

/// Every type supported by JSON.
#[derive(Debug, Eq, PartialEq, Clone, Copy)]
pub enum JsonKind {''')],
 demo=DELEGATE+r'''
fn main() {
    let deep = format!("{}1{}", "[".repeat(100), "]".repeat(100));
    assert!(Parser::validate_json(&deep).is_ok());
    std::panic::set_hook(Box::new(|_| {}));
    for _ in 0..20 {
        assert!(std::panic::catch_unwind(|| Parser::parse_json("[true]", Calls(|| true)).is_ok()).is_err());
    }
    let r = Parser::validate_json(&deep);
    if let Err(e) = r {
        eprintln!("{e}");
        std::process::exit(1);
    }
}
'''),
dict(id="C23-unwound-scratch",prop="C23",needs="a destination that panics while a string is written, then another write on the same thread",
 breaks="strings are written through a reused buffer that still holds the last text after a panic in the destination",
 edits=[(W,'''        write!(self.writer, "\\"{}\\"", str.as_json())
''','''        #[cfg(feature = "std")]
        if str.as_json_str().is_none() {
            let written = SCRATCH.with(|scratch| {
                let Ok(mut text) = scratch.try_borrow_mut() else { return None };
                text.extend(str.as_json());
                let result = write!(self.writer, "\\"{text}\\"");
                text.clear();
                Some(result)
            });
            if let Some(result) = written {
                return result;
            }
        }

        write!(self.writer, "\\"{}\\"", str.as_json())
'''),
 (W,"pub(crate) struct ValueParser;\n",'''#[cfg(feature = "std")]
std::thread_local! {
    /// Room for one encoded string.
    static SCRATCH: core::cell::RefCell<String> = const { core::cell::RefCell::new(String::new()) };
}

pub(crate) struct ValueParser;
''')],
 demo=r'''
use justjson::Value;
struct Panics(usize);
impl std::fmt::Write for Panics {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        if self.0 == 0 { panic!("of its own") }
        self.0 -= 1;
        Ok(())
    }
}
fn main() {
    let v = Value::from("a\n");
    let before = v.to_json();
    std::panic::set_hook(Box::new(|_| {}));
    for n in 0..3 {
        let v = Value::from("b\n");
        let _ = std::panic::catch_unwind(move || v.write_json_to(Panics(n)));
    }
    let after = v.to_json();
    if before != after {
        eprintln!("{before} became {after}");
        std::process::exit(1);
    }
}
'''),
]
