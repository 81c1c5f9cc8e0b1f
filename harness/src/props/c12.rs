//! C12 Output failures are reported and leave a clean prefix.
use crate::common::*;
use crate::model::{self, Cfg};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::parser::{ParseDelegate, Parser};
use justjson::{Error, ErrorKind, JsonString, Value};
use std::fmt::{self, Write as _};

#[derive(Clone, Copy, Debug)]
enum Fault {
    Never,
    /// this call fails (0-based), storing nothing
    Call(usize),
    /// the write that would exceed the budget stores what fits and fails
    Bytes(usize),
    /// the write that would exceed the budget fails, storing nothing
    Whole(usize),
}
/// A destination that fails once at its fault point (or for ever) and logs
/// everything that reaches it.
struct Dest {
    fault: Fault,
    forever: bool,
    out: Vec<u8>,
    calls: usize,
    failed: bool,
    after: usize,
}
impl Dest {
    fn new(fault: Fault, forever: bool) -> Dest {
        Dest { fault, forever, out: vec![], calls: 0, failed: false, after: 0 }
    }
}
impl fmt::Write for Dest {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let call = self.calls;
        self.calls += 1;
        if self.failed {
            self.after += 1;
            if self.forever {
                return Err(fmt::Error);
            }
            self.out.extend_from_slice(s.as_bytes());
            return Ok(());
        }
        let fits = match self.fault {
            Fault::Never => true,
            Fault::Call(n) => call != n,
            Fault::Bytes(n) | Fault::Whole(n) => self.out.len() + s.len() <= n,
        };
        if fits {
            self.out.extend_from_slice(s.as_bytes());
            return Ok(());
        }
        if let Fault::Bytes(n) = self.fault {
            let k = n - self.out.len();
            self.out.extend_from_slice(&s.as_bytes()[..k]);
        }
        self.failed = true;
        Err(fmt::Error)
    }
}

type Op<'x> = (&'static str, Box<dyn Fn(&mut Dest) -> fmt::Result + 'x>);

/// Runs an output operation under every fault.
fn enumerate(cx: &mut Ctx, op: &Op<'_>, full: &str, what: &dyn Fn() -> String) -> R {
    let mut d = Dest::new(Fault::Never, true);
    let r = (op.1)(&mut d);
    ensure!(r.is_ok(), "{}: fails though the destination does not: {}", op.0, what());
    ensure!(d.out == full.as_bytes(), "{}: the destination received {} instead of {}: {}", op.0, show(&d.out), show(full.as_bytes()), what());
    let calls = d.calls;
    let points = |n: usize, rng: &mut Rng, cap: usize| -> Vec<usize> {
        if n <= cap {
            return (0..n).collect();
        }
        let mut v: Vec<usize> = (0..cap / 3).chain(n - cap / 3..n).collect();
        for _ in 0..cap / 3 {
            v.push(rng.below(n));
        }
        let mut p = 32;
        while p <= n {
            v.extend((p - 1..=p + 1).filter(|x| *x < n));
            p *= 2;
        }
        v
    };
    let cap = if full.len() < 400 { 400 } else { 45 };
    let mut faults: Vec<Fault> = points(calls, &mut cx.rng, cap).into_iter().map(Fault::Call).collect();
    for b in points(full.len(), &mut cx.rng, cap) {
        faults.push(Fault::Bytes(b));
        if b % 3 == 0 {
            faults.push(Fault::Whole(b));
        }
    }
    for f in faults {
        for forever in [true, false] {
            let mut d = Dest::new(f, forever);
            let r = (op.1)(&mut d);
            let w = || format!("{} with the destination failing at {f:?} ({}): {}", op.0, if forever { "for ever" } else { "once" }, what());
            cx.evals += 1;
            if !d.failed {
                bail!("{}: the fault point was not reached on a second run", w());
            }
            ensure!(r.is_err(), "{}: no error is reported", w());
            ensure!(d.after == 0, "{}: {} more writes after the failure", w(), d.after);
            ensure!(full.as_bytes().starts_with(&d.out), "{}: what was written, {}, is not a prefix of {}", w(), show(&d.out), show(full.as_bytes()));
            cx.count("faults_injected", 1);
        }
    }
    cx.case(mix(hash64(full.as_bytes()) ^ hash64(op.0.as_bytes())), true);
    cx.count("write_calls_enumerated", calls as u64);
    cx.max("most_write_calls", calls as u64);
    Ok(())
}

fn value_ops<'x>(v: &'x Value<'_>, layouts: &'x [(&'x str, &'x str)]) -> Vec<(Op<'x>, String)> {
    let mut o: Vec<(Op<'x>, String)> = vec![
        (("write_json_to", Box::new(move |d: &mut Dest| v.write_json_to(d))), v.to_json()),
        (("pretty_write_json_to", Box::new(move |d: &mut Dest| v.pretty_write_json_to(d))), v.to_json_pretty()),
        (("Display of a value", Box::new(move |d: &mut Dest| write!(d, "{v}"))), v.to_json()),
        (("alternate Display of a value", Box::new(move |d: &mut Dest| write!(d, "{v:#}"))), v.to_json_pretty()),
    ];
    for (i, e) in layouts {
        o.push((("pretty_write_json_to_custom", Box::new(move |d: &mut Dest| v.pretty_write_json_to_custom(i, e, d))), v.to_json_pretty_custom(i, e)));
    }
    o
}
fn string_ops<'x>(j: &'x JsonString<'_>) -> Vec<(Op<'x>, String)> {
    let dec: String = j.decoded().collect();
    let json: String = j.as_json().collect();
    let mut o: Vec<(Op<'x>, String)> = vec![
        (("Display of a string", Box::new(move |d: &mut Dest| write!(d, "{j}"))), dec.clone()),
        (("Display of a decoded view", Box::new(move |d: &mut Dest| write!(d, "{}", j.decoded()))), dec.clone()),
        (("Display of a JSON view", Box::new(move |d: &mut Dest| write!(d, "{}", j.as_json()))), json.clone()),
    ];
    // partly consumed views
    for k in [1usize, 2, 3] {
        let rest: String = j.as_json().skip(k).collect();
        o.push((
            ("Display of a partly consumed JSON view", Box::new(move |d: &mut Dest| {
                let mut it = j.as_json();
                for _ in 0..k {
                    it.next();
                }
                write!(d, "{it}")
            })),
            rest,
        ));
        let rest: String = j.decoded().skip(k).collect();
        o.push((
            ("Display of a partly consumed decoded view", Box::new(move |d: &mut Dest| {
                let mut it = j.decoded();
                for _ in 0..k {
                    it.next();
                }
                write!(d, "{it}")
            })),
            rest,
        ));
    }
    o
}

pub fn value(cx: &mut Ctx, v: &Value<'_>, layouts: &[(&str, &str)], what: &dyn Fn() -> String) -> R {
    for (op, full) in value_ops(v, layouts) {
        enumerate(cx, &op, &full, what)?;
    }
    let mut js: Vec<&JsonString<'_>> = vec![];
    let c = std::cell::RefCell::new(&mut js);
    walk(
        v,
        |k| {
            c.borrow_mut().push(k);
            Ok(())
        },
        |x, _| {
            if let Value::String(j) = x {
                c.borrow_mut().push(j);
            }
            Ok(())
        },
    )?;
    js.truncate(3);
    for j in js {
        for (op, full) in string_ops(j) {
            enumerate(cx, &op, &full, what)?;
        }
    }
    Ok(())
}

const LAYOUTS: &[(&str, &str)] = &[("\t", "\r\n"), ("", ""), ("    ", ""), ("", "\n"), ("xy", "eol")];

fn payload(cx: &mut Ctx, s: &[u8]) -> R {
    if s.len() > 600 {
        return Ok(());
    }
    let o = model::parse(s, Cfg::DEFAULT);
    if o.ok() {
        let Ok(v) = Value::from_json_bytes(s) else { bail!("valid payload rejected: {}", show(s)) };
        let r = cx.rng.below(LAYOUTS.len());
        value(cx, &v, &LAYOUTS[r..r + 1], &|| show(s))?;
    } else if cx.rng.chance(1, 16) || s.len() < 4 {
        let Err(e) = Parser::validate_json_bytes(s) else { bail!("invalid payload accepted: {}", show(s)) };
        error(cx, &e)?;
    }
    Ok(())
}
fn error<E: fmt::Display + fmt::Debug>(cx: &mut Ctx, e: &Error<E>) -> R {
    let what = || format!("{e:?}");
    let k = e.kind();
    let ops: Vec<(Op<'_>, String)> = vec![
        (("Display of an error", Box::new(move |d: &mut Dest| write!(d, "{e}"))), e.to_string()),
        (("Display of an error kind", Box::new(move |d: &mut Dest| write!(d, "{k}"))), k.to_string()),
    ];
    for (op, full) in ops {
        enumerate(cx, &op, &full, &what)?;
    }
    Ok(())
}

/// Every error kind that can be constructed, alone and from payloads.
fn errors(cx: &mut Ctx, _: u64) -> R {
    let kinds: Vec<ErrorKind<&'static str>> = vec![
        ErrorKind::Utf8, ErrorKind::UnexpectedEof, ErrorKind::ExpectedObjectKey, ErrorKind::ExpectedColon, ErrorKind::ExpectedValue,
        ErrorKind::ExpectedCommaOrEndOfObject, ErrorKind::ExpectedCommaOrEndOfArray, ErrorKind::IllegalTrailingComma, ErrorKind::Unexpected(b'x'),
        ErrorKind::Unexpected(0), ErrorKind::Unexpected(0xff), ErrorKind::TrailingNonWhitespace, ErrorKind::ObjectKeysMustBeStrings,
        ErrorKind::ExpectedExponent, ErrorKind::ExpectedDecimalDigit, ErrorKind::ExpectedDigit, ErrorKind::InvalidHexadecimal, ErrorKind::InvalidEscape,
        ErrorKind::UnclosedObject, ErrorKind::UnclosedArray, ErrorKind::UnclosedString, ErrorKind::ExpectedString, ErrorKind::ExpectedNumber,
        ErrorKind::RecursionLimitReached, ErrorKind::PayloadsShouldBeObjectOrArray, ErrorKind::PaylodTooLarge, ErrorKind::ErrorFromDelegate("inner text"),
    ];
    for k in &kinds {
        let what = || format!("{k:?}");
        let full = k.to_string();
        ensure!(!full.is_empty(), "error kind {k:?} displays as nothing");
        let op: Op<'_> = ("Display of an error kind", Box::new(move |d: &mut Dest| write!(d, "{k}")));
        enumerate(cx, &op, &full, &what)?;
    }
    for s in ["", "{", "[", "\"", "[1", "{\"a\"", "{\"a\":", "{1:2}", "{,}", "[,]", "[1,]", "{\"a\":1,}", "tru", "trux", "-", "1.", "1e", "1 1", "\"\\x\"", "\"\\u12g4\"", "\"\\ud800\"", "\"\u{1}\"", "x", "]", "[}", "{]"] {
        if let Err(e) = Parser::validate_json(s) {
            error(cx, &e)?;
        }
        if let Err(e) = JsonString::from_json(s) {
            error(cx, &e)?;
        }
    }
    for s in ["1", "[1]", "{\"a\":1}", "\"x\""] {
        if let Err(e) = Parser::parse_json(s, Fails) {
            error(cx, &e)?;
        }
    }
    Ok(())
}
struct Fails;
macro_rules! f {
    ($($n:ident ($($a:ty),*) $r:ty;)*) => { $(fn $n(&mut self $(, _: $a)*) -> Result<$r, &'static str> { Err("refused") })* };
}
impl<'a> ParseDelegate<'a> for Fails {
    type Value = ();
    type Object = ();
    type Array = ();
    type Key = ();
    type Error = &'static str;
    f! { null() (); boolean(bool) (); number(justjson::JsonNumber<'a>) (); string(JsonString<'a>) (); begin_object() (); object_key(&mut (), JsonString<'a>) ();
         object_value(&mut (), (), ()) (); end_object(()) (); begin_array() (); array_value(&mut (), ()) (); end_array(()) (); }
    fn object_is_empty(&self, _: &()) -> bool {
        true
    }
    fn array_is_empty(&self, _: &()) -> bool {
        true
    }
    fn kind_of(&self, _: &()) -> justjson::parser::JsonKind {
        justjson::parser::JsonKind::Null
    }
}

fn built(cx: &mut Ctx, _: u64) -> R {
    let mut r = cx.rng.clone();
    let m = super::c08::mv(&mut r, cx.env, 0, &mut 14);
    let v = super::c10::build(&mut r, &m);
    cx.rng = r;
    cx.sample(|| format!("{m:?}"));
    let k = cx.rng.below(LAYOUTS.len());
    value(cx, &v, &LAYOUTS[k..k + 1], &|| format!("built {}", show(v.to_json().as_bytes())))
}
fn valid(cx: &mut Ctx, _: u64) -> R {
    for _ in 0..4 {
        let mut r = cx.rng.clone();
        let s = crate::gen::DocGen::random(&mut r, cx.env).allow_b(true).doc(&mut r, cx.env);
        cx.rng = r;
        payload(cx, &s)?;
    }
    Ok(())
}
fn strings(cx: &mut Ctx, idx: u64) -> R {
    let fr = ["a", "é", "\\n", "\\u0041", "😀", "\\ud83d\\ude39", "\\\"", "\\u00e9"];
    let rw = ["a", "é", "\n", "\u{1}", "😀", "\"", "/", "\u{1f}"];
    let d = |k: u64| ((idx >> (3 * k)) & 7) as usize;
    let p = format!("\"{}{}{}\"", fr[d(0)], fr[d(1)], fr[d(2)]);
    let j = JsonString::from_json(&p).map_err(|e| format!("{p} rejected: {:?}", e2(&e)))?;
    for (op, full) in string_ops(&j) {
        enumerate(cx, &op, &full, &|| p.clone())?;
    }
    let t = format!("{}{}{}", rw[d(0)], rw[d(1)], rw[d(2)]);
    for j in [JsonString::from(t.as_str()), JsonString::from(t.clone())] {
        for (op, full) in string_ops(&j) {
            enumerate(cx, &op, &full, &|| format!("From {t:?}"))?;
        }
    }
    Ok(())
}
const SHAPES: &[&str] = &[
    "null", "[]", "{}", "[1]", "[1,2]", "[[]]", "[{}]", "{\"a\":1}", "{\"a\":1,\"b\":2}", "{\"a\":[]}", "{\"a\":{}}", "[[1,[2]],{\"b\":[{}]}]",
    "{\"\\n\":\"\\u0041\",\"x\":[true,false,null,-1.5e3]}", "[\"\",\"é\",\"😀\"]", "[[[[[[]]]]]]", "{\"a\":{\"b\":{\"c\":[1,{\"d\":[]}]}}}",
];
fn shapes(cx: &mut Ctx, idx: u64) -> R {
    let s = SHAPES[idx as usize];
    let v = Value::from_json(s).map_err(|e| format!("{s}: {:?}", e2(&e)))?;
    value(cx, &v, LAYOUTS, &|| s.to_string())
}

/// Outputs larger than any buffer is likely to be.
fn large(cx: &mut Ctx, idx: u64) -> R {
    let n = [1000usize, 4100, 8300, 20_000, 70_000][idx as usize / 6];
    let s = match idx % 6 {
        0 => format!("[{}0]", "1,".repeat(n / 2)),
        1 => format!("\"{}\"", "abc\\n€\\u0041".repeat(n / 16)),
        2 => format!("[\"{}\"]", "x".repeat(n)),
        3 => format!("{{{}\"z\":{{}}}}", "\"key\":[\"v\",null],".repeat(n / 18)),
        4 => format!("[{}\"end\"]", "\"é\\t\",{\"a\":-1.5e3},".repeat(n / 22)),
        _ => format!("{}1{}", "[".repeat(100), "]".repeat(100)),
    };
    let v = Value::from_json(&s).map_err(|e| format!("valid payload rejected: {:?}", e2(&e)))?;
    value(cx, &v, &LAYOUTS[..1], &|| show(s.as_bytes()))?;
    cx.max("largest_output", s.len() as u64);
    // the same text as a Rust string
    if idx % 6 == 1 {
        let t = "abc\n€\u{1}\"".repeat(n / 10);
        for j in [JsonString::from(t.as_str()), JsonString::from(t.clone())] {
            for (op, full) in string_ops(&j) {
                enumerate(cx, &op, &full, &|| format!("From {}", show(t.as_bytes())))?;
            }
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C12",
    rule: "faults: every write call and every byte position of the output (beyond 400: both ends, around powers of two, and random positions) fails, either for ever or once, with partial or no acceptance of the failing write; operations: compact, pretty and custom serialization, Display of values ({} and {:#}), strings, decoded and JSON views (also partly consumed), errors and error kinds (all 26 and those from real payloads); inputs: 16 shapes, documents and strings of 1000 to 70000 bytes, all 512 three-class strings, random and built values. Oracle: the destination's log against the complete output. Non-trivial: distinct (operation, output) pairs, each with all its fault points.",
    stack: 0,
    workloads: &[
        Workload { name: "shapes", total: |_| SHAPES.len() as u64, run: shapes },
        Workload { name: "errors", total: |_| 1, run: errors },
        Workload { name: "strings", total: |_| 512, run: strings },
        Workload { name: "tokens", total: |_| 144, run: |cx, i| super::payloads::tokens(cx, i, 5, payload) },
        Workload { name: "large", total: |_| 30, run: large },
        Workload { name: "built", total: |e| e.amt(600, 20000), run: built },
        Workload { name: "valid", total: |e| e.amt(500, 15000), run: valid },
    ],
};
