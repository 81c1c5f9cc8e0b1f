//! C24: one measured call per (payload family, size, operation), for callgrind.
//!   probe cost SPECS SIZE,SIZE,.. SHARD SHARDS [ITEM OP]
//! Prints "item size operation input output allocated" for each measured call, in order.
//! A spec is a list of segments, each fixed or repeated; byte 2 in a repeated
//! segment becomes the repetition's number.
use justjson::doc::{Document, GenericDocument, HeaplessDocument, Node};
use justjson::parser::{ParseConfig, Parser, PeekableTokenKind, Token, Tokenizer};
use justjson::{AnyStr, JsonNumber, JsonString, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};
use std::hint::black_box;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
/// Adds up every byte requested; growing a block counts its whole new size.
pub struct Volume;
unsafe impl GlobalAlloc for Volume {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
        System.realloc(p, l, n)
    }
}

struct Spec(Vec<(bool, Vec<u8>)>);
fn specs(b: &[u8]) -> Vec<Spec> {
    let mut at = 0;
    let word = |at: &mut usize| {
        let w = u32::from_le_bytes(b[*at..*at + 4].try_into().unwrap());
        *at += 4;
        w as usize
    };
    let mut out = vec![];
    while at < b.len() {
        let n = word(&mut at);
        let mut s = vec![];
        for _ in 0..n {
            let (r, l) = (word(&mut at) == 1, word(&mut at));
            s.push((r, b[at..at + l].to_vec()));
            at += l;
        }
        out.push(Spec(s));
    }
    out
}
impl Spec {
    fn at(&self, size: usize) -> Vec<u8> {
        let unit: usize = self.0.iter().filter(|s| s.0).map(|s| s.1.len() + 7 * s.1.iter().filter(|b| **b == 2).count()).sum();
        let k = size / unit.max(1) + 1;
        let mut o = vec![];
        for (r, s) in &self.0 {
            if *r && s.contains(&2) {
                for i in 0..k {
                    for c in s {
                        if *c == 2 {
                            o.extend_from_slice(format!("{i:08}").as_bytes());
                        } else {
                            o.push(*c);
                        }
                    }
                }
            } else {
                for _ in 0..if *r { k } else { 1 } {
                    o.extend_from_slice(s);
                }
            }
        }
        o
    }
}

/// The only function whose instructions are counted.
#[no_mangle]
#[inline(never)]
pub extern "C" fn justjson_measured(f: &mut &mut dyn FnMut()) {
    f();
    black_box(());
}

struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
/// Counts words fed to it, at a constant price each.
struct Feed(u64);
impl Hasher for Feed {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = self.0.wrapping_add(b.len() as u64);
    }
    fn write_u32(&mut self, i: u32) {
        self.0 ^= i as u64;
    }
}

struct Meter<'m> {
    item: usize,
    size: usize,
    only: Option<&'m str>,
}
impl Meter<'_> {
    /// `out`: bytes the call is expected to produce, known beforehand or counted.
    fn call(&mut self, op: &str, input: usize, f: &mut dyn FnMut() -> usize) {
        if self.only.map_or(false, |o| o != op) {
            return;
        }
        // lets a reader tell which call does not come back
        println!("begin {} {} {op}", self.item, self.size);
        let mut out = 0;
        let b0 = BYTES.with(|b| b.get());
        {
            let mut g = || out = f();
            let mut d: &mut dyn FnMut() = &mut g;
            justjson_measured(black_box(&mut d));
        }
        let vol = BYTES.with(|b| b.get()) - b0;
        println!("{} {} {op} {input} {out} {vol}", self.item, self.size);
    }
}

const DOC: usize = 8192;
fn ops(m: &mut Meter<'_>, d: &[u8]) {
    let n = d.len();
    let deep = ParseConfig::default();
    m.call("validate_bytes", n, &mut || black_box(Parser::validate_json_bytes_with_config(d, deep).is_ok()) as usize);
    m.call("tokenize_bytes", n, &mut || Tokenizer::for_json_bytes(d).map(|t| black_box(t.is_ok()) as usize).count());
    m.call("tokenize_peeking", n, &mut || {
        let mut t = Tokenizer::for_json_bytes(d);
        let mut k = 0;
        while let Some(p) = t.peek() {
            if black_box(t.peek()) == Some(PeekableTokenKind::Unrecognized) || p != t.peek().unwrap_or(p) {
                break;
            }
            if !matches!(t.next(), Some(Ok(_))) {
                break;
            }
            k += 1;
        }
        k
    });
    m.call("value_bytes", n, &mut || {
        let v = Value::from_json_bytes(d);
        let y = v.is_ok() as usize;
        std::mem::forget(black_box(v));
        y
    });
    m.call("document_bytes", n, &mut || black_box(Document::from_json_bytes(d)).is_ok() as usize);
    m.call("document_trailing_commas", n, &mut || black_box(Document::from_json_bytes_with_config(d, ParseConfig::strict().allowing_trailing_commas())).is_ok() as usize);
    m.call("document_heapless", n, &mut || black_box(HeaplessDocument::<DOC>::from_json_bytes(d)).is_ok() as usize);
    let Ok(s) = std::str::from_utf8(d) else { return };
    m.call("validate_str", n, &mut || black_box(Parser::validate_json(s).is_ok()) as usize);
    m.call("value_str", n, &mut || {
        let v = Value::from_json(s);
        let y = v.is_ok() as usize;
        std::mem::forget(black_box(v));
        y
    });
    m.call("string_from_json", n, &mut || black_box(JsonString::from_json(s)).is_ok() as usize);
    m.call("number_from_json", n, &mut || black_box(JsonNumber::from_json(s)).is_ok() as usize);
    // the payload as a text
    m.call("string_from_str", n, &mut || black_box(JsonString::from(s)).decoded_len());
    let text = JsonString::from(s);
    strings(m, "text", &text, n);
    if let Ok(j) = JsonString::from_json(s) {
        strings(m, "string", &j, n);
        let o = JsonString::from(j.decode_if_needed().to_string());
        strings(m, "owned", &o, n);
        m.call("mixed.eq", 2 * n, &mut || black_box(o == j && j == o) as usize);
        m.call("mixed.cmp", 2 * n, &mut || black_box((o.cmp(&j), j.cmp(&o))).0 as usize & 1);
    }
    if let Ok(k) = JsonNumber::from_json(s) {
        m.call("number.as_f64", n, &mut || black_box(k.as_f64()).is_some() as usize);
        m.call("number.as_f32", n, &mut || black_box(k.as_f32()).is_some() as usize);
        m.call("number.as_u64", n, &mut || black_box(k.as_u64()).is_some() as usize);
        m.call("number.as_i128", n, &mut || black_box(k.as_i128()).is_some() as usize);
        m.call("number.eq", n, &mut || black_box(k == k.clone()) as usize);
    }
    let (a, b) = (AnyStr::from(s), AnyStr::from(s.to_string()));
    m.call("anystr.eq", n, &mut || black_box(a == b && a == *s) as usize);
    m.call("anystr.cmp", n, &mut || black_box(a.partial_cmp(&b)).is_some() as usize);
    let Ok(v) = Value::from_json(s) else { return };
    m.call("to_json", n, &mut || v.to_json().len());
    m.call("to_json_pretty", n, &mut || v.to_json_pretty().len());
    m.call("to_json_pretty_custom", n, &mut || v.to_json_pretty_custom("\t", "\r\n").len());
    m.call("write_json_to", n, &mut || {
        let mut k = Sink(0);
        let _ = v.write_json_to(&mut k);
        k.0
    });
    m.call("display", n, &mut || {
        let mut k = Sink(0);
        let _ = write!(k, "{v}{v:#}");
        k.0
    });
    let w = Value::from_json(s);
    m.call("value.eq", 2 * n, &mut || black_box(w.as_ref().map(|w| *w == v)).is_ok() as usize);
    let Ok(doc) = Document::from_json(s) else { return };
    let doc2 = Document::from_json(s);
    m.call("document.eq", 2 * n, &mut || black_box(doc2.as_ref().map(|d| *d == doc)).is_ok() as usize);
    m.call("document.iter", n, &mut || doc.iter().map(|x| matches!(black_box(x), Node::Null) as usize).count());
    m.call("document.next_value", n, &mut || {
        let v = doc.iter().next_value();
        std::mem::forget(black_box(v));
        0
    });
    m.call("document.skip", n, &mut || {
        let mut i = doc.iter();
        i.skip_next_value();
        i.count()
    });
    m.call("document.skip_children", n, &mut || {
        let mut i = doc.iter();
        let mut k = 0;
        i.next();
        while i.clone().next().is_some() {
            i.skip_next_value();
            k += 1;
        }
        k
    });
    m.call("document.children", n, &mut || {
        let mut i = doc.iter();
        let mut k = 0;
        i.next();
        while let Some(v) = i.next_value() {
            k += 1;
            drop(black_box(v));
        }
        k
    });
    m.call("document.to_value", n, &mut || {
        let v = Value::from(Document::from_json(s).unwrap_or_else(|_| unreachable!()));
        std::mem::forget(black_box(v));
        0
    });
    // the strings inside, as a whole
    m.call("inner.decode", n, &mut || tokens(s, |j| j.decode_if_needed().len()));
    m.call("inner.hash", n, &mut || {
        tokens(s, |j| {
            let mut h = Feed(0);
            j.hash(&mut h);
            h.0 as usize & 1
        })
    });
    m.call("inner.as_json", n, &mut || tokens(s, |j| j.as_json().count()));
    m.call("inner.eq", n, &mut || tokens(s, |j| (*j == "something else") as usize));
    m.call("drop", n, &mut || {
        drop(black_box(GenericDocument::<Vec<Node<'_>>>::from_json(s)));
        0
    });
    let mut slot = Some(v);
    m.call("drop_value", n, &mut || {
        drop(black_box(slot.take()));
        0
    });
}
fn tokens(s: &str, mut f: impl FnMut(&JsonString<'_>) -> usize) -> usize {
    let mut k = 0;
    for t in Tokenizer::for_json(s) {
        if let Ok(Token::String(j)) = t {
            k += f(&j);
        }
    }
    k
}
fn strings(m: &mut Meter<'_>, w: &str, j: &JsonString<'_>, n: usize) {
    let mut c = |op: &str, f: &mut dyn FnMut() -> usize| m.call(&format!("{w}.{op}"), n, f);
    c("lens", &mut || black_box((j.len(), j.decoded_len(), j.is_empty(), j.as_str().is_some())).0 & 1);
    c("decoded", &mut || j.decoded().map(|c| c as usize & 1).sum());
    c("decoded.collect", &mut || j.decoded().collect::<Vec<char>>().len());
    c("decoded.string", &mut || j.decoded().collect::<String>().len());
    c("decoded.display", &mut || {
        let mut k = Sink(0);
        let _ = write!(k, "{}", j.decoded());
        k.0
    });
    c("as_json", &mut || j.as_json().count());
    c("as_json.collect", &mut || j.as_json().collect::<Vec<char>>().len());
    c("as_json.display", &mut || {
        let mut k = Sink(0);
        let _ = write!(k, "{}", j.as_json());
        k.0
    });
    c("display", &mut || {
        let mut k = Sink(0);
        let _ = write!(k, "{j}");
        k.0
    });
    c("to_string", &mut || j.to_string().len());
    c("decode_if_needed", &mut || j.decode_if_needed().len());
    c("escape_if_needed", &mut || j.escape_if_needed().len());
    c("hash", &mut || {
        let mut h = Feed(0);
        j.hash(&mut h);
        h.0 as usize & 1
    });
    let k = j.clone();
    let t = j.decode_if_needed();
    c("clone", &mut || j.clone().len());
    c("eq", &mut || black_box(k == *j) as usize);
    c("eq_str", &mut || black_box(*j == *t.as_str()) as usize);
    c("cmp", &mut || black_box(k.cmp(j)) as usize & 1);
    c("cmp_str", &mut || black_box(j.partial_cmp(t.as_str())).is_some() as usize);
    c("from_string", &mut || {
        // the text is copied here, not by the library
        black_box(JsonString::from(t.as_str().to_string())).decoded_len() & 1
    });
}

pub fn main(a: &[String]) {
    let sp = specs(&std::fs::read(&a[0]).expect("specs"));
    let sizes: Vec<usize> = a[1].split(',').map(|x| x.parse().expect("size")).collect();
    let (k, n): (usize, usize) = (a[2].parse().expect("shard"), a[3].parse().expect("shards"));
    let only: Option<(usize, &str)> = (a.len() > 5).then(|| (a[4].parse().expect("item"), a[5].as_str()));
    for (i, s) in sp.iter().enumerate() {
        if only.map_or(i % n != k, |o| o.0 != i) {
            continue;
        }
        for &z in &sizes {
            let d = s.at(z);
            ops(&mut Meter { item: i, size: z, only: only.map(|o| o.1) }, &d);
        }
    }
}
/// The payload itself, for reports.
pub fn show(a: &[String]) {
    let sp = specs(&std::fs::read(&a[0]).expect("specs"));
    let i: usize = a[1].parse().expect("item");
    println!("{:?}", sp[i].0.iter().map(|(r, s)| (if *r { "repeated" } else { "once" }, String::from_utf8_lossy(s))).collect::<Vec<_>>());
}
