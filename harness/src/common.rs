//! Adapters between justjson and the reference model.
use crate::model::{self, Cfg, MErr, Outcome, K, MV, NK};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::{Document, DocumentIter, Node};
use justjson::parser::{JsonKind, ParseConfig, Parser};
use justjson::{Entry, Error, ErrorKind, JsonNumber, JsonString, Object, Value};

pub fn kind<E>(e: &ErrorKind<E>) -> K {
    match e {
        ErrorKind::Utf8 => K::Utf8,
        ErrorKind::UnexpectedEof => K::UnexpectedEof,
        ErrorKind::ExpectedObjectKey => K::ExpectedObjectKey,
        ErrorKind::ExpectedColon => K::ExpectedColon,
        ErrorKind::ExpectedValue => K::ExpectedValue,
        ErrorKind::ExpectedCommaOrEndOfObject => K::ExpectedCommaOrEndOfObject,
        ErrorKind::ExpectedCommaOrEndOfArray => K::ExpectedCommaOrEndOfArray,
        ErrorKind::IllegalTrailingComma => K::IllegalTrailingComma,
        ErrorKind::Unexpected(b) => K::Unexpected(*b),
        ErrorKind::TrailingNonWhitespace => K::TrailingNonWhitespace,
        ErrorKind::ObjectKeysMustBeStrings => K::ObjectKeysMustBeStrings,
        ErrorKind::ExpectedExponent => K::ExpectedExponent,
        ErrorKind::ExpectedDecimalDigit => K::ExpectedDecimalDigit,
        ErrorKind::ExpectedDigit => K::ExpectedDigit,
        ErrorKind::InvalidHexadecimal => K::InvalidHexadecimal,
        ErrorKind::InvalidEscape => K::InvalidEscape,
        ErrorKind::UnclosedObject => K::UnclosedObject,
        ErrorKind::UnclosedArray => K::UnclosedArray,
        ErrorKind::UnclosedString => K::UnclosedString,
        ErrorKind::ExpectedString => K::ExpectedString,
        ErrorKind::ExpectedNumber => K::ExpectedNumber,
        ErrorKind::RecursionLimitReached => K::RecursionLimitReached,
        ErrorKind::PayloadsShouldBeObjectOrArray => K::PayloadsShouldBeObjectOrArray,
        ErrorKind::PaylodTooLarge => K::PaylodTooLarge,
        ErrorKind::ErrorFromDelegate(_) => K::ErrorFromDelegate,
        _ => K::Other,
    }
}

/// (kind, offset) of an error
pub type E2 = (K, usize);
pub fn e2<E>(e: &Error<E>) -> E2 {
    (kind(e.kind()), e.offset())
}

pub fn pcfg(c: Cfg) -> ParseConfig {
    let mut p = ParseConfig::new();
    p = match c.limit {
        Some(l) => p.with_recursion_limit(l),
        None => p.without_recursion_limit(),
    };
    p = p.allowing_all_types_at_root(c.any_root);
    if c.trailing {
        p = p.allowing_trailing_commas();
    }
    p
}

pub fn jk(k: NK) -> JsonKind {
    match k {
        NK::Null => JsonKind::Null,
        NK::Bool(_) => JsonKind::Boolean,
        NK::Str => JsonKind::String,
        NK::Num => JsonKind::Number,
        NK::Obj => JsonKind::Object,
        NK::Arr => JsonKind::Array,
    }
}

pub fn as_str(s: &[u8]) -> Option<&str> {
    if model::valid_utf8(s) {
        std::str::from_utf8(s).ok()
    } else {
        None
    }
}

/// Text equality of a JSON string's JSON form with a source slice.
pub fn str_is_source(j: &JsonString<'_>, src: &[u8]) -> R {
    if let Some(a) = j.as_json_str() {
        ensure!(a.as_str().as_bytes() == src, "string source is {} instead of {}", show(a.as_str().as_bytes()), show(src));
        return Ok(());
    }
    let t: String = j.as_json().collect();
    ensure!(t.as_bytes() == src, "string's JSON is {} instead of {}", show(t.as_bytes()), show(src));
    Ok(())
}

enum It<'v, 'a> {
    A(std::slice::Iter<'v, Value<'a>>),
    O(std::slice::Iter<'v, Entry<'a>>),
}

/// Walks a value in document order without recursion.
pub fn walk<'v, 'a>(v: &'v Value<'a>, mut key: impl FnMut(&'v JsonString<'a>) -> R, mut val: impl FnMut(&'v Value<'a>, usize) -> R) -> R {
    let mut st: Vec<It<'v, 'a>> = Vec::new();
    let mut cur = v;
    loop {
        val(cur, st.len())?;
        match cur {
            Value::Array(a) => st.push(It::A(a.iter())),
            Value::Object(o) => st.push(It::O(o.iter())),
            _ => {}
        }
        loop {
            match st.last_mut() {
                None => return Ok(()),
                Some(It::A(i)) => {
                    if let Some(x) = i.next() {
                        cur = x;
                        break;
                    }
                }
                Some(It::O(i)) => {
                    if let Some(e) = i.next() {
                        key(&e.key)?;
                        cur = &e.value;
                        break;
                    }
                }
            }
            st.pop();
        }
    }
}

/// The value has exactly the structure and source texts of the parsed nodes.
pub fn mirrors(v: &Value<'_>, s: &[u8], o: &Outcome) -> R {
    mirrors_nodes(v, s, &o.nodes)
}

/// The same for the subtree `nodes` (a key counts as a string value).
pub fn mirrors_nodes(v: &Value<'_>, s: &[u8], nodes: &[model::MNode]) -> R {
    use std::cell::Cell;
    let i = Cell::new(0usize);
    let base = nodes.first().map_or(0, |n| n.depth);
    let next = || {
        let k = i.get();
        i.set(k + 1);
        nodes.get(k).copied()
    };
    walk(
        v,
        |k| {
            let Some(n) = next() else { bail!("more keys than in the payload") };
            ensure!(n.is_key, "key where the payload has a value (node {})", i.get() - 1);
            str_is_source(k, &s[n.start..n.end])
        },
        |x, depth| {
            let Some(n) = next() else { bail!("more values than in the payload") };
            let at = i.get() - 1;
            ensure!((!n.is_key || at == 0) && n.depth == depth + base, "value at depth {depth} where the payload has something else (node {at})");
            match (x, n.k) {
                (Value::Null, NK::Null) => {}
                (Value::Boolean(b), NK::Bool(c)) if *b == c => {}
                (Value::String(j), NK::Str) => str_is_source(j, &s[n.start..n.end])?,
                (Value::Number(m), NK::Num) => {
                    ensure!(m.source().as_bytes() == &s[n.start..n.end], "number source {} instead of {}", m.source(), show(&s[n.start..n.end]))
                }
                (Value::Array(a), NK::Arr) => ensure!(a.len() == n.len, "array of {} elements instead of {}", a.len(), n.len),
                (Value::Object(a), NK::Obj) => ensure!(a.len() == n.len, "object of {} entries instead of {}", a.len(), n.len),
                _ => bail!("wrong kind or value at node {at}: expected {:?}", n.k),
            }
            Ok(())
        },
    )?;
    ensure!(i.get() == nodes.len(), "value has {} nodes, the payload {}", i.get(), nodes.len());
    Ok(())
}

pub fn node_is(n: &Node<'_>, m: &model::MNode, s: &[u8]) -> R {
    match (n, m.k) {
        (Node::Null, NK::Null) => {}
        (Node::Boolean(b), NK::Bool(c)) if *b == c => {}
        (Node::String(j), NK::Str) => str_is_source(j, &s[m.start..m.end])?,
        (Node::Number(x), NK::Num) => {
            ensure!(x.source().as_bytes() == &s[m.start..m.end], "number node {} instead of {}", x.source(), show(&s[m.start..m.end]))
        }
        (Node::Object { length }, NK::Obj) => ensure!(*length == m.len, "object node of length {length} instead of {}", m.len),
        (Node::Array { length }, NK::Arr) => ensure!(*length == m.len, "array node of length {length} instead of {}", m.len),
        _ => bail!("wrong node kind: expected {:?}", m.k),
    }
    Ok(())
}

pub fn nodes_match<'a>(it: impl Iterator<Item = Node<'a>>, s: &[u8], o: &Outcome) -> R {
    let mut i = 0;
    for n in it {
        let Some(m) = o.nodes.get(i) else { bail!("more than {} nodes", o.nodes.len()) };
        node_is(&n, m, s).map_err(|e| format!("node {i}: {e}"))?;
        i += 1;
    }
    ensure!(i == o.nodes.len(), "{i} nodes instead of {}", o.nodes.len());
    Ok(())
}

/// Outcomes of the core entry points as Ok(kind) / Err(kind, offset).
pub fn value_kind(v: &Value<'_>) -> JsonKind {
    match v {
        Value::Null => JsonKind::Null,
        Value::Boolean(_) => JsonKind::Boolean,
        Value::Number(_) => JsonKind::Number,
        Value::String(_) => JsonKind::String,
        Value::Array(_) => JsonKind::Array,
        Value::Object(_) => JsonKind::Object,
    }
}
pub fn node_kind(n: &Node<'_>) -> JsonKind {
    match n {
        Node::Null => JsonKind::Null,
        Node::Boolean(_) => JsonKind::Boolean,
        Node::Number(_) => JsonKind::Number,
        Node::String(_) => JsonKind::String,
        Node::Array { .. } => JsonKind::Array,
        Node::Object { .. } => JsonKind::Object,
    }
}
pub type Res = Result<JsonKind, E2>;

pub fn doc_kind(d: &Document<'_>) -> JsonKind {
    d.iter().next().map(|n| node_kind(&n)).unwrap_or(JsonKind::Null)
}

/// Calls `f(name, result)` for the six basic routes with a configuration.
pub fn basic_routes(s: &[u8], c: Cfg, mut f: impl FnMut(&'static str, Res) -> R) -> R {
    let p = pcfg(c);
    f("validate_json_bytes", Parser::validate_json_bytes_with_config(s, p).map_err(|e| e2(&e)))?;
    f("Value::from_json_bytes", Value::from_json_bytes_with_config(s, p).map(|v| value_kind(&v)).map_err(|e| e2(&e)))?;
    f("Document::from_json_bytes", Document::from_json_bytes_with_config(s, p).map(|v| doc_kind(&v)).map_err(|e| e2(&e)))?;
    if let Some(t) = as_str(s) {
        f("validate_json", Parser::validate_json_with_config(t, p).map_err(|e| e2(&e)))?;
        f("Value::from_json", Value::from_json_with_config(t, p).map(|v| value_kind(&v)).map_err(|e| e2(&e)))?;
        f("Document::from_json", Document::from_json_with_config(t, p).map(|v| doc_kind(&v)).map_err(|e| e2(&e)))?;
    }
    Ok(())
}

/// Accept/reject of every basic route equals the model's verdict.
pub fn routes_accept(s: &[u8], c: Cfg, o: &Outcome) -> R {
    basic_routes(s, c, |name, r| {
        ensure!(
            r.is_ok() == o.ok(),
            "{name} {} but the payload is {} under {c:?}: {}",
            match &r {
                Ok(k) => format!("accepts (as {k:?})"),
                Err(e) => format!("rejects with {e:?}"),
            },
            match &o.err {
                None => "valid".to_string(),
                Some(e) => format!("invalid ({e:?})"),
            },
            show(s)
        );
        Ok(())
    })
}

/// An error agrees with the model's first violation. Where a violation could be
/// put in several words (a bracket cut off inside a string, say), the kind this
/// crate settled on, `kinds[0]`, is the one required.
pub fn err_matches(got: E2, want: &MErr, s: &[u8]) -> R {
    ensure!(want.kinds[0] == got.0, "error kind {:?} instead of {:?}", got.0, want.kinds[0]);
    ensure!(
        got.1 >= want.lo && got.1 <= want.hi,
        "error {:?} at offset {} but the violation is within {}..={}",
        got.0,
        got.1,
        want.lo,
        want.hi
    );
    if let K::Unexpected(b) = got.0 {
        let p = model::skip_ws(s, got.1);
        ensure!(s.get(got.1) == Some(&b) || s.get(p) == Some(&b), "Unexpected({b:#x}) but offset {} holds something else", got.1);
    }
    Ok(())
}

/// Tree equality between a justjson value and a model tree, strings compared by
/// decoded text.
pub fn tree_eq(v: &Value<'_>, m: &MV) -> R {
    let mut st: Vec<(&Value<'_>, &MV)> = vec![(v, m)];
    while let Some((v, m)) = st.pop() {
        match (v, m) {
            (Value::Null, MV::Null) => {}
            (Value::Boolean(a), MV::Bool(b)) if a == b => {}
            (Value::Number(a), MV::Num(b)) => ensure!(a.source() == b, "number {} instead of {b}", a.source()),
            (Value::String(a), MV::Str(b)) => ensure!(a.decoded().eq(b.chars()), "string {:?} instead of {b:?}", a.decoded().collect::<String>()),
            (Value::Array(a), MV::Arr(b)) => {
                ensure!(a.len() == b.len(), "array of {} instead of {}", a.len(), b.len());
                st.extend(a.iter().zip(b));
            }
            (Value::Object(a), MV::Obj(b)) => {
                ensure!(a.len() == b.len(), "object of {} instead of {}", a.len(), b.len());
                for (x, y) in a.iter().zip(b) {
                    ensure!(x.key.decoded().eq(y.0.chars()), "key {:?} instead of {:?}", x.key.decoded().collect::<String>(), y.0);
                    st.push((&x.value, &y.1));
                }
            }
            _ => bail!("kind mismatch: {:?} against {:?}", value_kind(v), m),
        }
    }
    Ok(())
}

#[allow(unused)]
pub fn drain(it: &mut DocumentIter<'_, '_>) -> usize {
    it.count_by_ref()
}
trait CountByRef {
    fn count_by_ref(&mut self) -> usize;
}
impl<I: Iterator> CountByRef for I {
    fn count_by_ref(&mut self) -> usize {
        let mut n = 0;
        while self.next().is_some() {
            n += 1;
        }
        n
    }
}

#[allow(unused)]
pub fn num(s: &str) -> Option<JsonNumber<'_>> {
    JsonNumber::from_json(s).ok()
}
#[allow(unused)]
pub fn obj_new<'a>() -> Object<'a> {
    Object::new()
}

/// Text of `s` equals `want` under the RFC reading or under the recorded `\b`
/// quirk.
#[allow(unused)]
pub fn decodes_to(body: &str, want: &str) -> bool {
    model::decode(body) == want || (model::has_b_escape(body) && model::decode_quirk(body) == want)
}

/// An iterator with a truthful, but not always helpful size hint.
pub struct Hinted<I>(I, usize);
pub fn hinted<I: Iterator>(it: impl IntoIterator<IntoIter = I, Item = I::Item>, r: &mut Rng) -> Hinted<I> {
    Hinted(it.into_iter(), r.below(5))
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.0.size_hint();
        match self.1 {
            0 => (lo, hi),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            3 => (lo / 2, hi.map(|h| h.saturating_mul(2).saturating_add(5))),
            _ => (lo, Some(usize::MAX / 2 + 1)),
        }
    }
}
