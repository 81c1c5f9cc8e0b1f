//! Independent reference model: lexer, parser, string decoder, printers.
//! Written from RFC 8259 and the crate's documentation; uses an explicit stack
//! (never recursion), works on bytes and shares no code with justjson.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub trailing: bool,
    pub limit: Option<usize>,
    pub any_root: bool,
}
impl Cfg {
    pub const DEFAULT: Cfg = Cfg { trailing: false, limit: Some(128), any_root: true };
    pub const OPEN: Cfg = Cfg { trailing: false, limit: None, any_root: true };
}

/// Error kinds, mirroring the documented names.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Utf8,
    UnexpectedEof,
    ExpectedObjectKey,
    ExpectedColon,
    ExpectedValue,
    ExpectedCommaOrEndOfObject,
    ExpectedCommaOrEndOfArray,
    IllegalTrailingComma,
    Unexpected(u8),
    TrailingNonWhitespace,
    ObjectKeysMustBeStrings,
    ExpectedExponent,
    ExpectedDecimalDigit,
    ExpectedDigit,
    InvalidHexadecimal,
    InvalidEscape,
    UnclosedObject,
    UnclosedArray,
    UnclosedString,
    ExpectedString,
    ExpectedNumber,
    RecursionLimitReached,
    PayloadsShouldBeObjectOrArray,
    PaylodTooLarge,
    ErrorFromDelegate,
    Other,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MErr {
    /// Acceptable kinds; the first is the one the implementation documents best.
    pub kinds: Vec<K>,
    /// Inclusive range of acceptable offsets.
    pub lo: usize,
    pub hi: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Null,
    True,
    False,
    Str,
    Num,
    LBrace,
    RBrace,
    LBracket,
    RBracket,
    Colon,
    Comma,
}

/// Token: for strings `start..end` includes the quotes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok {
    pub t: T,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug)]
pub struct LexErr {
    pub kinds: Vec<K>,
    /// start of the malformed token (or len at EOF)
    pub start: usize,
    /// position of the violation
    pub at: usize,
}

pub fn is_ws(b: u8) -> bool {
    b == b' ' || b == b'\n' || b == b'\r' || b == b'\t'
}

pub fn skip_ws(s: &[u8], mut i: usize) -> usize {
    while i < s.len() && is_ws(s[i]) {
        i += 1;
    }
    i
}

fn hexval(b: u8) -> Option<u32> {
    match b {
        b'0'..=b'9' => Some((b - b'0') as u32),
        b'a'..=b'f' => Some((b - b'a') as u32 + 10),
        b'A'..=b'F' => Some((b - b'A') as u32 + 10),
        _ => None,
    }
}

/// Length of the valid UTF-8 sequence at `i`, by Table 3-7 of the Unicode
/// standard. None if ill-formed.
pub fn utf8_len(s: &[u8], i: usize) -> Option<usize> {
    let b0 = s[i];
    let g = |k: usize| s.get(i + k).copied();
    let cont = |b: Option<u8>| matches!(b, Some(0x80..=0xBF));
    match b0 {
        0x00..=0x7F => Some(1),
        0xC2..=0xDF => cont(g(1)).then_some(2),
        0xE0 => (matches!(g(1), Some(0xA0..=0xBF)) && cont(g(2))).then_some(3),
        0xE1..=0xEC | 0xEE..=0xEF => (cont(g(1)) && cont(g(2))).then_some(3),
        0xED => (matches!(g(1), Some(0x80..=0x9F)) && cont(g(2))).then_some(3),
        0xF0 => (matches!(g(1), Some(0x90..=0xBF)) && cont(g(2)) && cont(g(3))).then_some(4),
        0xF1..=0xF3 => (cont(g(1)) && cont(g(2)) && cont(g(3))).then_some(4),
        0xF4 => (matches!(g(1), Some(0x80..=0x8F)) && cont(g(2)) && cont(g(3))).then_some(4),
        _ => None,
    }
}

pub fn valid_utf8(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        match utf8_len(s, i) {
            Some(n) => i += n,
            None => return false,
        }
    }
    true
}

/// Reads one token starting the search at `pos`.
pub fn lex(s: &[u8], pos: usize) -> Result<Tok, LexErr> {
    let i = skip_ws(s, pos);
    if i >= s.len() {
        return Err(LexErr { kinds: vec![K::UnexpectedEof], start: s.len(), at: s.len() });
    }
    let one = |t| Ok(Tok { t, start: i, end: i + 1 });
    match s[i] {
        b'{' => one(T::LBrace),
        b'}' => one(T::RBrace),
        b'[' => one(T::LBracket),
        b']' => one(T::RBracket),
        b':' => one(T::Colon),
        b',' => one(T::Comma),
        b't' => lex_word(s, i, b"true", T::True),
        b'f' => lex_word(s, i, b"false", T::False),
        b'n' => lex_word(s, i, b"null", T::Null),
        b'"' => lex_string(s, i),
        b'-' | b'0'..=b'9' => lex_number(s, i),
        b => Err(LexErr { kinds: vec![K::Unexpected(b), K::ExpectedValue], start: i, at: i }),
    }
}

fn lex_word(s: &[u8], i: usize, w: &[u8], t: T) -> Result<Tok, LexErr> {
    for (k, c) in w.iter().enumerate() {
        match s.get(i + k) {
            None => return Err(LexErr { kinds: vec![K::UnexpectedEof], start: i, at: s.len() }),
            Some(b) if b == c => {}
            Some(b) => {
                return Err(LexErr { kinds: vec![K::Unexpected(*b), K::ExpectedValue], start: i, at: i + k })
            }
        }
    }
    Ok(Tok { t, start: i, end: i + w.len() })
}

fn lex_number(s: &[u8], i: usize) -> Result<Tok, LexErr> {
    let mut p = i;
    let digit = |p: usize| s.get(p).map_or(false, |b| b.is_ascii_digit());
    let err = |k, p| Err(LexErr { kinds: vec![k], start: i, at: p });
    if s[p] == b'-' {
        p += 1;
        if !digit(p) {
            return err(K::ExpectedDigit, p);
        }
    }
    if s[p] == b'0' {
        p += 1;
    } else {
        while digit(p) {
            p += 1;
        }
    }
    if s.get(p) == Some(&b'.') {
        p += 1;
        if !digit(p) {
            return err(K::ExpectedDecimalDigit, p);
        }
        while digit(p) {
            p += 1;
        }
    }
    if matches!(s.get(p), Some(b'e' | b'E')) {
        p += 1;
        if matches!(s.get(p), Some(b'+' | b'-')) {
            p += 1;
        }
        if !digit(p) {
            return err(K::ExpectedExponent, p);
        }
        while digit(p) {
            p += 1;
        }
    }
    Ok(Tok { t: T::Num, start: i, end: p })
}

fn lex_string(s: &[u8], i: usize) -> Result<Tok, LexErr> {
    let e = |kinds: &[K], at: usize| Err(LexErr { kinds: kinds.to_vec(), start: i, at });
    let eof_in_escape = &[K::UnexpectedEof, K::UnclosedString];
    let mut p = i + 1;
    loop {
        let Some(&b) = s.get(p) else { return e(&[K::UnclosedString], s.len()) };
        match b {
            b'"' => return Ok(Tok { t: T::Str, start: i, end: p + 1 }),
            0..=0x1F => return e(&[K::Unexpected(b)], p),
            b'\\' => {
                let Some(&c) = s.get(p + 1) else { return e(eof_in_escape, s.len()) };
                match c {
                    b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => p += 2,
                    b'u' => {
                        let hex4 = |q: usize| -> Result<u32, LexErr> {
                            let mut v = 0;
                            for k in 0..4 {
                                match s.get(q + k) {
                                    None => {
                                        return Err(LexErr { kinds: eof_in_escape.to_vec(), start: i, at: s.len() })
                                    }
                                    Some(h) => match hexval(*h) {
                                        Some(x) => v = v * 16 + x,
                                        None => {
                                            return Err(LexErr {
                                                kinds: vec![K::InvalidHexadecimal],
                                                start: i,
                                                at: q + k,
                                            })
                                        }
                                    },
                                }
                            }
                            Ok(v)
                        };
                        let v = hex4(p + 2)?;
                        if (0xDC00..=0xDFFF).contains(&v) {
                            return e(&[K::Utf8], p + 5);
                        }
                        if (0xD800..=0xDBFF).contains(&v) {
                            // must be followed by \uDC00..\uDFFF
                            match s.get(p + 6) {
                                None => return e(&[K::UnexpectedEof, K::UnclosedString, K::Utf8], s.len()),
                                Some(b'\\') => {}
                                Some(_) => return e(&[K::Utf8], p + 6),
                            }
                            match s.get(p + 7) {
                                None => return e(&[K::UnexpectedEof, K::UnclosedString, K::Utf8], s.len()),
                                Some(b'u') => {}
                                Some(_) => return e(&[K::Utf8], p + 7),
                            }
                            let w = hex4(p + 8)?;
                            if !(0xDC00..=0xDFFF).contains(&w) {
                                return e(&[K::Utf8], p + 11);
                            }
                            p += 12;
                        } else {
                            p += 6;
                        }
                    }
                    _ => return e(&[K::InvalidEscape], p + 1),
                }
            }
            0x20..=0x7F => p += 1,
            0x80..=0xFF => match utf8_len(s, p) {
                Some(n) => p += n,
                None => return e(&[K::Utf8], p),
            },
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum NK {
    Null,
    Bool(bool),
    Str,
    Num,
    Obj,
    Arr,
}

/// Pre-order node. `start..end` is the token text (strings without quotes;
/// containers: the opening bracket).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct MNode {
    pub k: NK,
    pub is_key: bool,
    pub start: usize,
    pub end: usize,
    /// number of elements or entries
    pub len: usize,
    /// index one past the last node of this subtree
    pub sub_end: usize,
    pub depth: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev {
    BeginObj,
    EndObj,
    BeginArr,
    EndArr,
    /// node index of the key
    Key(usize),
    /// entry complete
    ObjVal,
    ArrVal,
    /// node index of scalar
    Scalar(usize),
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub nodes: Vec<MNode>,
    pub events: Vec<Ev>,
    /// for every event, how many nodes exist when it is delivered
    pub max_depth: usize,
    pub err: Option<MErr>,
    /// err is about the root type (events may or may not be delivered)
    pub root_type_err: bool,
    /// end of the last token that fits the grammar
    pub last_end: usize,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.err.is_none()
    }
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Value,       // expecting a value
    ArrFirst,    // value or ]
    ArrNext,     // value after comma (or ] if trailing)
    ObjFirst,    // key or }
    ObjNext,     // key after comma (or } if trailing)
    Colon,
    After,       // after a value
}

pub fn parse(s: &[u8], cfg: Cfg) -> Outcome {
    let mut o = Outcome::default();
    // stack of container node indices
    let mut stack: Vec<usize> = Vec::new();
    let mut pos = 0usize;
    let mut st = St::Value;
    let fail = |o: &mut Outcome, stack: &[usize], kinds: Vec<K>, lo: usize, hi: usize| {
        // an EOF inside a container is reported as that container being unclosed
        let mut ks = Vec::new();
        for k in kinds {
            if k == K::UnexpectedEof {
                if let Some(&top) = stack.last() {
                    ks.push(if o.nodes[top].k == NK::Obj { K::UnclosedObject } else { K::UnclosedArray });
                    continue;
                }
            }
            ks.push(k);
        }
        o.err = Some(MErr { kinds: ks, lo, hi });
    };
    loop {
        if st == St::After && stack.is_empty() {
            // root complete
            let i = skip_ws(s, pos);
            let root = o.nodes[0];
            let bad_root = !cfg.any_root && !matches!(root.k, NK::Obj | NK::Arr);
            let trailing = i < s.len();
            if bad_root {
                let mut kinds = vec![K::PayloadsShouldBeObjectOrArray];
                let mut hi = root.start;
                if trailing {
                    kinds.push(K::TrailingNonWhitespace);
                    hi = i;
                }
                o.root_type_err = true;
                o.err = Some(MErr { kinds, lo: 0, hi });
            } else if trailing {
                o.err = Some(MErr { kinds: vec![K::TrailingNonWhitespace], lo: pos, hi: i });
            }
            o.last_end = pos;
            return o;
        }
        o.last_end = pos;
        let tok = match lex(s, pos) {
            Ok(t) => t,
            Err(e) => {
                let mut kinds = e.kinds;
                match st {
                    St::Colon => {
                        let eof = e.at >= s.len();
                        kinds = vec![K::ExpectedColon];
                        if eof {
                            kinds.push(K::UnexpectedEof);
                        }
                    }
                    St::After if e.start < s.len() => {
                        let top = o.nodes[*stack.last().unwrap()].k;
                        kinds.push(if top == NK::Obj {
                            K::ExpectedCommaOrEndOfObject
                        } else {
                            K::ExpectedCommaOrEndOfArray
                        });
                    }
                    St::ObjFirst | St::ObjNext if e.start < s.len() && s[e.start] != b'"' => {
                        kinds.push(K::ExpectedObjectKey);
                        kinds.push(K::ObjectKeysMustBeStrings);
                    }
                    _ => {}
                }
                fail(&mut o, &stack, kinds, pos, e.at);
                return o;
            }
        };
        let lo = pos;
        let hi = tok.end - 1;
        // returns true if value was started/completed
        let want_value = match st {
            St::Value => true,
            St::ArrFirst | St::ArrNext => {
                if tok.t == T::RBracket {
                    if st == St::ArrNext && !cfg.trailing {
                        fail(&mut o, &stack, vec![K::IllegalTrailingComma], lo, hi);
                        return o;
                    }
                    o.events.push(Ev::EndArr);
                    false
                } else {
                    true
                }
            }
            St::ObjFirst | St::ObjNext => {
                match tok.t {
                    T::Str => {
                        let n = o.nodes.len();
                        let top = *stack.last().unwrap();
                        o.nodes[top].len += 1;
                        o.nodes.push(MNode {
                            k: NK::Str,
                            is_key: true,
                            start: tok.start + 1,
                            end: tok.end - 1,
                            len: 0,
                            sub_end: n + 1,
                            depth: stack.len(),
                        });
                        o.events.push(Ev::Key(n));
                        pos = tok.end;
                        st = St::Colon;
                        continue;
                    }
                    T::RBrace => {
                        if st == St::ObjNext && !cfg.trailing {
                            fail(&mut o, &stack, vec![K::IllegalTrailingComma], lo, hi);
                            return o;
                        }
                        o.events.push(Ev::EndObj);
                    }
                    T::Null | T::True | T::False | T::Num | T::LBrace | T::LBracket => {
                        fail(&mut o, &stack, vec![K::ObjectKeysMustBeStrings], lo, hi);
                        return o;
                    }
                    T::RBracket | T::Colon | T::Comma => {
                        fail(&mut o, &stack, vec![K::ExpectedObjectKey], lo, hi);
                        return o;
                    }
                }
                false
            }
            St::Colon => {
                if tok.t != T::Colon {
                    fail(&mut o, &stack, vec![K::ExpectedColon], lo, hi);
                    return o;
                }
                pos = tok.end;
                st = St::Value;
                continue;
            }
            St::After => {
                let top = *stack.last().unwrap();
                let obj = o.nodes[top].k == NK::Obj;
                match tok.t {
                    T::Comma => {
                        pos = tok.end;
                        st = if obj { St::ObjNext } else { St::ArrNext };
                        continue;
                    }
                    T::RBrace if obj => o.events.push(Ev::EndObj),
                    T::RBracket if !obj => o.events.push(Ev::EndArr),
                    _ => {
                        let k = if obj { K::ExpectedCommaOrEndOfObject } else { K::ExpectedCommaOrEndOfArray };
                        fail(&mut o, &stack, vec![k], lo, hi);
                        return o;
                    }
                }
                false
            }
        };
        pos = tok.end;
        if want_value {
            let n = o.nodes.len();
            let scalar = |k: NK, a: usize, b: usize| MNode {
                k,
                is_key: false,
                start: a,
                end: b,
                len: 0,
                sub_end: n + 1,
                depth: stack.len(),
            };
            match tok.t {
                T::Null => o.nodes.push(scalar(NK::Null, tok.start, tok.end)),
                T::True => o.nodes.push(scalar(NK::Bool(true), tok.start, tok.end)),
                T::False => o.nodes.push(scalar(NK::Bool(false), tok.start, tok.end)),
                T::Str => o.nodes.push(scalar(NK::Str, tok.start + 1, tok.end - 1)),
                T::Num => o.nodes.push(scalar(NK::Num, tok.start, tok.end)),
                T::LBrace | T::LBracket => {
                    if let Some(l) = cfg.limit {
                        if stack.len() >= l {
                            fail(&mut o, &stack, vec![K::RecursionLimitReached], lo, hi);
                            return o;
                        }
                    }
                    let obj = tok.t == T::LBrace;
                    let m = scalar(if obj { NK::Obj } else { NK::Arr }, tok.start, tok.end);
                    o.nodes.push(m);
                    stack.push(n);
                    o.max_depth = o.max_depth.max(stack.len());
                    o.events.push(if obj { Ev::BeginObj } else { Ev::BeginArr });
                    st = if obj { St::ObjFirst } else { St::ArrFirst };
                    continue;
                }
                T::RBrace | T::RBracket | T::Colon | T::Comma => {
                    fail(&mut o, &stack, vec![K::Unexpected(s[tok.start]), K::ExpectedValue], lo, hi);
                    return o;
                }
            }
            o.events.push(Ev::Scalar(n));
        } else {
            // container closed
            let c = stack.pop().unwrap();
            let n = o.nodes.len();
            o.nodes[c].sub_end = n;
        }
        // value complete: tell the parent
        if let Some(&top) = stack.last() {
            if o.nodes[top].k == NK::Obj {
                o.events.push(Ev::ObjVal);
            } else {
                o.nodes[top].len += 1;
                o.events.push(Ev::ArrVal);
            }
        }
        st = St::After;
    }
}

/// Decodes a valid JSON string body (no quotes) by RFC 8259. `b_is` is the
/// character assigned to `\b` (U+0008 by the RFC).
pub fn decode_with(body: &str, b_is: char) -> String {
    let s = body.as_bytes();
    let mut out = String::with_capacity(body.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] != b'\\' {
            let n = utf8_len(s, i).unwrap_or(1);
            out.push_str(&body[i..i + n]);
            i += n;
            continue;
        }
        match s[i + 1] {
            b'b' => out.push(b_is),
            b'f' => out.push('\u{c}'),
            b'n' => out.push('\n'),
            b'r' => out.push('\r'),
            b't' => out.push('\t'),
            b'u' => {
                let h = |q: usize| (0..4).fold(0u32, |v, k| v * 16 + hexval(s[q + k]).unwrap_or(0));
                let v = h(i + 2);
                if (0xD800..0xDC00).contains(&v) {
                    let w = h(i + 8);
                    let c = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                    out.push(char::from_u32(c).expect("model: pair"));
                    i += 12;
                } else {
                    out.push(char::from_u32(v).expect("model: scalar"));
                    i += 6;
                }
                continue;
            }
            c => out.push(c as char),
        }
        i += 2;
    }
    out
}
pub fn decode(body: &str) -> String {
    decode_with(body, '\u{8}')
}
/// Decoding with the recorded quirk KF1 (`\b` read as U+0007).
pub fn decode_quirk(body: &str) -> String {
    decode_with(body, '\u{7}')
}
/// True if `body` (without quotes) is a valid JSON string body.
pub fn valid_body(body: &str) -> bool {
    let mut v = Vec::with_capacity(body.len() + 2);
    v.push(b'"');
    v.extend_from_slice(body.as_bytes());
    v.push(b'"');
    matches!(lex(&v, 0), Ok(t) if t.t == T::Str && t.end == v.len())
}
pub fn has_escape(body: &str) -> bool {
    body.as_bytes().contains(&b'\\')
}
/// True if the body contains the two-character escape `\b`.
pub fn has_b_escape(body: &str) -> bool {
    let s = body.as_bytes();
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if s.get(i + 1) == Some(&b'b') {
                return true;
            }
            i += 2;
        } else {
            i += 1;
        }
    }
    false
}

/// Compact rendering of a successfully parsed payload: its tokens without
/// whitespace and without trailing commas.
pub fn compact(s: &[u8], o: &Outcome) -> Vec<u8> {
    render(s, o, None)
}

/// Pretty rendering.
pub fn pretty(s: &[u8], o: &Outcome, indent: &str, eol: &str) -> Vec<u8> {
    render(s, o, Some((indent, eol)))
}

fn render(s: &[u8], o: &Outcome, p: Option<(&str, &str)>) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len());
    // (node, entries left)
    let mut stack: Vec<(usize, usize)> = Vec::new();
    let mut i = 0;
    let nl = |out: &mut Vec<u8>, depth: usize| {
        if let Some((ind, eol)) = p {
            out.extend_from_slice(eol.as_bytes());
            for _ in 0..depth {
                out.extend_from_slice(ind.as_bytes());
            }
        }
    };
    while i < o.nodes.len() {
        let n = o.nodes[i];
        i += 1;
        match n.k {
            NK::Str => {
                out.push(b'"');
                out.extend_from_slice(&s[n.start..n.end]);
                out.push(b'"');
                if n.is_key {
                    out.push(b':');
                    if p.is_some() {
                        out.push(b' ');
                    }
                    continue;
                }
            }
            NK::Obj | NK::Arr => {
                out.push(if n.k == NK::Obj { b'{' } else { b'[' });
                if n.len > 0 {
                    stack.push((i - 1, n.len));
                    nl(&mut out, stack.len());
                    continue;
                }
                out.push(if n.k == NK::Obj { b'}' } else { b']' });
            }
            _ => out.extend_from_slice(&s[n.start..n.end]),
        }
        // value finished
        while let Some(top) = stack.last_mut() {
            top.1 -= 1;
            if top.1 > 0 {
                out.push(b',');
                let d = stack.len();
                nl(&mut out, d);
                break;
            }
            let (c, _) = stack.pop().unwrap();
            let d = stack.len();
            nl(&mut out, d);
            out.push(if o.nodes[c].k == NK::Obj { b'}' } else { b']' });
        }
    }
    out
}

/// Removes whitespace outside strings.
pub fn strip_ws(s: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(s.len());
    let mut in_str = false;
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        if in_str {
            out.push(b);
            if b == b'\\' && i + 1 < s.len() {
                out.push(s[i + 1]);
                i += 1;
            } else if b == b'"' {
                in_str = false;
            }
        } else if b == b'"' {
            in_str = true;
            out.push(b);
        } else if !is_ws(b) {
            out.push(b);
        }
        i += 1;
    }
    out
}

// ---------------------------------------------------------------------------
// Model values (trees), for built and edited values.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MV {
    Null,
    Bool(bool),
    Num(String),
    /// decoded text
    Str(String),
    Arr(Vec<MV>),
    Obj(Vec<(String, MV)>),
}

/// Tree from a parsed outcome; strings decoded with `dec`.
pub fn tree(s: &[u8], o: &Outcome, dec: fn(&str) -> String) -> MV {
    enum F {
        A(Vec<MV>, usize),
        O(Vec<(String, MV)>, usize, Option<String>),
    }
    let mut st: Vec<F> = Vec::new();
    let mut i = 0;
    loop {
        let n = o.nodes[i];
        i += 1;
        let txt = || std::str::from_utf8(&s[n.start..n.end]).unwrap_or("\u{fffd}");
        let mut v = match n.k {
            NK::Null => MV::Null,
            NK::Bool(b) => MV::Bool(b),
            NK::Num => MV::Num(txt().to_string()),
            NK::Str => {
                let t = dec(txt());
                if n.is_key {
                    if let Some(F::O(_, _, k)) = st.last_mut() {
                        *k = Some(t);
                    }
                    continue;
                }
                MV::Str(t)
            }
            NK::Arr if n.len == 0 => MV::Arr(vec![]),
            NK::Obj if n.len == 0 => MV::Obj(vec![]),
            NK::Arr => {
                st.push(F::A(Vec::new(), n.len));
                continue;
            }
            NK::Obj => {
                st.push(F::O(Vec::new(), n.len, None));
                continue;
            }
        };
        loop {
            let full = match st.last_mut() {
                None => return v,
                Some(F::A(a, n)) => {
                    a.push(v);
                    a.len() == *n
                }
                Some(F::O(e, n, k)) => {
                    e.push((k.take().unwrap_or_default(), v));
                    e.len() == *n
                }
            };
            if !full {
                break;
            }
            v = match st.pop() {
                Some(F::A(a, _)) => MV::Arr(a),
                Some(F::O(e, _, _)) => MV::Obj(e),
                None => unreachable!(),
            };
        }
    }
}

// ---------------------------------------------------------------------------
// Big naturals for exact number checks.

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big(pub Vec<u32>);
impl Big {
    pub fn zero() -> Big {
        Big(vec![])
    }
    pub fn from_u128(mut v: u128) -> Big {
        let mut d = vec![];
        while v > 0 {
            d.push(v as u32);
            v >>= 32;
        }
        Big(d)
    }
    pub fn mul_add(&mut self, m: u32, a: u32) {
        let mut c = a as u64;
        for d in &mut self.0 {
            let x = *d as u64 * m as u64 + c;
            *d = x as u32;
            c = x >> 32;
        }
        if c > 0 {
            self.0.push(c as u32);
        }
    }
    pub fn from_dec(s: &[u8]) -> Big {
        let mut b = Big::zero();
        for ch in s.chunks(9) {
            let mut m = 1u32;
            let mut v = 0u32;
            for c in ch {
                m *= 10;
                v = v * 10 + (c - b'0') as u32;
            }
            b.mul_add(m, v);
        }
        b
    }
    /// Decimal digits, "0" for zero.
    pub fn to_dec(&self) -> String {
        let mut v = self.0.clone();
        let mut parts = vec![];
        while !v.is_empty() {
            let mut r = 0u64;
            for d in v.iter_mut().rev() {
                let x = (r << 32) | *d as u64;
                *d = (x / 1_000_000_000) as u32;
                r = x % 1_000_000_000;
            }
            while v.last() == Some(&0) {
                v.pop();
            }
            parts.push(r as u32);
        }
        let mut s = String::new();
        for (i, p) in parts.iter().rev().enumerate() {
            if i == 0 {
                s = p.to_string();
            } else {
                s.push_str(&format!("{p:09}"));
            }
        }
        if s.is_empty() {
            s.push('0');
        }
        s
    }
    pub fn mul_pow10(&mut self, mut e: usize) {
        while e >= 9 {
            self.mul_add(1_000_000_000, 0);
            e -= 9;
        }
        self.mul_add(10u32.pow(e as u32), 0);
    }
    pub fn shl(&mut self, n: usize) {
        if self.0.is_empty() {
            return;
        }
        let (w, b) = (n / 32, n % 32);
        if b > 0 {
            let mut c = 0u32;
            for d in &mut self.0 {
                let x = (*d << b) | c;
                c = *d >> (32 - b);
                *d = x;
            }
            if c > 0 {
                self.0.push(c);
            }
        }
        if w > 0 {
            let mut v = vec![0u32; w];
            v.append(&mut self.0);
            self.0 = v;
        }
    }
    pub fn cmp(&self, o: &Big) -> std::cmp::Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.0.len() > 4 {
            return None;
        }
        Some(self.0.iter().rev().fold(0u128, |a, d| (a << 32) | *d as u128))
    }
}

/// A JSON number split into its parts.
pub struct Num {
    pub neg: bool,
    /// integer + fraction digits, without leading zeros
    pub digits: Vec<u8>,
    /// power of ten of the last digit (saturated)
    pub exp: i64,
    /// written without fraction and exponent
    pub plain: bool,
}
pub fn split_num(src: &str) -> Num {
    let s = src.as_bytes();
    let neg = s.first() == Some(&b'-');
    let mut i = neg as usize;
    let mut digits = vec![];
    let mut exp = 0i64;
    let mut plain = true;
    while i < s.len() && s[i].is_ascii_digit() {
        digits.push(s[i]);
        i += 1;
    }
    if s.get(i) == Some(&b'.') {
        plain = false;
        i += 1;
        while i < s.len() && s[i].is_ascii_digit() {
            digits.push(s[i]);
            exp -= 1;
            i += 1;
        }
    }
    if matches!(s.get(i), Some(b'e' | b'E')) {
        plain = false;
        i += 1;
        let mut eneg = false;
        if let Some(c @ (b'+' | b'-')) = s.get(i) {
            eneg = *c == b'-';
            i += 1;
        }
        let mut e = 0i64;
        while i < s.len() && s[i].is_ascii_digit() {
            e = e.saturating_mul(10).saturating_add((s[i] - b'0') as i64).min(1 << 50);
            i += 1;
        }
        exp += if eneg { -e } else { e };
    }
    let nz = digits.iter().position(|d| *d != b'0').unwrap_or(digits.len());
    digits.drain(..nz);
    // strip trailing zeros (keeps bigs small)
    while digits.last() == Some(&b'0') {
        digits.pop();
        exp += 1;
    }
    Num { neg, digits, exp, plain }
}

/// Checks that `bits` (IEEE, `mant` explicit mantissa bits, `ebits` exponent
/// bits) is the correctly rounded value of `src`.
pub fn float_ok(src: &str, bits: u64, mant: u32, ebits: u32) -> bool {
    let n = split_num(src);
    let sign = (bits >> (mant + ebits)) & 1 == 1;
    if sign != n.neg {
        return false;
    }
    let mag = bits & ((1u64 << (mant + ebits)) - 1);
    let inf = ((1u64 << ebits) - 1) << mant;
    if mag > inf {
        return false; // NaN
    }
    if n.digits.is_empty() {
        return mag == 0;
    }
    // decimal position of the leading digit
    let top = n.digits.len() as i64 + n.exp;
    if top > 400 {
        return mag == inf;
    }
    if top < -1200 {
        return mag == 0;
    }
    // value of the IEEE magnitude m as (int, pow2)
    let bias = (1i64 << (ebits - 1)) - 1;
    let val = |m: u64| -> (u64, i64) {
        let e = (m >> mant) as i64;
        let f = m & ((1u64 << mant) - 1);
        if e == 0 {
            (f, 1 - bias - mant as i64)
        } else {
            (f | (1u64 << mant), e - bias - mant as i64)
        }
    };
    // midpoint between m and m+1 (m+1 may be "inf": treated as the next power)
    let mid = |m: u64| -> (u64, i64) {
        let (a, e) = val(m);
        (2 * a + 1, e - 1)
    };
    let cmp = |(a, e2): (u64, i64)| -> std::cmp::Ordering {
        let mut l = Big::from_dec(&n.digits);
        let mut r = Big::from_u128(a as u128);
        if n.exp >= 0 {
            l.mul_pow10(n.exp as usize)
        } else {
            r.mul_pow10((-n.exp) as usize)
        }
        if e2 >= 0 {
            r.shl(e2 as usize)
        } else {
            l.shl((-e2) as usize)
        }
        l.cmp(&r)
    };
    use std::cmp::Ordering::*;
    let even = mag & 1 == 0;
    // lower side: x >= mid(mag-1) (equality only if mag is even)
    if mag > 0 {
        match cmp(mid(mag - 1)) {
            Less => return false,
            Equal if !even => return false,
            _ => {}
        }
    }
    if mag < inf {
        match cmp(mid(mag)) {
            Greater => return false,
            Equal if !even => return false,
            _ => {}
        }
    }
    true
}
