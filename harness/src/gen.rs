//! Workload generators.
use crate::rt::*;

/// Interesting sizes: around powers of two, small values, and every integer
/// literal of the crate's source.
pub fn sizes(env: &Env, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=40).collect();
    let mut p = 64;
    while p <= max {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend([99, 100, 101, 120, 199, 200, 201, 254, 300, 500, 999, 1000, 1001, 9_999, 10_000, 10_001]);
    for &d in &env.dict.ints {
        v.extend([d.saturating_sub(1), d, d + 1]);
    }
    v.retain(|x| *x <= max);
    v.sort_unstable();
    v.dedup();
    v
}

/// A random length, usually small, sometimes at a boundary.
pub fn len(rng: &mut Rng, env: &Env, max: usize) -> usize {
    let n = match rng.below(100) {
        0..=49 => rng.below(9),
        50..=79 => rng.below(40),
        80..=91 => {
            let p = 1usize << rng.range(3, 12);
            (p + rng.below(3)).saturating_sub(1)
        }
        92..=97 if !env.dict.ints.is_empty() => {
            (*rng.pick(&env.dict.ints) + rng.below(3)).saturating_sub(1)
        }
        _ => rng.below(600),
    };
    n.min(max)
}

pub const EDGE_CPS: &[u32] = &[
    0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 0x1b, 0x1e, 0x1f, 0x20, 0x21, 0x22, 0x23, 0x27, 0x2f, 0x30, 0x39, 0x3a, 0x41,
    0x5b, 0x5c, 0x5d, 0x61, 0x62, 0x6e, 0x74, 0x75, 0x7b, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0x85, 0x9f, 0xa0, 0xff, 0x100,
    0x17f, 0x3bb, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0x2028, 0x2029, 0x20ac, 0x25ef, 0xabcd, 0xd7fe, 0xd7ff,
    0xe000, 0xe001, 0xfdd0, 0xfefe, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1f600,
    0x1f639, 0x1ffff, 0x20000, 0x20001, 0x2ffff, 0x30000, 0x3ffff, 0x40000, 0x7ffff, 0x80000, 0xfffff, 0x100000,
    0x10fc00, 0x10fffe, 0x10ffff,
];

pub fn rand_char(rng: &mut Rng, env: &Env, style: usize) -> char {
    let c = match style {
        0 => rng.range(0x20, 0x7e) as u32,
        1 => *rng.pick(EDGE_CPS),
        2 => match rng.below(8) {
            0 => rng.below(0x20) as u32,
            1 => *rng.pick(&[0x22u32, 0x5c, 0x2f, 10, 13, 9, 12]),
            2 => rng.range(0x80, 0x7ff) as u32,
            3 => rng.range(0x800, 0xffff) as u32,
            4 => rng.range(0x10000, 0x10ffff) as u32,
            5 if !env.dict.ints.is_empty() => {
                (*rng.pick(&env.dict.ints) as u32).wrapping_add(rng.below(3) as u32).wrapping_sub(1)
            }
            _ => rng.range(0x20, 0x7e) as u32,
        },
        3 => rng.below(0x20) as u32,
        4 => *rng.pick(&[0x61u32, 0x62, 0x22, 0x5c, 0x2f, 0xe9, 0x20ac, 0x1f600, 10]),
        5 => rng.range(0x10000, 0x10ffff) as u32,
        6 => rng.range(0x80, 0xffff) as u32,
        _ => rng.below(0x110000) as u32,
    };
    char::from_u32(c).unwrap_or('\u{e000}')
}

/// Arbitrary text of `n` characters.
pub fn text(rng: &mut Rng, env: &Env, n: usize) -> String {
    let style = rng.below(9);
    let mut s = String::new();
    if !env.dict.guided.is_empty() && rng.chance(1, 60) {
        return String::from_utf8_lossy(rng.pick(&env.dict.guided)).chars().take(n.max(8)).collect();
    }
    if style == 8 {
        // one odd character in a long plain run
        let odd = rand_char(rng, env, 2);
        let at = match rng.below(3) {
            0 => 0,
            1 => n.saturating_sub(1),
            _ => rng.below(n.max(1)),
        };
        for i in 0..n {
            s.push(if i == at { odd } else { 'a' });
        }
        return s;
    }
    if rng.chance(1, 20) && !env.dict.strs.is_empty() {
        if let Ok(t) = std::str::from_utf8(rng.pick(&env.dict.strs)) {
            s.push_str(t);
        }
    }
    for _ in 0..n {
        s.push(rand_char(rng, env, style));
    }
    s
}

#[derive(Clone, Copy)]
pub struct EscStyle {
    /// chance in 16 that a character is written as an escape though it need not be
    pub extra: usize,
    /// allow the two-character escape `\b`
    pub allow_b: bool,
    /// 0 lower, 1 upper, 2 mixed hex digits
    pub hex: usize,
    /// prefer \u over short escapes (in 16)
    pub long: usize,
}
impl EscStyle {
    pub fn random(rng: &mut Rng) -> Self {
        EscStyle {
            extra: *rng.pick(&[0, 0, 1, 4, 8, 16]),
            allow_b: false,
            hex: rng.below(3),
            long: *rng.pick(&[0, 2, 8, 16]),
        }
    }
}

pub fn push_hex4(out: &mut Vec<u8>, v: u32, rng: &mut Rng, hex: usize) {
    for k in (0..4).rev() {
        let d = (v >> (4 * k)) & 15;
        let up = match hex {
            0 => false,
            1 => true,
            _ => rng.chance(1, 2),
        };
        out.push(if up { b"0123456789ABCDEF"[d as usize] } else { b"0123456789abcdef"[d as usize] });
    }
}
pub fn push_u(out: &mut Vec<u8>, c: char, rng: &mut Rng, hex: usize) {
    let c = c as u32;
    if c >= 0x10000 {
        let v = c - 0x10000;
        out.extend_from_slice(b"\\u");
        push_hex4(out, 0xD800 + (v >> 10), rng, hex);
        out.extend_from_slice(b"\\u");
        push_hex4(out, 0xDC00 + (v & 0x3ff), rng, hex);
    } else {
        out.extend_from_slice(b"\\u");
        push_hex4(out, c, rng, hex);
    }
}

/// Writes `t` as a JSON string body, choosing among all legal spellings.
pub fn encode(rng: &mut Rng, t: &str, st: EscStyle) -> Vec<u8> {
    let mut out = Vec::with_capacity(t.len() + 8);
    for c in t.chars() {
        let short = match c {
            '"' => Some(b'"'),
            '\\' => Some(b'\\'),
            '/' => Some(b'/'),
            '\n' => Some(b'n'),
            '\r' => Some(b'r'),
            '\t' => Some(b't'),
            '\u{c}' => Some(b'f'),
            '\u{8}' if st.allow_b => Some(b'b'),
            _ => None,
        };
        let must = (c as u32) < 0x20 || c == '"' || c == '\\';
        if !must && !(st.extra > 0 && rng.chance(st.extra, 16)) {
            let mut b = [0; 4];
            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            continue;
        }
        match short {
            Some(s) if !rng.chance(st.long, 16) => out.extend_from_slice(&[b'\\', s]),
            _ => push_u(&mut out, c, rng, st.hex),
        }
    }
    out
}

pub fn is_number(s: &[u8]) -> bool {
    let digits = |s: &[u8]| s.iter().take_while(|b| b.is_ascii_digit()).count();
    let mut s = s.strip_prefix(b"-").unwrap_or(s);
    let n = digits(s);
    if n == 0 || n > 1 && s[0] == b'0' {
        return false;
    }
    s = &s[n..];
    if let Some(t) = s.strip_prefix(b".") {
        let n = digits(t);
        if n == 0 {
            return false;
        }
        s = &t[n..];
    }
    if let Some(t) = s.strip_prefix(b"e").or(s.strip_prefix(b"E")) {
        let t = t.strip_prefix(b"+").or(t.strip_prefix(b"-")).unwrap_or(t);
        let n = digits(t);
        return n > 0 && n == t.len();
    }
    s.is_empty()
}
pub fn number(rng: &mut Rng, env: &Env) -> Vec<u8> {
    let mut s = Vec::new();
    if !env.dict.guided.is_empty() && rng.chance(1, 20) {
        // a number of a guided payload
        let d = rng.pick(&env.dict.guided);
        let at = rng.below(d.len().max(1));
        let rest = d.get(at..).unwrap_or_default();
        let from = rest.iter().position(|b| b.is_ascii_digit() || *b == b'-').unwrap_or(rest.len());
        let body: Vec<u8> = rest[from..].iter().copied().take_while(|b| b"+-.eE0123456789".contains(b)).collect();
        if is_number(&body) {
            return body;
        }
    }
    match rng.below(12) {
        0 => s.extend_from_slice(*rng.pick(&[
            &b"0"[..], b"-0", b"1", b"-1", b"0.0", b"-0.0", b"0e0", b"-0e-0", b"1e1", b"1E+1", b"1e-1", b"10", b"0.1",
        ])),
        1 => {
            // integer type boundaries
            let bits = *rng.pick(&[7usize, 8, 15, 16, 24, 31, 32, 53, 63, 64, 127, 128]);
            let base: u128 = if bits == 128 { u128::MAX } else { 1u128 << bits };
            let d = rng.below(5) as u128;
            if rng.chance(1, 2) {
                s.push(b'-');
            }
            let v = match rng.below(3) {
                0 => base.saturating_sub(d),
                1 => base.saturating_add(d),
                _ => base / 10 * 10,
            };
            s.extend_from_slice(v.to_string().as_bytes());
            if bits == 128 && rng.chance(1, 2) {
                s.truncate(1);
                s.clear();
                s.extend_from_slice(b"34028236692093846346337460743176821145");
                s.push(b'0' + rng.below(10) as u8);
            }
        }
        2..=5 => {
            if rng.chance(1, 3) {
                s.push(b'-');
            }
            let n = rng.range(1, 20);
            push_int(rng, &mut s, n);
        }
        6 => {
            let n = len(rng, env, 5000).max(1);
            push_int(rng, &mut s, n);
        }
        _ => {
            if rng.chance(1, 3) {
                s.push(b'-');
            }
            let n = rng.range(1, 18);
            push_int(rng, &mut s, n);
            if rng.chance(2, 3) {
                s.push(b'.');
                let n = if rng.chance(1, 20) { len(rng, env, 3000).max(1) } else { rng.range(1, 18) };
                for _ in 0..n {
                    s.push(b'0' + rng.below(10) as u8);
                }
            }
            if rng.chance(1, 2) {
                s.push(*rng.pick(&[b'e', b'E']));
                match rng.below(3) {
                    0 => s.push(b'+'),
                    1 => s.push(b'-'),
                    _ => {}
                }
                if rng.chance(1, 6) {
                    s.push(b'0');
                }
                let e = match rng.below(10) {
                    0 => rng.below(1_000_000) as u64,
                    1 => rng.next() >> 10,
                    2..=4 => rng.below(400) as u64,
                    _ => rng.below(30) as u64,
                };
                s.extend_from_slice(e.to_string().as_bytes());
            }
        }
    }
    s
}
fn push_int(rng: &mut Rng, s: &mut Vec<u8>, n: usize) {
    if n == 1 {
        s.push(b'0' + rng.below(10) as u8);
        return;
    }
    s.push(b'1' + rng.below(9) as u8);
    for _ in 1..n {
        s.push(b'0' + rng.below(10) as u8);
    }
}

/// A swarm configuration for documents.
#[derive(Clone)]
pub struct DocGen {
    ws: usize,
    max_depth: usize,
    max_breadth: usize,
    budget: usize,
    strmax: usize,
    esc: EscStyle,
    dup: bool,
    keys: Vec<String>,
    scalars: usize,
    pub trailing: bool,
}
impl DocGen {
    pub fn random(rng: &mut Rng, env: &Env) -> DocGen {
        let mut keys = vec![];
        for _ in 0..rng.range(1, 6) {
            let n = len(rng, env, 40);
            keys.push(text(rng, env, n));
        }
        for k in ["a", "b", "key", "id", ""] {
            keys.push(k.into());
        }
        DocGen {
            ws: *rng.pick(&[0, 0, 1, 2, 3]),
            max_depth: *rng.pick(&[1, 2, 3, 4, 6, 12, 40, 130]),
            max_breadth: *rng.pick(&[1, 2, 3, 5, 9, 40]),
            budget: *rng.pick(&[3, 10, 30, 100, 300]),
            strmax: *rng.pick(&[0, 3, 10, 40, 5000]),
            esc: EscStyle::random(rng),
            dup: rng.chance(1, 2),
            keys,
            scalars: rng.below(4),
            trailing: false,
        }
    }
    pub fn allow_b(mut self, y: bool) -> Self {
        self.esc.allow_b = y;
        self
    }
    pub fn doc(&mut self, rng: &mut Rng, env: &Env) -> Vec<u8> {
        let mut o = Vec::new();
        self.wsp(rng, &mut o);
        let mut budget = self.budget;
        if rng.chance(1, 40) {
            // chain of exactly d levels around the depth boundary
            let mut d = *rng.pick(&[64usize, 127, 128, 129, 130]);
            if !env.dict.ints.is_empty() && rng.chance(1, 4) {
                d = (*rng.pick(&env.dict.ints)).min(300);
            }
            let mut close = Vec::new();
            for _ in 0..d {
                if rng.chance(1, 2) {
                    o.push(b'[');
                    if rng.chance(1, 6) {
                        o.extend_from_slice(b"[],");
                    }
                    close.push(b']');
                } else {
                    o.extend_from_slice(b"{\"k\":");
                    close.push(b'}');
                }
            }
            if o.last() != Some(&b'[') {
                self.scalar(rng, env, &mut o);
            }
            close.reverse();
            o.extend_from_slice(&close);
        } else {
            self.value(rng, env, &mut o, 0, &mut budget);
        }
        self.wsp(rng, &mut o);
        o
    }
    fn wsp(&self, rng: &mut Rng, o: &mut Vec<u8>) {
        match self.ws {
            0 => {}
            1 => {
                if rng.chance(1, 3) {
                    o.push(*rng.pick(b" \n\r\t"));
                }
            }
            2 => {
                for _ in 0..rng.below(4) {
                    o.push(*rng.pick(b" \n\r\t"));
                }
            }
            _ => {
                if rng.chance(1, 30) {
                    let n = rng.below(300);
                    let c = *rng.pick(b" \n\r\t");
                    o.extend(std::iter::repeat(c).take(n));
                } else {
                    o.push(b' ');
                }
            }
        }
    }
    fn string(&self, rng: &mut Rng, env: &Env, o: &mut Vec<u8>) {
        let n = len(rng, env, self.strmax);
        let t = text(rng, env, n);
        o.push(b'"');
        o.extend(encode(rng, &t, self.esc));
        o.push(b'"');
    }
    fn scalar(&self, rng: &mut Rng, env: &Env, o: &mut Vec<u8>) {
        match rng.below(8) + self.scalars {
            0 => o.extend_from_slice(b"null"),
            1 => o.extend_from_slice(b"true"),
            2 => o.extend_from_slice(b"false"),
            3..=5 => o.extend(number(rng, env)),
            _ => self.string(rng, env, o),
        }
    }
    fn value(&mut self, rng: &mut Rng, env: &Env, o: &mut Vec<u8>, depth: usize, budget: &mut usize) {
        if *budget == 0 || depth >= self.max_depth || (depth > 0 && rng.chance(2, 5)) {
            return self.scalar(rng, env, o);
        }
        let n = match rng.below(6) {
            0 => 0,
            1 => 1,
            _ => rng.below(self.max_breadth + 1),
        };
        let obj = rng.chance(1, 2);
        o.push(if obj { b'{' } else { b'[' });
        self.wsp(rng, o);
        for i in 0..n {
            if i > 0 {
                o.push(b',');
                self.wsp(rng, o);
            }
            *budget = budget.saturating_sub(1);
            if obj {
                if self.dup || rng.chance(1, 2) {
                    let k = rng.pick(&self.keys).clone();
                    o.push(b'"');
                    o.extend(encode(rng, &k, self.esc));
                    o.push(b'"');
                } else {
                    self.string(rng, env, o);
                }
                self.wsp(rng, o);
                o.push(b':');
                self.wsp(rng, o);
            }
            self.value(rng, env, o, depth + 1, budget);
            self.wsp(rng, o);
        }
        if n > 0 && self.trailing && rng.chance(1, 2) {
            o.push(b',');
            self.wsp(rng, o);
        }
        o.push(if obj { b'}' } else { b']' });
    }
}

pub const FRAGS: &[&[u8]] = &[
    b"{", b"}", b"[", b"]", b",", b":", b"\"", b"\\", b"\\u", b"\\ud800", b"\\udc00", b"\\ud83d\\ude00", b"\\uDBFF\\uDFFF",
    b"\\u0000", b"\\x", b"\\b", b"\\n", b"null", b"true", b"false", b"nul", b"tru", b"-", b"0", b"1", b"-0", b"01", b"1.",
    b".5", b"1e", b"1e+", b"1E5", b"1.5e-3", b" ", b"\n", b"\t", b"\r", b"\x0b", b"\x0c", b"\xc2\xa0", b"\xef\xbb\xbf",
    b"\x00", b"\x1f", b"\x7f", b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3\xa9", b"\xc3", b"\xe2\x82", b"\xe2\x82\xac",
    b"\xe0\x80\x80", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xee\x80\x80", b"\xf0\x9f\x98\x80", b"\xf0\x80\x80\x80",
    b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf8", b"\xfe", b"\xff", b"/", b"//", b"/*", b"'", b"NaN", b"Infinity",
    b"\"\"", b"\"a\"", b"[]", b"{}", b"{\"a\":1}", b"[1,2]", b",]", b",}", b"\"a\":", b"+1", b"0x1",
];

pub fn mutate(rng: &mut Rng, env: &Env, d: &mut Vec<u8>) {
    let times = *rng.pick(&[1, 1, 1, 2, 3, 6]);
    for _ in 0..times {
        let n = d.len();
        match rng.below(12) {
            0 if n > 0 => {
                let i = rng.below(n);
                d[i] ^= 1 << rng.below(8);
            }
            1 if n > 0 => {
                let i = rng.below(n);
                d[i] = rng.below(256) as u8;
            }
            2 if n > 0 => {
                let i = rng.below(n);
                d.remove(i);
            }
            3 => {
                let i = rng.below(n + 1);
                d.insert(i, rng.below(256) as u8);
            }
            4 if n > 0 => {
                let i = rng.below(n + 1);
                d.truncate(i);
            }
            5 | 6 => {
                let i = rng.below(n + 1);
                let f: Vec<u8> = if rng.chance(1, 8) && !env.dict.strs.is_empty() {
                    rng.pick(&env.dict.strs).clone()
                } else {
                    rng.pick(FRAGS).to_vec()
                };
                d.splice(i..i, f);
            }
            7 if n > 1 => {
                let a = rng.below(n);
                let b = (a + rng.range(1, 8)).min(n);
                let seg = d[a..b].to_vec();
                let i = rng.below(n);
                d.splice(i..i, seg);
            }
            8 if n > 1 => {
                let a = rng.below(n);
                let b = (a + rng.range(1, 8)).min(n);
                d.drain(a..b);
            }
            9 if n > 1 => {
                let a = rng.below(n);
                let b = rng.below(n);
                d.swap(a, b);
            }
            10 if n > 0 => {
                // replace a structural byte by another
                let idx: Vec<usize> = (0..n).filter(|i| b"{}[],:\"".contains(&d[*i])).take(4000).collect();
                if !idx.is_empty() {
                    let i = *rng.pick(&idx);
                    d[i] = *rng.pick(b"{}[],:\" ");
                }
            }
            _ => {
                let f = *rng.pick(FRAGS);
                d.extend_from_slice(f);
            }
        }
    }
}

pub fn soup(rng: &mut Rng, env: &Env) -> Vec<u8> {
    let mut o = Vec::new();
    for _ in 0..rng.range(1, 14) {
        if rng.chance(1, 20) && !env.dict.strs.is_empty() {
            o.extend_from_slice(rng.pick(&env.dict.strs));
        } else {
            o.extend_from_slice(rng.pick(FRAGS));
        }
    }
    o
}

pub fn valid_doc(rng: &mut Rng, env: &Env) -> Vec<u8> {
    DocGen::random(rng, env).doc(rng, env)
}

/// A payload of any class: valid, nearly valid, hostile.
pub fn payload(rng: &mut Rng, env: &Env) -> Vec<u8> {
    match rng.below(20) {
        0..=7 => DocGen::random(rng, env).allow_b(true).doc(rng, env),
        8 | 9 => {
            let mut g = DocGen::random(rng, env);
            g.trailing = true;
            g.doc(rng, env)
        }
        10..=15 => {
            let mut g = DocGen::random(rng, env).allow_b(true);
            g.trailing = rng.chance(1, 4);
            let mut d = g.doc(rng, env);
            mutate(rng, env, &mut d);
            d
        }
        16 | 17 => soup(rng, env),
        18 if !env.dict.corpus.is_empty() => {
            let from = if !env.dict.guided.is_empty() && rng.chance(2, 3) { &env.dict.guided } else { &env.dict.corpus };
            let mut d = rng.pick(from).clone();
            if rng.chance(3, 4) {
                mutate(rng, env, &mut d);
            }
            d
        }
        _ => {
            let n = rng.below(12);
            (0..n).map(|_| if rng.chance(1, 2) { *rng.pick(b"{}[],:\"\\u0123tfn-.eE ") } else { rng.below(256) as u8 }).collect()
        }
    }
}

/// Deterministic payloads parameterised by a size.
pub const FAMILIES: usize = 40;
pub fn family(f: usize, n: usize) -> Vec<u8> {
    let rep = |s: &[u8], n: usize| s.repeat(n);
    let quote = |b: Vec<u8>| {
        let mut o = Vec::with_capacity(b.len() + 2);
        o.push(b'"');
        o.extend(b);
        o.push(b'"');
        o
    };
    let cat = |p: &[&[u8]]| p.concat();
    let list = |item: &[u8], n: usize| {
        let mut o = Vec::new();
        for i in 0..n {
            if i > 0 {
                o.push(b',');
            }
            o.extend_from_slice(item);
        }
        o
    };
    let half = n / 2;
    match f {
        0 => quote(rep(b"a", n)),
        1 => quote(cat(&[b"\\n", &rep(b"a", n)])),
        2 => quote(cat(&[&rep(b"a", n), b"\\n"])),
        3 => quote(cat(&[&rep(b"a", half), b"\\u00e9", &rep(b"b", n - half)])),
        4 => quote(rep("é".as_bytes(), n)),
        5 => quote(cat(&[&rep(b"a", n), "€".as_bytes()])),
        6 => quote(rep("😀".as_bytes(), n)),
        7 => quote(rep(b"\\u0041", n)),
        8 => quote(rep(b"\\ud83d\\ude00", n)),
        9 => quote(rep(b"\\\\", n)),
        10 => quote(rep(b"\\\"", n)),
        11 => cat(&[b"[", &list(b"1", n), b"]"]),
        12 => cat(&[b"[", &list(b"\"a\"", n), b"]"]),
        13 => cat(&[b"{", &list(b"\"a\":1", n), b"}"]),
        14 => {
            let mut o = b"{".to_vec();
            for i in 0..n {
                if i > 0 {
                    o.push(b',');
                }
                o.extend(format!("\"k{i}\":{i}").into_bytes());
            }
            o.push(b'}');
            o
        }
        15 => cat(&[b"[", &list(b"[]", n), b"]"]),
        16 => cat(&[b"[", &list(b"{}", n), b"]"]),
        17 => cat(&[&rep(b" ", n), b"1"]),
        18 => cat(&[b"1", &rep(b"\n", n)]),
        19 => cat(&[b"[", &rep(b"\t", n), b"1", &rep(b"\r", n), b",", &rep(b" ", n), b"2", &rep(b" ", n), b"]"]),
        20 => cat(&[b"{", &rep(b" ", n), b"\"a\"", &rep(b" ", n), b":", &rep(b"\n", n), b"1", &rep(b" ", n), b"}"]),
        21 => cat(&[b"1", &rep(b"0", n)]),
        22 => cat(&[b"-9", &rep(b"9", n)]),
        23 => cat(&[b"0.", &rep(b"0", n), b"1"]),
        24 => cat(&[b"1.5e", &rep(b"0", n), b"1"]),
        25 => cat(&[b"1.", &rep(b"3", n), b"e-5"]),
        26 => cat(&[&rep(b"[", n), &rep(b"]", n)]),
        27 => cat(&[&rep(b"{\"a\":", n), b"1", &rep(b"}", n)]),
        28 => cat(&[&rep(b"[{\"a\":", half), b"[]", &rep(b"}]", half)]),
        29 => cat(&[b"[", &list(b"{\"a\":[1,{\"b\":null}]}", n), b"]"]),
        30 => cat(&[b"{\"", &rep(b"k", n), b"\":1}"]),
        31 => cat(&[b"{\"", &rep(b"k", n), b"\\u0041\":1}"]),
        32 => cat(&[b"[", &list(b"null", n), b"]"]),
        33 => cat(&[b"[", &list(b"true , false", n), b"]"]),
        34 => quote(cat(&["é".as_bytes(), &rep(b"a", n)])),
        35 => quote(cat(&[&rep(b"\\/", half), "ä".as_bytes(), &rep(b"\\t", n - half)])),
        36 => cat(&[b"[", &list(b"1.5e3", n), b",[", &list(b"\"\\n\"", n), b"]]"]).into_iter().collect::<Vec<u8>>(),
        37 => quote(rep(b"\\b", n)),
        // siblings that open and close
        38 => cat(&[b"[", &list(b"[[[1]]]", n), b"]"]),
        _ => quote(rep("aé\\n😀\\u20ac".as_bytes(), n)),
    }
}
/// Small variations that make a family payload invalid (or not) near its ends.
pub fn family_variant(v: usize, mut d: Vec<u8>) -> Vec<u8> {
    let n = d.len();
    match v {
        0 => {}
        1 => {
            d.pop();
        }
        2 => d.extend_from_slice(b","),
        3 if n > 1 => {
            let c = d[n - 1];
            d[n - 1] = b',';
            d.push(c);
        }
        4 if n > 1 => {
            d[n - 2] = 0x01;
        }
        5 if n > 1 => {
            d[n - 2] = 0xff;
        }
        6 if n > 1 => {
            d[n - 2] = b'\\';
        }
        7 if n > 2 => {
            d[n / 2] = 0x80;
        }
        8 => d.extend_from_slice(b" x"),
        9 if n > 1 => {
            d[n / 2] = b'"';
        }
        _ => {}
    }
    d
}
