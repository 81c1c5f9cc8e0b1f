//! C15 Bounded or failing document storage is reported, never exceeded.
use crate::common::*;
use crate::model::{self, Cfg, MNode, Outcome, K};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::{GenericDocument, HeaplessDocument, Node, NodeCollection};
use justjson::{Error, ErrorKind, Value};
use std::cell::{Cell, RefCell};

thread_local! {
    static FAIL_AT: Cell<usize> = const { Cell::new(usize::MAX) };
    static TRANSIENT: Cell<bool> = const { Cell::new(false) };
    static KIND: RefCell<ErrorKind> = const { RefCell::new(ErrorKind::PaylodTooLarge) };
    static PUSHES: Cell<usize> = const { Cell::new(0) };
    static LOG: RefCell<Vec<(u8, usize, usize)>> = const { RefCell::new(Vec::new()) };
}

/// Storage that logs every push and refuses at a chosen one.
#[derive(Default)]
struct Store<'a>(Vec<Node<'a>>);
impl<'a> AsRef<[Node<'a>]> for Store<'a> {
    fn as_ref(&self) -> &[Node<'a>] {
        &self.0
    }
}
impl<'a> AsMut<[Node<'a>]> for Store<'a> {
    fn as_mut(&mut self) -> &mut [Node<'a>] {
        &mut self.0
    }
}
impl<'a> IntoIterator for Store<'a> {
    type Item = Node<'a>;
    type IntoIter = std::vec::IntoIter<Node<'a>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
fn entry(n: &Node<'_>) -> (u8, usize, usize) {
    match n {
        Node::Null => (0, 0, 0),
        Node::Boolean(b) => (1, *b as usize, 0),
        Node::String(s) => match s.as_json_str() {
            Some(a) => (2, a.as_str().as_ptr() as usize, a.as_str().len()),
            None => (9, 0, 0),
        },
        Node::Number(x) => (3, x.source().as_ptr() as usize, x.source().len()),
        Node::Object { length } => (4, *length, 0),
        Node::Array { length } => (5, *length, 0),
    }
}
fn model_entry(m: &MNode, base: usize) -> (u8, usize, usize) {
    use model::NK::*;
    match m.k {
        Null => (0, 0, 0),
        Bool(b) => (1, b as usize, 0),
        Str => (2, base + m.start, m.end - m.start),
        Num => (3, base + m.start, m.end - m.start),
        Obj => (4, 0, 0),
        Arr => (5, 0, 0),
    }
}
impl<'a> NodeCollection<'a> for Store<'a> {
    fn push(&mut self, node: Node<'a>) -> Result<(), ErrorKind> {
        let i = PUSHES.with(|p| p.replace(p.get() + 1));
        LOG.with(|l| l.borrow_mut().push(entry(&node)));
        let f = FAIL_AT.with(|f| f.get());
        if i == f || (i > f && !TRANSIENT.with(|t| t.get())) {
            return Err(KIND.with(|k| k.borrow().clone()));
        }
        self.0.push(node);
        Ok(())
    }
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::PaylodTooLarge,
    ErrorKind::Utf8,
    ErrorKind::UnexpectedEof,
    ErrorKind::ExpectedObjectKey,
    ErrorKind::ExpectedColon,
    ErrorKind::ExpectedValue,
    ErrorKind::ExpectedCommaOrEndOfObject,
    ErrorKind::ExpectedCommaOrEndOfArray,
    ErrorKind::IllegalTrailingComma,
    ErrorKind::Unexpected(0),
    ErrorKind::Unexpected(b']'),
    ErrorKind::Unexpected(b'}'),
    ErrorKind::Unexpected(b','),
    ErrorKind::Unexpected(255),
    ErrorKind::TrailingNonWhitespace,
    ErrorKind::ObjectKeysMustBeStrings,
    ErrorKind::ExpectedExponent,
    ErrorKind::ExpectedDecimalDigit,
    ErrorKind::ExpectedDigit,
    ErrorKind::InvalidHexadecimal,
    ErrorKind::InvalidEscape,
    ErrorKind::UnclosedObject,
    ErrorKind::UnclosedArray,
    ErrorKind::UnclosedString,
    ErrorKind::ExpectedString,
    ErrorKind::ExpectedNumber,
    ErrorKind::RecursionLimitReached,
    ErrorKind::PayloadsShouldBeObjectOrArray,
];

type Doc<'a> = GenericDocument<'a, Store<'a>>;
fn parse<'a>(s: &'a [u8], c: Cfg, route: usize) -> Option<Result<Doc<'a>, Error>> {
    Some(match route {
        0 => Doc::from_json_bytes_with_config(s, pcfg(c)),
        1 => Doc::from_json_with_config(as_str(s)?, pcfg(c)),
        2 if c == Cfg::DEFAULT => Doc::from_json_bytes(s),
        3 if c == Cfg::DEFAULT => Doc::from_json(as_str(s)?),
        _ => return None,
    })
}
const ROUTES: [&str; 4] = ["from_json_bytes_with_config", "from_json_with_config", "from_json_bytes", "from_json"];

fn set(fail_at: usize, transient: bool, kind: &ErrorKind) {
    FAIL_AT.with(|f| f.set(fail_at));
    TRANSIENT.with(|f| f.set(transient));
    KIND.with(|k| *k.borrow_mut() = kind.clone());
    PUSHES.with(|p| p.set(0));
    LOG.with(|l| l.borrow_mut().clear());
}

/// The pushes so far are the payload's nodes in order.
fn log_is(s: &[u8], o: &Outcome, n: usize) -> R {
    let base = s.as_ptr() as usize;
    LOG.with(|l| {
        let l = l.borrow();
        ensure!(l.len() == n, "{} pushes instead of {n}", l.len());
        for (i, (g, m)) in l.iter().zip(&o.nodes).enumerate() {
            ensure!(*g == model_entry(m, base), "push {i} is {g:?} instead of {:?} (kind, address or value, length; source at {base:#x})", model_entry(m, base));
        }
        Ok(())
    })
}

fn failing(cx: &mut Ctx, s: &[u8], c: Cfg, o: &Outcome, at: usize) -> R {
    let mut r = cx.rng.clone();
    for transient in [false, true] {
        for route in 0..4 {
            let kind = if r.chance(1, 3) { KINDS[0].clone() } else { r.pick(KINDS).clone() };
            set(at, transient, &kind);
            let Some(res) = parse(s, c, route) else { continue };
            cx.count("refused_pushes", 1);
            let w = |e: String| format!("storage refusing push {at} with {kind:?} ({}, {}): {e}: {}", ROUTES[route], if transient { "once" } else { "for ever" }, show(s));
            let n = PUSHES.with(|p| p.get());
            if n > at + 1 {
                return Err(w(format!("{} more pushes after the refusal", n - at - 1)));
            }
            match res {
                Ok(_) => return Err(w("parsing succeeds".into())),
                Err(e) => {
                    let root = o.root_type_err && e.kind() == &ErrorKind::PayloadsShouldBeObjectOrArray;
                    if !root && e.kind() != &kind {
                        return Err(w(format!("the error is {:?}", e.kind())));
                    }
                    if e.offset() > s.len() {
                        return Err(w(format!("the offset {} is outside the payload", e.offset())));
                    }
                    if !root {
                        log_is(s, o, at + 1).map_err(w)?;
                    }
                }
            }
        }
    }
    cx.rng = r;
    Ok(())
}

/// Storage with room for exactly N nodes.
fn fixed<const N: usize>(cx: &mut Ctx, s: &[u8], c: Cfg, o: &Outcome) -> R {
    let n = o.nodes.len();
    for bytes in [true, false] {
        let res = if bytes {
            HeaplessDocument::<N>::from_json_bytes_with_config(s, pcfg(c))
        } else {
            match as_str(s) {
                Some(t) => HeaplessDocument::<N>::from_json_with_config(t, pcfg(c)),
                None => continue,
            }
        };
        let w = |e: String| format!("capacity {N}: {e} (the payload has {n} nodes; {c:?}): {}", show(s));
        match res {
            Ok(d) => {
                ensure!(o.ok() && n <= N, "{}", w("accepted".into()));
                nodes_match(d.iter(), s, o).map_err(w)?;
                if n >= N.saturating_sub(1) {
                    mirrors(&Value::from(d), s, o).map_err(w)?;
                }
                cx.count("fitted", 1);
            }
            Err(e) => {
                let g = e2(&e);
                ensure!(g.1 <= s.len(), "{}", w(format!("the offset {} is outside the payload", g.1)));
                if n > N {
                    let root = o.root_type_err && g.0 == K::PayloadsShouldBeObjectOrArray;
                    ensure!(g.0 == K::PaylodTooLarge || root, "{}", w(format!("rejected with {:?} instead of PaylodTooLarge", g.0)));
                    cx.count("too_large", 1);
                } else {
                    match &o.err {
                        None => return Err(w(format!("rejected with {g:?}"))),
                        Some(m) => ensure!(m.kinds.contains(&g.0), "{}", w(format!("rejected with {g:?}, expected {:?}", m.kinds))),
                    }
                    cx.count("invalid", 1);
                }
            }
        }
    }
    Ok(())
}

macro_rules! capacities {
    ($cx:expr, $s:expr, $c:expr, $o:expr, $want:expr; $($n:literal)*) => {
        $( if $want($n) { fixed::<$n>($cx, $s, $c, $o)?; } )*
    };
}
fn all_capacities(cx: &mut Ctx, s: &[u8], c: Cfg, o: &Outcome) -> R {
    let n = o.nodes.len();
    let some = cx.rng.below(8);
    // near the node count, and a few elsewhere
    let want = |cap: usize| cap + 2 >= n && cap <= n + 2 || cap % 8 == some && cap < 40;
    capacities!(cx, s, c, o, want; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 47 48 49 63 64 65 100 127 128 129 255 256 257 300 511 512 513 1000 1023 1024 1025);
    Ok(())
}

const CFGS: [Cfg; 3] =
    [Cfg::DEFAULT, Cfg { trailing: true, limit: Some(3), any_root: false }, Cfg { trailing: true, limit: None, any_root: true }];

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let pick = cx.rng.below(3);
    for (i, c) in CFGS.into_iter().enumerate() {
        // the other configurations only now and then
        if i > 0 && i != pick {
            continue;
        }
        let o = model::parse(s, c);
        cx.case(mix(hash64(s) ^ i as u64), o.ok());
        all_capacities(cx, s, c, &o)?;
        let n = o.nodes.len();
        cx.max("most_nodes", n as u64);
        // every push, spread out when there are many
        let mut at = 0;
        while at < n {
            failing(cx, s, c, &o, at)?;
            at += if n <= 16 || at + 8 >= n { 1 } else { 1 + cx.rng.below(n / 8) };
        }
        // storage that never refuses
        set(usize::MAX, false, &KINDS[0]);
        match parse(s, c, 0) {
            Some(Ok(d)) => {
                ensure!(o.ok(), "custom storage: accepted though invalid ({:?}): {}", o.err, show(s));
                log_is(s, &o, n).map_err(|e| format!("custom storage: {e}: {}", show(s)))?;
                nodes_match(d.iter(), s, &o).map_err(|e| format!("custom storage: {e}: {}", show(s)))?;
                mirrors(&Value::from(d), s, &o).map_err(|e| format!("value from custom storage: {e}: {}", show(s)))?;
            }
            Some(Err(e)) => {
                let Some(m) = &o.err else { bail!("custom storage: rejected with {:?} though valid: {}", e2(&e), show(s)) };
                ensure!(m.kinds.contains(&e2(&e).0), "custom storage: rejected with {:?}, expected {:?}: {}", e2(&e), m.kinds, show(s));
                if !o.root_type_err {
                    log_is(s, &o, n).map_err(|e| format!("custom storage, invalid payload: {e}: {}", show(s)))?;
                }
            }
            None => {}
        }
    }
    Ok(())
}

fn valid(cx: &mut Ctx, _: u64) -> R {
    super::payloads::valid(cx, check)
}
/// Payloads with an exact number of nodes, in several shapes.
fn counted(cx: &mut Ctx, idx: u64) -> R {
    let n = 1 + idx as usize / 6;
    let s = match idx % 6 {
        0 => format!("[{}]", vec!["1"; n - 1].join(",")),
        1 => {
            let k = (n - 1) / 2;
            let e: Vec<String> = (0..k).map(|i| format!("\"{i}\":null")).collect();
            format!("{{{}}}", e.join(", "))
        }
        2 => format!("{}{}", "[".repeat(n.min(128)), "]".repeat(n.min(128))),
        3 => format!("[{}]", vec!["[]"; n - 1].join(" ,")),
        4 => {
            let k = (n - 1) / 2;
            format!("[{}]", vec!["{\"\":\"\"}"; k].join(","))
        }
        _ => {
            let d = (n / 2).min(128);
            format!("{}null{}", "{\"a\":".repeat(d), "}".repeat(d))
        }
    };
    check(cx, s.as_bytes())
}

pub const PROP: Prop = Prop {
    id: "C15",
    rule: "payloads (token sequences over 12 tokens up to a bound, single-byte edits, number strings, string bodies, escapes, size families, corpus, random documents, payloads with an exact node count in six shapes) under three configurations. A case is a payload and a configuration; non-trivial if valid. On each: fixed capacities around the node count; custom storage refusing each push (spread out on large payloads), once or for ever, with any error kind, through every entry point, with every push logged; custom storage that never refuses.",
    stack: 0,
    workloads: payload_workloads![check; tok 4, 5; num 3, 4; fam 1_200, 4_000; rnd 300, 20_000;
        Workload { name: "counted", total: |e| e.amt(300, 1030) * 6, run: counted },
        Workload { name: "valid", total: |e| e.amt(300, 20_000), run: valid },
    ],
};
