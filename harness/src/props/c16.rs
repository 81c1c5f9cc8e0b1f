//! C16 Delegates see the exact event sequence and stop on their first error.
use crate::common::*;
use crate::model::{self, Cfg, Ev, Outcome, NK};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::parser::{JsonKind, ParseDelegate, Parser};
use justjson::{Error, ErrorKind, JsonNumber, JsonString};
use std::cell::{Cell, RefCell};
use std::convert::Infallible;

/// A custom delegate that only reports the root kind.
#[derive(Clone, Copy)]
pub struct Quiet;
impl<'a> ParseDelegate<'a> for Quiet {
    type Value = JsonKind;
    type Object = u64;
    type Array = u64;
    type Key = char;
    type Error = Infallible;
    fn null(&mut self) -> Result<JsonKind, Infallible> {
        Ok(JsonKind::Null)
    }
    fn boolean(&mut self, _: bool) -> Result<JsonKind, Infallible> {
        Ok(JsonKind::Boolean)
    }
    fn number(&mut self, _: JsonNumber<'a>) -> Result<JsonKind, Infallible> {
        Ok(JsonKind::Number)
    }
    fn string(&mut self, _: JsonString<'a>) -> Result<JsonKind, Infallible> {
        Ok(JsonKind::String)
    }
    fn begin_object(&mut self) -> Result<u64, Infallible> {
        Ok(0)
    }
    fn object_key(&mut self, _: &mut u64, _: JsonString<'a>) -> Result<char, Infallible> {
        Ok('k')
    }
    fn object_value(&mut self, o: &mut u64, _: char, _: JsonKind) -> Result<(), Infallible> {
        *o += 1;
        Ok(())
    }
    fn object_is_empty(&self, o: &u64) -> bool {
        *o == 0
    }
    fn end_object(&mut self, _: u64) -> Result<JsonKind, Infallible> {
        Ok(JsonKind::Object)
    }
    fn begin_array(&mut self) -> Result<u64, Infallible> {
        Ok(0)
    }
    fn array_value(&mut self, o: &mut u64, _: JsonKind) -> Result<(), Infallible> {
        *o += 1;
        Ok(())
    }
    fn array_is_empty(&self, o: &u64) -> bool {
        *o == 0
    }
    fn end_array(&mut self, _: u64) -> Result<JsonKind, Infallible> {
        Ok(JsonKind::Array)
    }
    fn kind_of(&self, v: &JsonKind) -> JsonKind {
        *v
    }
}

/// What one delegate call was.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    Null,
    Bool(bool),
    /// offset of the text in the source and its length
    Num(usize, usize),
    Str(usize, usize),
    BeginObj,
    /// object id, text
    Key(usize, usize, usize),
    /// object id, key id, value id
    ObjVal(usize, usize, usize),
    EndObj(usize),
    BeginArr,
    ArrVal(usize, usize),
    EndArr(usize),
}

#[derive(Default)]
pub struct Log {
    calls: RefCell<Vec<Call>>,
    failed: Cell<bool>,
    after: Cell<usize>,
    odd: RefCell<Option<String>>,
    queries: Cell<u64>,
    /// an answer to every question whether a container is empty
    constant: Cell<Option<bool>>,
}
#[derive(PartialEq, Eq, Debug)]
pub struct Fault(pub u64);

/// Identities are the index of the call that produced them. Not Copy or Clone:
/// the parser can only hand each of them over once.
#[derive(Debug)]
pub struct V(usize, JsonKind);
#[derive(Debug)]
pub struct Kid(usize);
#[derive(Debug)]
pub struct C(usize, usize);

struct Rec<'l> {
    log: &'l Log,
    fail_at: usize,
    token: u64,
    base: usize,
}
impl<'l> Rec<'l> {
    fn ev(&mut self, c: Call) -> Result<usize, Fault> {
        let mut l = self.log.calls.borrow_mut();
        if self.log.failed.get() {
            self.log.after.set(self.log.after.get() + 1);
        }
        let id = l.len();
        l.push(c);
        if id == self.fail_at {
            self.log.failed.set(true);
            return Err(Fault(self.token));
        }
        Ok(id)
    }
    fn text(&self, s: &str) -> (usize, usize) {
        ((s.as_ptr() as usize).wrapping_sub(self.base), s.len())
    }
    fn jstr(&self, s: &JsonString<'_>) -> (usize, usize) {
        match s.as_json_str() {
            Some(a) => self.text(a.as_str()),
            None => {
                *self.log.odd.borrow_mut() = Some(format!("string handed over without its JSON source: {s:?}"));
                (0, 0)
            }
        }
    }
}
impl<'a, 'l> ParseDelegate<'a> for Rec<'l> {
    type Value = V;
    type Object = C;
    type Array = C;
    type Key = Kid;
    type Error = Fault;
    fn null(&mut self) -> Result<V, Fault> {
        Ok(V(self.ev(Call::Null)?, JsonKind::Null))
    }
    fn boolean(&mut self, b: bool) -> Result<V, Fault> {
        Ok(V(self.ev(Call::Bool(b))?, JsonKind::Boolean))
    }
    fn number(&mut self, n: JsonNumber<'a>) -> Result<V, Fault> {
        let (a, b) = self.text(n.source());
        Ok(V(self.ev(Call::Num(a, b))?, JsonKind::Number))
    }
    fn string(&mut self, s: JsonString<'a>) -> Result<V, Fault> {
        let (a, b) = self.jstr(&s);
        Ok(V(self.ev(Call::Str(a, b))?, JsonKind::String))
    }
    fn begin_object(&mut self) -> Result<C, Fault> {
        Ok(C(self.ev(Call::BeginObj)?, 0))
    }
    fn object_key(&mut self, o: &mut C, s: JsonString<'a>) -> Result<Kid, Fault> {
        let (a, b) = self.jstr(&s);
        Ok(Kid(self.ev(Call::Key(o.0, a, b))?))
    }
    fn object_value(&mut self, o: &mut C, k: Kid, v: V) -> Result<(), Fault> {
        self.ev(Call::ObjVal(o.0, k.0, v.0))?;
        o.1 += 1;
        Ok(())
    }
    fn object_is_empty(&self, o: &C) -> bool {
        self.log.queries.set(self.log.queries.get() + 1);
        self.log.constant.get().unwrap_or(o.1 == 0)
    }
    fn end_object(&mut self, o: C) -> Result<V, Fault> {
        Ok(V(self.ev(Call::EndObj(o.0))?, JsonKind::Object))
    }
    fn begin_array(&mut self) -> Result<C, Fault> {
        Ok(C(self.ev(Call::BeginArr)?, 0))
    }
    fn array_value(&mut self, o: &mut C, v: V) -> Result<(), Fault> {
        self.ev(Call::ArrVal(o.0, v.0))?;
        o.1 += 1;
        Ok(())
    }
    fn array_is_empty(&self, o: &C) -> bool {
        self.log.queries.set(self.log.queries.get() + 1);
        self.log.constant.get().unwrap_or(o.1 == 0)
    }
    fn end_array(&mut self, o: C) -> Result<V, Fault> {
        Ok(V(self.ev(Call::EndArr(o.0))?, JsonKind::Array))
    }
    fn kind_of(&self, v: &V) -> JsonKind {
        v.1
    }
}

/// The calls the payload's events imply, with the identities the recording
/// delegate assigns.
pub fn expected(o: &Outcome) -> Vec<Call> {
    let mut out = Vec::with_capacity(o.events.len());
    // open containers with the pending key
    let mut st: Vec<(usize, usize)> = vec![];
    let mut last = 0;
    for e in &o.events {
        let id = out.len();
        let c = match *e {
            Ev::Scalar(n) => {
                let m = o.nodes[n];
                last = id;
                match m.k {
                    NK::Null => Call::Null,
                    NK::Bool(b) => Call::Bool(b),
                    NK::Num => Call::Num(m.start, m.end - m.start),
                    _ => Call::Str(m.start, m.end - m.start),
                }
            }
            Ev::BeginObj => {
                st.push((id, 0));
                Call::BeginObj
            }
            Ev::BeginArr => {
                st.push((id, 0));
                Call::BeginArr
            }
            Ev::Key(n) => {
                let m = o.nodes[n];
                let t = st.last_mut().expect("model: key outside an object");
                t.1 = id;
                Call::Key(t.0, m.start, m.end - m.start)
            }
            Ev::ObjVal => {
                let t = st.last().expect("model: value outside an object");
                Call::ObjVal(t.0, t.1, last)
            }
            Ev::ArrVal => Call::ArrVal(st.last().expect("model: value outside an array").0, last),
            Ev::EndObj => {
                last = id;
                Call::EndObj(st.pop().expect("model: end").0)
            }
            Ev::EndArr => {
                last = id;
                Call::EndArr(st.pop().expect("model: end").0)
            }
        };
        out.push(c);
    }
    out
}

/// How much of the payload may have been read when event k is delivered: up to
/// its own end or else to the next text that an event shows.
fn read_by(want: &[Call], k: usize) -> Option<usize> {
    match want[k] {
        Call::Num(a, n) => return Some(a + n),
        Call::Str(a, n) | Call::Key(_, a, n) => return Some(a + n + 1),
        _ => {}
    }
    want[k + 1..].iter().find_map(|c| match *c {
        Call::Num(a, _) | Call::Str(a, _) | Call::Key(_, a, _) => Some(a),
        _ => None,
    })
}

fn run(s: &[u8], c: Cfg, fail_at: usize, token: u64, as_text: bool, log: &Log) -> Result<V, Error<Fault>> {
    let d = Rec { log, fail_at, token, base: s.as_ptr() as usize };
    if as_text {
        let t = std::str::from_utf8(s).unwrap_or("");
        if c == Cfg::DEFAULT {
            Parser::parse_json(t, d)
        } else {
            Parser::parse_json_with_config(t, pcfg(c), d)
        }
    } else if c == Cfg::DEFAULT {
        Parser::parse_json_bytes(s, d)
    } else {
        Parser::parse_json_bytes_with_config(s, pcfg(c), d)
    }
}

fn one(cx: &mut Ctx, s: &[u8], c: Cfg) -> R {
    let o = model::parse(s, c);
    let want = expected(&o);
    let text = as_str(s).is_some();
    for as_text in [false, true] {
        if as_text && !text {
            continue;
        }
        let log = Log::default();
        let r = run(s, c, usize::MAX, 0, as_text, &log);
        let got = log.calls.take();
        if let Some(m) = log.odd.take() {
            bail!("{m}: {}", show(s));
        }
        cx.count("emptiness_queries", log.queries.get());
        // A disallowed scalar root may be found out before or after its event.
        let same = got == want || (o.root_type_err && got.is_empty());
        if !same {
            let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            bail!(
                "event {at} is {:?}, expected {:?} ({} events, expected {}) under {c:?} (str {as_text}): {}",
                got.get(at),
                want.get(at),
                got.len(),
                want.len(),
                show(s)
            );
        }
        match r {
            Ok(v) => {
                ensure!(o.ok(), "accepted though invalid: {}", show(s));
                ensure!(v.0 + 1 == want.len(), "the returned value is the result of event {} instead of the last ({}): {}", v.0, want.len() - 1, show(s));
            }
            Err(e) => {
                ensure!(!o.ok(), "rejected ({:?} at {}) though valid: {}", kind(e.kind()), e.offset(), show(s));
                ensure!(!matches!(e.kind(), ErrorKind::ErrorFromDelegate(_)), "delegate error without a delegate failure");
            }
        }
        cx.count("events_compared", want.len() as u64);
    }
    if o.root_type_err {
        return Ok(());
    }
    // A delegate that keeps no count. Its answers can matter only to the
    // legality of a trailing comma.
    let told: &[bool] = if c.trailing {
        &[false, true]
    } else if model::parse(s, Cfg { trailing: true, ..c }).events == o.events {
        &[true]
    } else {
        &[]
    };
    for &t in told {
        let log = Log::default();
        log.constant.set(Some(t));
        let _ = run(s, c, usize::MAX, 0, false, &log);
        let got = log.calls.take();
        ensure!(got == want, "a delegate that says {t} whenever asked for emptiness gets {} events instead of {} under {c:?}: {}", got.len(), want.len(), show(s));
        cx.count("countless_delegates", 1);
    }
    // faults
    let n = want.len();
    let mut at: Vec<usize> = if n <= 120 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..12).chain(n - 12..n).collect();
        for _ in 0..16 {
            v.push(cx.rng.below(n));
        }
        v
    };
    at.dedup();
    for k in at {
        for as_text in [false, true] {
            if as_text && !text {
                continue;
            }
            let token = cx.rng.next();
            let log = Log::default();
            let r = run(s, c, k, token, as_text, &log);
            let got = log.calls.take();
            ensure!(
                log.after.get() == 0 && got.len() <= k + 1,
                "{} events after the delegate failed at event {k} ({:?}): next {:?}: {}",
                log.after.get(),
                want[k],
                got.get(k + 1),
                show(s)
            );
            ensure!(got[..] == want[..k + 1], "events before the fault at {k} differ: {}", show(s));
            match r {
                Err(e) => match e.kind() {
                    ErrorKind::ErrorFromDelegate(f) => {
                        let read = read_by(&want, k).unwrap_or(s.len());
                        ensure!(e.offset() <= read, "the error of event {k} ({:?}) is placed at {}, of {read} bytes read by then: {}", want[k], e.offset(), show(s));
                        ensure!(*f == Fault(token), "another error came back than the delegate's at event {k} ({:?}): {}", want[k], show(s))
                    }
                    x => bail!("{:?} returned instead of the delegate's error from event {k} ({:?}): {}", kind(x), want[k], show(s)),
                },
                Ok(_) => bail!("accepted although the delegate failed at event {k} ({:?}): {}", want[k], show(s)),
            }
            let name = match want[k] {
                Call::Null | Call::Bool(_) | Call::Num(..) | Call::Str(..) => "faults_at_scalar",
                Call::BeginObj => "faults_at_begin_object",
                Call::BeginArr => "faults_at_begin_array",
                Call::Key(..) => "faults_at_object_key",
                Call::ObjVal(..) => "faults_at_object_value",
                Call::ArrVal(..) => "faults_at_array_value",
                Call::EndObj(_) => "faults_at_end_object",
                Call::EndArr(_) => "faults_at_end_array",
            };
            cx.count(name, 1);
        }
    }
    Ok(())
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let c = super::c03::rot(cx.rng.below(480), s);
    one(cx, s, c)?;
    if c != Cfg::DEFAULT {
        one(cx, s, Cfg::DEFAULT)?;
    }
    let n = model::parse(s, Cfg::DEFAULT).events.len();
    cx.max("most_events", n as u64);
    cx.case_bytes(s, n > 0);
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C16",
    rule: "standard payload workloads (token sequences up to 5 (6), numbers, string bodies, escapes, edits, families, corpus, random) under the default and one of 12 configurations; a recording delegate gives every value, key and container a unique identity; then a delegate whose answers about emptiness are constant (where they cannot matter); then the delegate fails at every event (at 40 sampled events beyond 120). Oracle: recorded calls equal those derived from the reference parser (order, source slice positions, parent and child identities), returned value is the last event's; after a fault no further event and that very error. Non-trivial: distinct payloads with at least one event.",
    stack: 0,
    workloads: payload_workloads![check; tok 5, 6; num 4, 5; fam 600, 10000; rnd 1000, 20000;],
};
