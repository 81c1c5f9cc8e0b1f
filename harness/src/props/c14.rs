//! C14 Document nodes and cursor describe the payload exactly.
use crate::common::*;
use crate::model::{self, Cfg, Outcome};
use crate::rt::*;
use crate::{bail, ensure};
use justjson::doc::{Document, DocumentIter, GenericDocument, HeaplessDocument, NodeCollection};
use justjson::Value;

/// One cursor with the position it should be at.
#[derive(Clone)]
struct Cur<'d, 'a> {
    it: DocumentIter<'d, 'a>,
    at: usize,
}

fn left(it: &DocumentIter<'_, '_>) -> usize {
    let mut c = it.clone();
    let mut n = 0;
    while c.next().is_some() {
        n += 1;
    }
    n
}

/// Performs operation `op` and checks what it returned.
fn step(c: &mut Cur<'_, '_>, op: usize, s: &[u8], o: &Outcome) -> R {
    let n = o.nodes.len();
    let at = c.at;
    match op {
        0 => match c.it.next() {
            Some(x) => {
                ensure!(at < n, "next at the end gives a node");
                node_is(&x, &o.nodes[at], s).map_err(|e| format!("next at position {at}: {e}"))?;
                c.at += 1;
            }
            None => ensure!(at == n, "next gives nothing at position {at} of {n}"),
        },
        1 => match c.it.next_value() {
            Some(v) => {
                ensure!(at < n, "next_value at the end gives a value");
                let e = o.nodes[at].sub_end;
                mirrors_nodes(&v, s, &o.nodes[at..e]).map_err(|e| format!("next_value at position {at}: {e}"))?;
                c.at = e;
            }
            None => ensure!(at == n, "next_value gives nothing at position {at} of {n}"),
        },
        2 => {
            c.it.skip_next_value();
            if at < n {
                c.at = o.nodes[at].sub_end;
            }
        }
        // as any iterator: nth and take pass over nodes
        3 => {
            let k = at % 4;
            match c.it.nth(k) {
                Some(x) => {
                    ensure!(at + k < n, "nth({k}) at position {at} of {n} gives a node");
                    node_is(&x, &o.nodes[at + k], s).map_err(|e| format!("nth({k}) at position {at}: {e}"))?;
                    c.at = at + k + 1;
                }
                None => {
                    ensure!(at + k >= n, "nth({k}) gives nothing at position {at} of {n}");
                    c.at = n;
                }
            }
        }
        _ => {
            let k = 1 + at % 3;
            let mut got = vec![];
            c.it.by_ref().take(k).for_each(|x| got.push(x));
            ensure!(got.len() == k.min(n - at), "take({k}) at position {at} of {n} gives {} nodes", got.len());
            for (i, x) in got.iter().enumerate() {
                node_is(x, &o.nodes[at + i], s).map_err(|e| format!("take({k}) at position {at}, node {i}: {e}"))?;
            }
            c.at += got.len();
        }
    }
    Ok(())
}
const OPS: [&str; 5] = ["next", "next_value", "skip_next_value", "nth", "take"];

/// Where the cursor is, checked by what it still yields.
fn placed(c: &Cur<'_, '_>, s: &[u8], o: &Outcome, whole: bool) -> R {
    let n = o.nodes.len();
    if whole {
        let l = left(&c.it);
        ensure!(l == n - c.at, "{l} nodes are left instead of {}", n - c.at);
        let k = c.it.clone();
        let (lo, hi) = k.size_hint();
        ensure!(lo <= l && hi.map_or(true, |h| h >= l), "the size hint is {lo} to {hi:?} with {l} nodes left");
        ensure!(k.count() == l && c.it.clone().fold(0, |a, _| a + 1) == l, "count() or fold() is wrong with {l} nodes left");
        match c.it.clone().last() {
            Some(x) => node_is(&x, &o.nodes[n - 1], s).map_err(|e| format!("last() at position {}: {e}", c.at))?,
            None => ensure!(l == 0, "last() gives nothing at position {}", c.at),
        }
    }
    let mut x = c.it.clone();
    for k in c.at..n.min(c.at + 3) {
        match x.next() {
            Some(y) => node_is(&y, &o.nodes[k], s)?,
            None => bail!("nothing left at position {k} of {n}"),
        }
    }
    if c.at == n {
        ensure!(x.next().is_none(), "nodes are left at the end");
    }
    Ok(())
}

fn cursor<'a, B: NodeCollection<'a>>(cx: &mut Ctx, d: &GenericDocument<'a, B>, s: &[u8], o: &Outcome, what: &str) -> R {
    let n = o.nodes.len();
    let w = |e: String| format!("{what}: {e}: {}", show(s));
    nodes_match(d.iter(), s, o).map_err(w)?;
    nodes_match(d.into_iter(), s, o).map_err(|e| w(format!("IntoIterator: {e}")))?;
    let mut r = cx.rng.clone();
    // every operation at every position (spread out when there are many)
    let stride = (n / 40).max(1);
    let mut walker = Cur { it: d.iter(), at: 0 };
    let mut target = 0;
    loop {
        if walker.at == target || walker.at >= n {
            for op in 0..5 {
                let mut c = walker.clone();
                step(&mut c, op, s, o).map_err(w)?;
                placed(&c, s, o, n <= 60 || r.chance(1, 8)).map_err(|e| w(format!("after {} at position {}: {e}", OPS[op], walker.at)))?;
                // and once more
                let p = c.at;
                let op2 = r.below(5);
                step(&mut c, op2, s, o).map_err(|e| w(format!("after {} at position {}: {e}", OPS[op], walker.at)))?;
                placed(&c, s, o, false).map_err(|e| w(format!("after {} at position {} and {} at {p}: {e}", OPS[op], walker.at, OPS[op2])))?;
                cx.count("cursor_operations", 2);
            }
            // the clones left the original alone
            placed(&walker, s, o, false).map_err(|e| w(format!("a cursor at position {} moved with its clones: {e}", walker.at)))?;
            target = walker.at + 1 + r.below(stride);
        }
        if walker.at >= n {
            break;
        }
        step(&mut walker, 0, s, o).map_err(w)?;
    }
    // random mixes on a pool of clones
    for _ in 0..2 {
        let mut pool = vec![Cur { it: d.iter(), at: 0 }];
        let (mut guard, mut hist) = (0, String::new());
        while guard < 60 {
            guard += 1;
            let i = r.below(pool.len());
            if r.chance(1, 5) && pool.len() < 6 {
                let c = pool[i].clone();
                pool.push(c);
                hist.push('c');
            }
            let op = if r.chance(1, 2) { 0 } else { r.below(5) };
            hist.push_str(["n", "v", "s", "h", "t"][op]);
            step(&mut pool[i], op, s, o).map_err(|e| w(format!("{e} (history {hist})")))?;
            cx.count("cursor_operations", 1);
            if guard % 8 == 0 {
                for c in &pool {
                    placed(c, s, o, n <= 60).map_err(|e| w(format!("{e} (history {hist})")))?;
                }
            }
            if pool.iter().all(|c| c.at == n) && r.chance(1, 2) {
                break;
            }
        }
    }
    // run off the end and stay there
    let mut c = Cur { it: d.iter(), at: 0 };
    let first = r.below(3);
    while c.at < n {
        let op = if first == 0 { r.below(3) } else { first };
        step(&mut c, op, s, o).map_err(w)?;
    }
    for op in [0, 2, 1, 3, 4, 0] {
        step(&mut c, op, s, o).map_err(w)?;
        ensure!(left(&c.it) == 0, "{what}: {} at the end brings nodes back: {}", OPS[op], show(s));
    }
    cx.rng = r;
    Ok(())
}

pub fn check(cx: &mut Ctx, s: &[u8]) -> R {
    let mut c = Cfg::DEFAULT;
    let mut o = model::parse(s, c);
    if !o.ok() {
        c = Cfg { trailing: true, limit: None, any_root: true };
        o = model::parse(s, c);
        if !o.ok() {
            cx.case_bytes(s, false);
            return Ok(());
        }
    }
    cx.case_bytes(s, true);
    cx.max("most_nodes", o.nodes.len() as u64);
    cx.max("deepest", o.max_depth as u64);
    let w = |e: String| format!("{e}: {}", show(s));
    let Ok(d) = Document::from_json_bytes_with_config(s, pcfg(c)) else { bail!("a valid payload is rejected: {}", show(s)) };
    cursor(cx, &d, s, &o, "Document")?;
    let Ok(direct) = Value::from_json_bytes_with_config(s, pcfg(c)) else { bail!("a valid payload is rejected: {}", show(s)) };
    let whole = d.iter().next_value();
    ensure!(whole.as_ref() == Some(&direct), "next_value on a new cursor differs from parsing the value: {}", show(s));
    let v = Value::from(d);
    mirrors(&v, s, &o).map_err(|e| w(format!("Value::from(document): {e}")))?;
    ensure!(v == direct && direct == v, "Value::from(document) differs from parsing the value: {}", show(s));
    if let Some(t) = as_str(s) {
        let Ok(d) = Document::from_json_with_config(t, pcfg(c)) else { bail!("a valid payload is rejected: {}", show(s)) };
        nodes_match(d.iter(), s, &o).map_err(|e| w(format!("Document from str: {e}")))?;
        mirrors(&Value::from(d), s, &o).map_err(|e| w(format!("Value::from(document): {e}")))?;
    }
    if o.nodes.len() <= 24 {
        let Ok(d) = HeaplessDocument::<24>::from_json_bytes_with_config(s, pcfg(c)) else { bail!("a fixed document with room rejects: {}", show(s)) };
        cursor(cx, &d, s, &o, "HeaplessDocument<24>")?;
        let v = Value::from(d);
        mirrors(&v, s, &o).map_err(|e| w(format!("Value::from(fixed document): {e}")))?;
    } else if o.nodes.len() <= 300 {
        let Ok(d) = HeaplessDocument::<300>::from_json_bytes_with_config(s, pcfg(c)) else { bail!("a fixed document with room rejects: {}", show(s)) };
        nodes_match(d.iter(), s, &o).map_err(|e| w(format!("fixed document: {e}")))?;
    }
    Ok(())
}

fn valid(cx: &mut Ctx, _: u64) -> R {
    super::payloads::valid(cx, check)
}

pub const PROP: Prop = Prop {
    id: "C14",
    rule: "valid payloads (default settings, or with trailing commas and no depth limit): all token sequences over 12 tokens up to a bound, single-byte edits of small documents, number strings, string bodies, escapes, 40 size families, repository corpus, random documents. A case is the payload; non-trivial if valid. On each: every operation at every position (spread over large documents), random operation histories on pools of cloned cursors, running off the end, conversions.",
    stack: 0,
    workloads: payload_workloads![check; tok 5, 6; num 4, 5; fam 12_000, 100_000; rnd 800, 40_000;
        Workload { name: "valid", total: |e| e.amt(800, 40_000), run: valid },
    ],
};
