//! probe log CORPUS FLAGS [SHARD SHARDS]        one line per item and operation: index, operation, hash
//! probe show CORPUS INDEX OP    the complete log
#[cfg(all(feature = "std", feature = "heapless"))]
mod history;
#[cfg(all(feature = "std", feature = "heapless"))]
mod cost;
use probe::*;
use std::io::Write;
#[cfg(all(feature = "std", feature = "heapless"))]
#[global_allocator]
static A: cost::Volume = cost::Volume;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn one(op: &ops::Op, d: &[u8], keep: bool) -> ops::Log {
    let mut g = ops::Log::new(keep);
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| op.1(d, &mut g))) {
        let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned()).unwrap_or_default();
        let _ = std::fmt::Write::write_str(&mut g, &format!("PANIC {m}\n"));
        g.n = u64::MAX;
    }
    g
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    #[cfg(all(feature = "std", feature = "heapless"))]
    {
        if a[1] == "cost" {
            return cost::main(&a[2..]);
        }
        if a[1] == "spec" {
            return cost::show(&a[2..]);
        }
    }
    let b = std::fs::read(&a[2]).expect("corpus");
    let mut out = std::io::BufWriter::new(std::io::stdout());
    #[cfg(all(feature = "std", feature = "heapless"))]
    if a[1] == "history" {
        std::process::exit(history::main(&b, &a[3..]));
    }
    if a[1] == "show" {
        let i: usize = a[3].parse().expect("index");
        for (k, x) in read_corpus(&b, 0) {
            if k == i {
                for op in ops_of(x.flags).iter().filter(|o| o.0 == a[4]) {
                    let _ = out.write_all(one(op, &x.data, true).text.unwrap_or_default().as_bytes());
                }
            }
        }
        return;
    }
    let (k, n): (usize, usize) = if a.len() > 5 { (a[4].parse().expect("shard"), a[5].parse().expect("shards")) } else { (0, 1) };
    for (i, x) in read_corpus(&b, a[3].parse().expect("flags")) {
        if i % n != k {
            continue;
        }
        for op in ops_of(x.flags) {
            let g = one(&op, &x.data, false);
            let _ = writeln!(out, "{i} {} {:016x}{}", op.0, g.h, if g.n == u64::MAX { " panic" } else { "" });
        }
    }
}
