//! Receives the coverage of the instrumented crates.
use crate::rt::{mix, Rng};
use std::arch::global_asm;

macro_rules! traced {
    ($($n:literal, $w:literal);* $(;)?) => { $(
        global_asm!(
            concat!(".globl __sanitizer_cov_trace_const_cmp", $n),
            concat!("__sanitizer_cov_trace_const_cmp", $n, ":"),
            $w, "mov rdx, [rsp]", "jmp guide_const",
            concat!(".globl __sanitizer_cov_trace_cmp", $n),
            concat!("__sanitizer_cov_trace_cmp", $n, ":"),
            $w, "mov rdx, [rsp]", "jmp guide_var",
        );
    )* };
}
traced!("1", "movzx edi, dil\nmovzx esi, sil"; "2", "movzx edi, di\nmovzx esi, si"; "4", "mov edi, edi\nmov esi, esi"; "8", "");
global_asm!(".globl __sanitizer_cov_trace_switch", "__sanitizer_cov_trace_switch:", "mov rdx, [rsp]", "jmp guide_switch");

const SLOTS: usize = 8192;
const RING: usize = 256;
struct State {
    ranges: Vec<(usize, usize)>,
    values: Vec<bool>,
    fresh: u32,
    ring: [(u64, u64); RING],
    n: u64,
}
static mut S: State = State { ranges: Vec::new(), values: Vec::new(), fresh: 0, ring: [(0, 0); RING], n: 0 };
#[allow(clippy::mut_from_ref)]
fn s() -> &'static mut State {
    // one thread executes everything
    unsafe { &mut *std::ptr::addr_of_mut!(S) }
}

fn compared(a: u64, b: u64, pc: u64, keep: bool) {
    let s = s();
    if s.values.is_empty() {
        return;
    }
    let site = mix(pc.wrapping_sub(guide_const as extern "C" fn(u64, u64, u64) as usize as u64)) as usize % SLOTS;
    for k in [(a ^ b).count_ones() as usize, 65 + a.abs_diff(b).leading_zeros().min(62) as usize] {
        let v = &mut s.values[site * 128 + k];
        s.fresh += !*v as u32;
        *v = true;
    }
    if a != b {
        s.n += 1;
        if keep || s.n % 8 == 0 {
            let at = mix(s.n) as usize % RING;
            s.ring[at] = (a, b);
        }
    }
}
#[no_mangle]
extern "C" fn guide_const(a: u64, b: u64, pc: u64) {
    compared(a, b, pc, true)
}
#[no_mangle]
extern "C" fn guide_var(a: u64, b: u64, pc: u64) {
    compared(a, b, pc, false)
}
#[no_mangle]
unsafe extern "C" fn guide_switch(v: u64, cases: *const u64, pc: u64) {
    let n = *cases as usize;
    for i in 0..n.min(64) {
        let c = *cases.add(2 + i);
        if c.abs_diff(v) < 3 {
            compared(c, v, pc.wrapping_add(i as u64 * 7919), i % 4 == 0);
        }
    }
}
#[no_mangle]
extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    s().ranges.push((a as usize, b as usize - a as usize));
}
#[no_mangle]
extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

pub struct Cov {
    seen: Vec<u8>,
}
impl Cov {
    pub fn new() -> Cov {
        s().values = vec![false; SLOTS * 128];
        Cov { seen: vec![0; s().ranges.iter().map(|r| r.1).sum()] }
    }
    pub fn begin(&mut self) {
        s().fresh = 0;
        for (a, n) in &s().ranges {
            unsafe { std::ptr::write_bytes(*a as *mut u8, 0, *n) };
        }
    }
    /// (new edge counts, new comparison outcomes)
    pub fn end(&mut self) -> (u32, u32) {
        let (mut at, mut new) = (0, 0);
        for (a, n) in &s().ranges {
            let c = unsafe { std::slice::from_raw_parts(*a as *const u8, *n) };
            for &x in c {
                if x != 0 {
                    let bit = match x {
                        1 => 1u8,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if self.seen[at] & bit == 0 {
                        self.seen[at] |= bit;
                        new += 1;
                    }
                }
                at += 1;
            }
        }
        (new, s().fresh)
    }
    pub fn edges(&self) -> (usize, usize) {
        (self.seen.iter().filter(|x| **x != 0).count(), self.seen.len())
    }
    /// A recent unequal comparison: what the code compared with, and what it had.
    pub fn compared(&self, r: &mut Rng) -> Option<(u64, u64)> {
        let (a, b) = s().ring[r.below(RING)];
        (a != b).then_some(if r.chance(3, 4) { (a, b) } else { (b, a) })
    }
}
