//! Result logs of one fixed set of operations, in whatever configuration this
//! crate is built.
#![cfg_attr(target_family = "wasm", no_std)]
extern crate alloc;
use alloc::{vec, vec::Vec};

pub mod ops;

/// One payload of a corpus file: flags, prefix, a repeated unit, suffix.
pub struct Item {
    pub flags: u32,
    pub data: Vec<u8>,
}
pub const LONG: u32 = 2; // only the short sequence of operations

pub fn read_corpus(b: &[u8], want: u32) -> Vec<(usize, Item)> {
    let mut at = 0;
    let mut out = vec![];
    let mut i = 0;
    let word = |at: &mut usize| {
        let w = u32::from_le_bytes(b[*at..*at + 4].try_into().unwrap());
        *at += 4;
        w
    };
    while at < b.len() {
        let (flags, p, u, n, s) = (word(&mut at), word(&mut at) as usize, word(&mut at) as usize, word(&mut at), word(&mut at) as usize);
        if flags & want == want {
            let mut data = b[at..at + p].to_vec();
            for _ in 0..n {
                data.extend_from_slice(&b[at + p..at + p + u]);
            }
            data.extend_from_slice(&b[at + p + u..at + p + u + s]);
            out.push((i, Item { flags, data }));
        }
        at += p + u + s;
        i += 1;
    }
    out
}

/// The operations of an item, by name.
pub fn ops_of(flags: u32) -> Vec<ops::Op> {
    if flags & LONG != 0 {
        vec![("core.long", ops::long as fn(&[u8], &mut ops::Log))]
    } else {
        ops::OPS.to_vec()
    }
}

/// 32-bit build without an operating system: entry points for wasm.js and an
/// allocator that is emptied before every payload.
#[cfg(target_family = "wasm")]
mod wasm {
    use super::*;
    use alloc::string::String;
    use core::alloc::{GlobalAlloc, Layout};
    use core::arch::wasm32::{memory_grow, memory_size, unreachable};

    struct Bump;
    static mut NEXT: usize = 0;
    static mut BASE: usize = 0;
    unsafe impl GlobalAlloc for Bump {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if BASE == 0 {
                BASE = memory_size(0) << 16;
                NEXT = BASE;
            }
            let p = (NEXT + l.align() - 1) & !(l.align() - 1);
            let end = p + l.size();
            let have = memory_size(0) << 16;
            if end > have && memory_grow(0, (end - have + 65_535) >> 16) == usize::MAX {
                return core::ptr::null_mut();
            }
            NEXT = end;
            p as *mut u8
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if p as usize + l.size() == NEXT {
                NEXT = p as usize;
            }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            if p as usize + l.size() == NEXT {
                NEXT = p as usize;
                return self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            }
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            }
            q
        }
    }
    #[global_allocator]
    static A: Bump = Bump;
    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
        unreachable()
    }

    static mut BUF: (usize, usize) = (0, 0);
    fn data() -> &'static [u8] {
        unsafe { core::slice::from_raw_parts(BUF.0 as *const u8, BUF.1) }
    }
    /// Empties the heap and returns space for a payload.
    #[no_mangle]
    pub extern "C" fn buf(len: usize) -> *mut u8 {
        unsafe {
            NEXT = BASE;
            let p = A.alloc(Layout::from_size_align_unchecked(len.max(1), 16));
            BUF = (p as usize, len);
            p
        }
    }
    #[no_mangle]
    pub extern "C" fn ops(flags: u32) -> usize {
        ops_of(flags).len()
    }
    #[no_mangle]
    pub extern "C" fn name_ptr(flags: u32, i: usize) -> *const u8 {
        ops_of(flags)[i].0.as_ptr()
    }
    #[no_mangle]
    pub extern "C" fn name_len(flags: u32, i: usize) -> usize {
        ops_of(flags)[i].0.len()
    }
    #[no_mangle]
    pub extern "C" fn run(flags: u32, i: usize) -> u64 {
        let mut g = super::ops::Log::new(false);
        ops_of(flags)[i].1(data(), &mut g);
        g.h
    }
    static mut TEXT: String = String::new();
    #[no_mangle]
    pub extern "C" fn show(flags: u32, i: usize) -> usize {
        let mut g = super::ops::Log::new(true);
        ops_of(flags)[i].1(data(), &mut g);
        let t = unsafe { &mut *core::ptr::addr_of_mut!(TEXT) };
        *t = g.text.unwrap_or_default();
        t.len()
    }
    #[no_mangle]
    pub extern "C" fn text() -> *const u8 {
        unsafe { &*core::ptr::addr_of!(TEXT) }.as_ptr()
    }
}
