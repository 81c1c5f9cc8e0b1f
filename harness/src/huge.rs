//! Payloads of several gigabytes that cost almost no memory: one small file mapped over and over, copied on write.
#[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri), not(exact)))]
mod os {
    use std::ffi::{c_char, c_int, c_long, c_uint, c_void};
    extern "C" {
        fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
        fn munmap(a: *mut c_void, len: usize) -> c_int;
        fn memfd_create(name: *const c_char, flags: c_uint) -> c_int;
        fn ftruncate(fd: c_int, len: c_long) -> c_int;
        fn close(fd: c_int) -> c_int;
    }
    const PIECE: usize = 48 << 20; // a multiple of the page size and of 2, 3, 4 and 6
    const FAILED: *mut c_void = usize::MAX as *mut c_void;

    pub struct Huge {
        at: *mut u8,
        mapped: usize,
        len: usize,
    }
    impl Huge {
        /// `len` bytes repeating `unit` (whose length divides 48 Mi), then the edits (position, bytes). None when memory cannot be mapped.
        pub fn new(len: usize, unit: &[u8], edits: &[(usize, &[u8])]) -> Option<Huge> {
            assert!(PIECE % unit.len() == 0);
            let mapped = len.div_ceil(PIECE) * PIECE;
            // SAFETY: plain mappings, owned by the result; every page of the reserved range is replaced by a private one.
            unsafe {
                let fd = memfd_create(c"justjson-huge".as_ptr(), 0);
                if fd < 0 || ftruncate(fd, PIECE as c_long) != 0 {
                    return None;
                }
                let f = mmap(std::ptr::null_mut(), PIECE, 3, 1, fd, 0);
                if f == FAILED {
                    close(fd);
                    return None;
                }
                let b = std::slice::from_raw_parts_mut(f as *mut u8, PIECE);
                for c in b.chunks_exact_mut(unit.len()) {
                    c.copy_from_slice(unit);
                }
                munmap(f, PIECE);
                let at = mmap(std::ptr::null_mut(), mapped, 0, 0x4022, -1, 0);
                let mut ok = at != FAILED;
                let mut o = 0;
                while ok && o < mapped {
                    ok = mmap((at as *mut u8).add(o) as *mut c_void, PIECE, 3, 0x4012, fd, 0) != FAILED;
                    o += PIECE;
                }
                close(fd);
                if at == FAILED {
                    return None;
                }
                let mut h = Huge { at: at as *mut u8, mapped, len };
                if !ok {
                    return None;
                }
                for (p, e) in edits {
                    h.bytes_mut()[*p..*p + e.len()].copy_from_slice(e);
                }
                Some(h)
            }
        }
        fn bytes_mut(&mut self) -> &mut [u8] {
            // SAFETY: mapped for at least `len` bytes.
            unsafe { std::slice::from_raw_parts_mut(self.at, self.len) }
        }
        pub fn bytes(&self) -> &[u8] {
            // SAFETY: as above.
            unsafe { std::slice::from_raw_parts(self.at, self.len) }
        }
        /// The text; the caller vouches for its validity.
        pub fn text(&self) -> &str {
            // SAFETY: the payloads of these workloads are built from whole characters.
            unsafe { std::str::from_utf8_unchecked(self.bytes()) }
        }
    }
    impl Drop for Huge {
        fn drop(&mut self) {
            // SAFETY: mapped by new.
            unsafe { munmap(self.at as *mut c_void, self.mapped) };
        }
    }
}
#[cfg(not(all(target_os = "linux", target_pointer_width = "64", not(miri), not(exact))))]
mod os {
    pub struct Huge;
    impl Huge {
        pub fn new(_: usize, _: &[u8], _: &[(usize, &[u8])]) -> Option<Huge> {
            None
        }
        pub fn bytes(&self) -> &[u8] {
            b""
        }
        pub fn text(&self) -> &str {
            ""
        }
    }
}
pub use os::Huge;

/// Just above the ranges of u32 and i32.
pub const LENS: [usize; 2] = [(1u64 << 32) as usize + 5, (1 << 31) + 5];
