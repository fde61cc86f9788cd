//! A checking allocator: every block remembers the layout it was asked for and carries a canary,
//! both are compared when it is given back; freed memory is filled.
use std::alloc::{GlobalAlloc, Layout, System};
pub struct Checked;
const MAGIC: u64 = 0x5AFE_B10C_C0DE_F00D;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const TAIL: [u8; 16] = [0xC5; 16];
fn outer(l: Layout) -> Option<(Layout, usize)> {
    let pre = l.align().max(32);
    Some((Layout::from_size_align(pre.checked_add(l.size())?.checked_add(16)?, l.align().max(16)).ok()?, pre))
}
fn die(what: &str, l: Layout, was: (usize, usize)) -> ! {
    // no allocation here
    use std::io::Write;
    let mut b = [0u8; 256];
    let mut c = std::io::Cursor::new(&mut b[..]);
    let _ = write!(c, "CHECKED-ALLOC: {what}: freed as size {} align {}, allocated as size {} align {}\n", l.size(), l.align(), was.0, was.1);
    let n = c.position() as usize;
    unsafe {
        libc::write(2, b.as_ptr().cast(), n);
        libc::abort()
    }
}
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some((o, pre)) = outer(l) else { return std::ptr::null_mut() };
        let p = System.alloc(o);
        if p.is_null() {
            return p;
        }
        let u = p.add(pre);
        let h = u.sub(32) as *mut u64;
        h.write(l.size() as u64);
        h.add(1).write(l.align() as u64);
        h.add(2).write(MAGIC);
        std::ptr::copy_nonoverlapping(TAIL.as_ptr(), u.add(l.size()), 16);
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(32) as *mut u64;
        let was = (h.read() as usize, h.add(1).read() as usize);
        match h.add(2).read() {
            MAGIC => {}
            DEAD => die("double free", l, was),
            _ => die("free of a block that was not allocated, or its header was overwritten", l, was),
        }
        if was != (l.size(), l.align()) {
            die("layout mismatch", l, was)
        }
        if std::slice::from_raw_parts(u.add(l.size()), 16) != TAIL {
            die("write past the end of the block", l, was)
        }
        h.add(2).write(DEAD);
        std::ptr::write_bytes(u, 0xDD, l.size().min(4096));
        let (o, pre) = outer(l).unwrap();
        System.dealloc(u.sub(pre), o)
    }
}
