//! Checking allocator: red zones around every block, fill-on-alloc and fill-on-free,
//! so that out-of-bounds writes, double frees and reads of uninitialised or freed
//! memory show up as failures in an ordinary (non-sanitizer) build.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct CheckAlloc;

const MAGIC_LIVE: u64 = 0x5AFE_B10C_1D1E_A11C;
const MAGIC_DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const TAIL: usize = 16;
const TAIL_BYTE: u8 = 0xC7;

fn head(layout: &Layout) -> usize {
    layout.align().max(32)
}

fn outer(layout: &Layout) -> Option<Layout> {
    let size = layout.size().checked_add(head(layout))?.checked_add(TAIL)?;
    Layout::from_size_align(size, layout.align().max(16)).ok()
}

#[cold]
fn die(msg: &str) -> ! {
    unsafe {
        libc::write(2, msg.as_ptr() as *const _, msg.len());
        libc::abort();
    }
}

unsafe impl GlobalAlloc for CheckAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let o = match outer(&layout) {
            Some(o) => o,
            None => return core::ptr::null_mut(),
        };
        let base = System.alloc(o);
        if base.is_null() {
            return base;
        }
        let h = head(&layout);
        let p = base.add(h);
        (p.sub(16) as *mut u64).write_unaligned(MAGIC_LIVE);
        (p.sub(8) as *mut u64).write_unaligned(layout.size() as u64);
        if layout.size() <= (1 << 20) {
            core::ptr::write_bytes(p, 0xA5, layout.size());
        }
        core::ptr::write_bytes(p.add(layout.size()), TAIL_BYTE, TAIL);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let m = (p.sub(16) as *const u64).read_unaligned();
        if m == MAGIC_DEAD {
            die("checkalloc: double free\n");
        }
        if m != MAGIC_LIVE {
            die("checkalloc: heap underflow or bad free\n");
        }
        if (p.sub(8) as *const u64).read_unaligned() != layout.size() as u64 {
            die("checkalloc: free with wrong size\n");
        }
        for i in 0..TAIL {
            if *p.add(layout.size() + i) != TAIL_BYTE {
                die("checkalloc: heap overflow\n");
            }
        }
        (p.sub(16) as *mut u64).write_unaligned(MAGIC_DEAD);
        if layout.size() <= (1 << 20) {
            core::ptr::write_bytes(p, 0xDD, layout.size());
        }
        let h = head(&layout);
        System.dealloc(p.sub(h), outer(&layout).unwrap());
    }
}
