//! Global allocator: the system allocator until a simulated run starts, then a
//! deterministic segregated-fit arena at a fixed address, used only by the
//! thread that holds the scheduler's baton, so that addresses are a function
//! of the seed. Allocation calls are also (rare, seeded) preemption points.
use crate::kernel;
use crate::sys;
use std::alloc::{GlobalAlloc, Layout, System};

pub const ARENA_BASE: usize = 0x2000_0000_0000;
pub const ARENA_SIZE: usize = 1 << 36;
const NCLASS: usize = 48;

pub struct SimAlloc;

struct Arena {
    on: bool,
    next: usize,
    free: [usize; NCLASS],
    live: usize,
}
// [0] the router's memory, [1] the simulator's own (so that recording more or
// less never changes the addresses the router sees)
static mut AS: [Arena; 2] = [
    Arena { on: false, next: ARENA_BASE, free: [0; NCLASS], live: 0 },
    Arena { on: false, next: ARENA_BASE + ARENA_SIZE, free: [0; NCLASS], live: 0 },
];
const MEM_CAP: usize = 3 << 30;

// size classes: 16,32,48,64,80,96,112,128 then 4 steps per power of two
#[inline]
fn class_of(sz: usize) -> (usize, usize) {
    if sz <= 128 {
        let c = (sz.max(1) + 15) / 16;
        return (c - 1, c * 16);
    }
    let p = usize::BITS as usize - 1 - (sz - 1).leading_zeros() as usize; // floor log2(sz-1)
    let step = (1usize << p) / 4;
    let k = (sz - 1 - (1 << p)) / step; // 0..3
    let size = (1 << p) + (k + 1) * step;
    let idx = 8 + (p - 7) * 4 + k;
    (idx, size)
}

pub fn start() {
    unsafe {
        let r = sys::raw6(
            libc::SYS_mmap,
            ARENA_BASE as i64,
            (2 * ARENA_SIZE) as i64,
            (libc::PROT_READ | libc::PROT_WRITE) as i64,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as i64,
            -1,
            0,
        );
        if r != ARENA_BASE as i64 {
            sys::raw_write(2, b"hrsim: cannot map arena\n");
            sys::exit_group(4);
        }
        AS[0].on = true;
    }
}
pub fn live_bytes() -> usize {
    unsafe { AS[0].live }
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    #[allow(non_snake_case)]
    let A = &mut AS[kernel::in_kernel() as usize];
    let need = l.size().max(1);
    if l.align() > 16 {
        // over-aligned: dedicated, aligned block from the bump pointer
        let sz = (need + 15) & !15;
        let p = (A.next + l.align() - 1) & !(l.align() - 1);
        A.next = p + sz;
        return p as *mut u8;
    }
    let (c, sz) = class_of(need);
    if c >= NCLASS {
        let p = (A.next + 4095) & !4095;
        A.next = p + ((need + 4095) & !4095);
        return p as *mut u8;
    }
    A.live += sz;
    if A.live > MEM_CAP {
        kernel::out_of_memory();
    }
    let h = A.free[c];
    if h != 0 {
        A.free[c] = *(h as *const usize);
        return h as *mut u8;
    }
    let p = A.next;
    A.next = p + sz;
    p as *mut u8
}
unsafe fn arena_free(p: *mut u8, l: Layout) {
    #[allow(non_snake_case)]
    let A = &mut AS[((p as usize) >= ARENA_BASE + ARENA_SIZE) as usize];
    let need = l.size().max(1);
    if l.align() > 16 {
        return;
    }
    let (c, sz) = class_of(need);
    if c >= NCLASS {
        // give pages back, never reuse the range
        let s = (need + 4095) & !4095;
        sys::raw3(libc::SYS_madvise, p as i64, s as i64, libc::MADV_DONTNEED as i64);
        return;
    }
    A.live -= sz;
    *(p as *mut usize) = A.free[c];
    A.free[c] = p as usize;
}
#[inline(always)]
fn in_arena(p: *const u8) -> bool {
    (p as usize).wrapping_sub(ARENA_BASE) < 2 * ARENA_SIZE
}

unsafe impl GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if AS[0].on && kernel::cur() != kernel::NONE {
            kernel::alloc_point();
            return arena_alloc(l);
        }
        System.alloc(l)
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            arena_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if AS[0].on && kernel::cur() != kernel::NONE {
            kernel::alloc_point();
            let p = arena_alloc(l);
            std::ptr::write_bytes(p, 0, l.size());
            return p;
        }
        System.alloc_zeroed(l)
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p) || (AS[0].on && kernel::cur() != kernel::NONE) {
            if in_arena(p) && l.align() <= 16 {
                let (c1, s1) = class_of(l.size().max(1));
                if c1 < NCLASS && n <= s1 {
                    let (c2, _) = class_of(n.max(1));
                    if c1 == c2 {
                        return p;
                    }
                }
            }
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            return q;
        }
        System.realloc(p, l, n)
    }
}
