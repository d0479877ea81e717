//! Thread-caching allocator: the cases allocate a lot of short vectors, on all cores at once.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ptr::null_mut;

pub struct Cache;

const LO: u32 = 5; // 32 bytes
const HI: u32 = 20; // 1 MB
const N: usize = (HI - LO + 1) as usize;

thread_local! {
    static FREE: [Cell<*mut u8>; N] = const { [const { Cell::new(null_mut()) }; N] };
}

fn class(l: &Layout) -> Option<usize> {
    if l.align() > 16 || l.size() > 1 << HI {
        return None;
    }
    let b = usize::BITS - (l.size().max(1) - 1).leading_zeros();
    Some(b.saturating_sub(LO) as usize)
}

fn full(k: usize) -> Layout {
    Layout::from_size_align(1 << (k as u32 + LO), 16).unwrap()
}

// Blocks of a class all have its full size; a free block holds the pointer to the next one.
unsafe impl GlobalAlloc for Cache {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(k) = class(&l) else { return System.alloc(l) };
        let p = FREE
            .try_with(|f| {
                let p = f[k].get();
                if !p.is_null() {
                    f[k].set(*(p as *mut *mut u8));
                }
                p
            })
            .unwrap_or(null_mut());
        if p.is_null() {
            System.alloc(full(k))
        } else {
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some(k) = class(&l) else { return System.dealloc(p, l) };
        let kept = FREE.try_with(|f| {
            *(p as *mut *mut u8) = f[k].get();
            f[k].set(p);
        });
        if kept.is_err() {
            System.dealloc(p, full(k));
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        match (class(&l), class(&nl)) {
            (Some(a), Some(b)) if a == b => p,
            (None, None) => System.realloc(p, l, n),
            _ => {
                let q = self.alloc(nl);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                q
            }
        }
    }
}
