//! The same wrappers compiled natively against the real rayon, for replaying counterexamples and
//! for validating the symbolic executor. Every heap block can be placed right before an
//! inaccessible page, so that out-of-bounds accesses of internal buffers fault.
#![cfg_attr(feature = "nightly", feature(f16))]
#![allow(unsafe_op_in_unsafe_fn)]
#[path = "../../harness/src/lib.rs"]
mod wrappers;
pub use wrappers::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

unsafe extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}

static GUARD: AtomicBool = AtomicBool::new(false);
static LO: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
const ARENA: usize = 1 << 36;
const PAGE: usize = 4096;

struct G;
fn pages(n: usize) -> usize {
    n.div_ceil(PAGE) * PAGE
}
unsafe impl GlobalAlloc for G {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !GUARD.load(Ordering::Relaxed) || l.size() > 1 << 24 {
            return System.alloc(l);
        }
        let lo = LO.load(Ordering::Relaxed);
        let body = pages(l.size() + l.align());
        let p = NEXT.fetch_add(body + PAGE, Ordering::Relaxed);
        if p + body + PAGE > lo + ARENA {
            return System.alloc(l);
        }
        mprotect(p as *mut u8, body, 3);
        core::ptr::write_bytes(p as *mut u8, 0xA5, body);
        let a = (p + body - l.size()) & !(l.align() - 1);
        a as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let lo = LO.load(Ordering::Relaxed);
        let a = p as usize;
        if lo != 0 && a >= lo && a < lo + ARENA {
            let s = a & !(PAGE - 1);
            mprotect(s as *mut u8, pages(a + l.size() - s), 0);
        } else {
            System.dealloc(p, l)
        }
    }
}
#[global_allocator]
static ALLOC: G = G;

#[no_mangle]
pub unsafe extern "C" fn n_guard(on: u32) {
    if on != 0 && LO.load(Ordering::Relaxed) == 0 {
        // PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
        let p = mmap(core::ptr::null_mut(), ARENA, 0, 0x4022, -1, 0) as usize;
        if p == usize::MAX {
            return;
        }
        LO.store(p, Ordering::Relaxed);
        NEXT.store(p, Ordering::Relaxed);
    }
    GUARD.store(on != 0, Ordering::Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn n_unmap(a: *mut u8, n: usize) -> i32 {
    munmap(a, n)
}

/// which: 0 resize 1 scale 2 color 3 construct 4 copies 5 threads 6 pool; -100 if it panicked
#[no_mangle]
pub unsafe extern "C" fn n_call(which: u32, j: *mut Job) -> i32 {
    let r = std::panic::catch_unwind(|| unsafe {
        match which {
            0 => h_resize(&*j),
            1 => h_scale(&*j),
            #[cfg(feature = "colors")]
            2 => h_color(&*j),
            3 => h_construct(&mut *j),
            4 => h_copies(&mut *j),
            5 => h_threads(&mut *j),
            6 => h_pool(&mut *j),
            7 => h_contents(&mut *j),
            #[cfg(feature = "colors")]
            8 => h_color_ref(&*j),
            9 => h_reuse(&*j),
            _ => -1,
        }
    });
    r.unwrap_or(-100)
}

#[target_feature(enable = "avx512f")]
unsafe fn rcp14(x: f32) -> f32 {
    use std::arch::x86_64::*;
    _mm_cvtss_f32(_mm_rcp14_ss(_mm_set_ss(x), _mm_set_ss(x)))
}
#[no_mangle]
pub unsafe extern "C" fn n_rcp14(x: f32) -> f32 {
    if !std::arch::is_x86_feature_detected!("avx512f") {
        return 1.0 / x;
    }
    rcp14(x)
}

/// the processor's reciprocal estimate
#[no_mangle]
pub unsafe extern "C" fn n_rcp(x: f32) -> f32 {
    use std::arch::x86_64::*;
    _mm_cvtss_f32(_mm_rcp_ss(_mm_set_ss(x)))
}
