//! Environment model of the parts of rayon's API that pic-scale (and colorutils-rs) use.
//!
//! A parallel iterator is an indexed producer; `for_each` runs its items one at a time in an
//! order chosen by the checker: before the loop it calls `vp_par_begin(n)`, for every step k it
//! asks `vp_par_item(k, n)` which item runs next, and afterwards it calls `vp_par_end()`. The
//! symbolic executor implements these three functions; it picks the schedule, records what each
//! item reads and writes, and decides from those footprints whether items can interfere.
#![allow(clippy::all)]

unsafe extern "C" {
    fn vp_par_begin(n: usize);
    fn vp_par_item(k: usize, n: usize) -> usize;
    fn vp_par_end();
    fn vp_pool(threads: usize) -> u32;
    fn vp_install(enter: u32);
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
#[derive(Default, Debug)]
pub struct ThreadPoolBuilder {
    n: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self { n: 0 }
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    #[inline(never)]
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        if unsafe { vp_pool(self.n) } != 0 {
            Ok(ThreadPool { n: self.n })
        } else {
            Err(ThreadPoolBuildError)
        }
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        unsafe { vp_install(1) };
        let r = op();
        unsafe { vp_install(0) };
        r
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
}
pub fn current_num_threads() -> usize {
    1
}

pub mod iter {
    pub trait ParallelIterator: Sized + Send {
        type Item: Send;
        fn vp_len(&self) -> usize;
        /// # Safety
        /// every index is taken at most once
        unsafe fn vp_get(&self, i: usize) -> Self::Item;

        #[inline]
        fn for_each<OP>(self, op: OP)
        where
            OP: Fn(Self::Item) + Sync + Send,
        {
            let n = self.vp_len();
            unsafe {
                super::vp_par_begin(n);
                let mut k = 0usize;
                while k < n {
                    let i = super::vp_par_item(k, n);
                    if i >= n {
                        break;
                    }
                    op(self.vp_get(i));
                    k += 1;
                }
                super::vp_par_end();
            }
        }
        fn map<F, R>(self, f: F) -> Map<Self, F>
        where
            F: Fn(Self::Item) -> R + Sync + Send,
            R: Send,
        {
            Map { b: self, f }
        }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn zip<Z>(self, other: Z) -> Zip<Self, Z::Iter>
        where
            Z: IntoParallelIterator,
            Z::Iter: IndexedParallelIterator,
        {
            Zip {
                a: self,
                b: other.into_par_iter(),
            }
        }
        fn enumerate(self) -> Enumerate<Self> {
            Enumerate { b: self }
        }
        fn len(&self) -> usize {
            self.vp_len()
        }
    }
    pub trait IntoParallelIterator {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: Send;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<T: ParallelIterator> IntoParallelIterator for T {
        type Iter = T;
        type Item = T::Item;
        fn into_par_iter(self) -> T {
            self
        }
    }
    pub struct Map<B, F> {
        b: B,
        f: F,
    }
    impl<B: ParallelIterator, R: Send, F: Fn(B::Item) -> R + Sync + Send> ParallelIterator
        for Map<B, F>
    {
        type Item = R;
        fn vp_len(&self) -> usize {
            self.b.vp_len()
        }
        unsafe fn vp_get(&self, i: usize) -> R {
            (self.f)(unsafe { self.b.vp_get(i) })
        }
    }
    impl<B: IndexedParallelIterator, R: Send, F: Fn(B::Item) -> R + Sync + Send>
        IndexedParallelIterator for Map<B, F>
    {
    }
    pub struct Zip<A, B> {
        a: A,
        b: B,
    }
    impl<A: IndexedParallelIterator, B: IndexedParallelIterator> ParallelIterator for Zip<A, B> {
        type Item = (A::Item, B::Item);
        #[inline]
        fn vp_len(&self) -> usize {
            let (x, y) = (self.a.vp_len(), self.b.vp_len());
            if x < y { x } else { y }
        }
        #[inline]
        unsafe fn vp_get(&self, i: usize) -> Self::Item {
            unsafe { (self.a.vp_get(i), self.b.vp_get(i)) }
        }
    }
    impl<A: IndexedParallelIterator, B: IndexedParallelIterator> IndexedParallelIterator for Zip<A, B> {}
    pub struct Enumerate<B> {
        b: B,
    }
    impl<B: IndexedParallelIterator> ParallelIterator for Enumerate<B> {
        type Item = (usize, B::Item);
        #[inline]
        fn vp_len(&self) -> usize {
            self.b.vp_len()
        }
        #[inline]
        unsafe fn vp_get(&self, i: usize) -> Self::Item {
            (i, unsafe { self.b.vp_get(i) })
        }
    }
    impl<B: IndexedParallelIterator> IndexedParallelIterator for Enumerate<B> {}

    macro_rules! shared {
        ($name:ident, $exact:expr) => {
            pub struct $name<'a, T: Sync> {
                pub(crate) s: &'a [T],
                pub(crate) n: usize,
            }
            impl<'a, T: Sync> ParallelIterator for $name<'a, T> {
                type Item = &'a [T];
                #[inline]
                fn vp_len(&self) -> usize {
                    if $exact {
                        self.s.len() / self.n
                    } else {
                        self.s.len().div_ceil(self.n)
                    }
                }
                #[inline]
                unsafe fn vp_get(&self, i: usize) -> &'a [T] {
                    let lo = i * self.n;
                    let hi = (lo + self.n).min(self.s.len());
                    unsafe { core::slice::from_raw_parts(self.s.as_ptr().add(lo), hi - lo) }
                }
            }
            impl<'a, T: Sync> IndexedParallelIterator for $name<'a, T> {}
        };
    }
    shared!(ChunksExact, true);
    shared!(Chunks, false);
    macro_rules! unique {
        ($name:ident, $exact:expr) => {
            pub struct $name<'a, T: Send> {
                pub(crate) p: *mut T,
                pub(crate) len: usize,
                pub(crate) n: usize,
                pub(crate) m: core::marker::PhantomData<&'a mut [T]>,
            }
            unsafe impl<'a, T: Send> Send for $name<'a, T> {}
            impl<'a, T: Send> ParallelIterator for $name<'a, T> {
                type Item = &'a mut [T];
                #[inline]
                fn vp_len(&self) -> usize {
                    if $exact {
                        self.len / self.n
                    } else {
                        self.len.div_ceil(self.n)
                    }
                }
                #[inline]
                unsafe fn vp_get(&self, i: usize) -> &'a mut [T] {
                    let lo = i * self.n;
                    let hi = (lo + self.n).min(self.len);
                    unsafe { core::slice::from_raw_parts_mut(self.p.add(lo), hi - lo) }
                }
            }
            impl<'a, T: Send> IndexedParallelIterator for $name<'a, T> {}
        };
    }
    unique!(ChunksExactMut, true);
    unique!(ChunksMut, false);

    pub struct IterRef<'a, T: Sync> {
        pub(crate) s: &'a [T],
    }
    impl<'a, T: Sync> ParallelIterator for IterRef<'a, T> {
        type Item = &'a T;
        #[inline]
        fn vp_len(&self) -> usize {
            self.s.len()
        }
        #[inline]
        unsafe fn vp_get(&self, i: usize) -> &'a T {
            unsafe { &*self.s.as_ptr().add(i) }
        }
    }
    impl<'a, T: Sync> IndexedParallelIterator for IterRef<'a, T> {}
    pub struct IterMut<'a, T: Send> {
        pub(crate) p: *mut T,
        pub(crate) len: usize,
        pub(crate) m: core::marker::PhantomData<&'a mut [T]>,
    }
    unsafe impl<'a, T: Send> Send for IterMut<'a, T> {}
    impl<'a, T: Send> ParallelIterator for IterMut<'a, T> {
        type Item = &'a mut T;
        #[inline]
        fn vp_len(&self) -> usize {
            self.len
        }
        #[inline]
        unsafe fn vp_get(&self, i: usize) -> &'a mut T {
            unsafe { &mut *self.p.add(i) }
        }
    }
    impl<'a, T: Send> IndexedParallelIterator for IterMut<'a, T> {}
    pub struct RangeIter {
        pub(crate) lo: usize,
        pub(crate) hi: usize,
    }
    impl ParallelIterator for RangeIter {
        type Item = usize;
        #[inline]
        fn vp_len(&self) -> usize {
            self.hi.saturating_sub(self.lo)
        }
        #[inline]
        unsafe fn vp_get(&self, i: usize) -> usize {
            self.lo + i
        }
    }
    impl IndexedParallelIterator for RangeIter {}
    impl IntoParallelIterator for core::ops::Range<usize> {
        type Iter = RangeIter;
        type Item = usize;
        fn into_par_iter(self) -> RangeIter {
            RangeIter {
                lo: self.start,
                hi: self.end,
            }
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: Send + 'a;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for [T] {
        type Iter = IterRef<'a, T>;
        type Item = &'a T;
        fn par_iter(&'a self) -> IterRef<'a, T> {
            IterRef { s: self }
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Iter: ParallelIterator<Item = Self::Item>;
        type Item: Send + 'a;
        fn par_iter_mut(&'a mut self) -> Self::Iter;
    }
    impl<'a, T: Send + 'a> IntoParallelRefMutIterator<'a> for [T] {
        type Iter = IterMut<'a, T>;
        type Item = &'a mut T;
        fn par_iter_mut(&'a mut self) -> IterMut<'a, T> {
            IterMut {
                p: self.as_mut_ptr(),
                len: self.len(),
                m: core::marker::PhantomData,
            }
        }
    }
}

pub mod slice {
    use super::iter::*;
    pub trait ParallelSlice<T: Sync> {
        fn as_parallel_slice(&self) -> &[T];
        fn par_chunks_exact(&self, n: usize) -> ChunksExact<'_, T> {
            assert!(n != 0, "chunk_size must not be zero");
            ChunksExact {
                s: self.as_parallel_slice(),
                n,
            }
        }
        fn par_chunks(&self, n: usize) -> Chunks<'_, T> {
            assert!(n != 0, "chunk_size must not be zero");
            Chunks {
                s: self.as_parallel_slice(),
                n,
            }
        }
    }
    impl<T: Sync> ParallelSlice<T> for [T] {
        fn as_parallel_slice(&self) -> &[T] {
            self
        }
    }
    pub trait ParallelSliceMut<T: Send> {
        fn as_parallel_slice_mut(&mut self) -> &mut [T];
        fn par_chunks_exact_mut(&mut self, n: usize) -> ChunksExactMut<'_, T> {
            assert!(n != 0, "chunk_size must not be zero");
            let s = self.as_parallel_slice_mut();
            ChunksExactMut {
                p: s.as_mut_ptr(),
                len: s.len(),
                n,
                m: core::marker::PhantomData,
            }
        }
        fn par_chunks_mut(&mut self, n: usize) -> ChunksMut<'_, T> {
            assert!(n != 0, "chunk_size must not be zero");
            let s = self.as_parallel_slice_mut();
            ChunksMut {
                p: s.as_mut_ptr(),
                len: s.len(),
                n,
                m: core::marker::PhantomData,
            }
        }
    }
    impl<T: Send> ParallelSliceMut<T> for [T] {
        fn as_parallel_slice_mut(&mut self) -> &mut [T] {
            self
        }
    }
}

pub mod prelude {
    pub use super::iter::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelIterator,
    };
    pub use super::slice::{ParallelSlice, ParallelSliceMut};
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    // one of the two orders; the footprints decide about the other
    unsafe {
        vp_par_begin(2);
        let _ = vp_par_item(0, 2);
        let ra = a();
        let _ = vp_par_item(1, 2);
        let rb = b();
        vp_par_end();
        (ra, rb)
    }
}
