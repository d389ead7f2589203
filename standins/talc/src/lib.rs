//! Stand-in for the `talc` allocator (not available offline): the same names, backed by the system's allocator. The arena
//! it is given is never touched.

use std::alloc::{GlobalAlloc, Layout, System};
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug)]
pub struct Span(PhantomData<*mut u8>);

impl Span {
    pub const fn from_const_array<T, const N: usize>(_: *const [T; N]) -> Self {
        Span(PhantomData)
    }
    pub const fn from_array<T, const N: usize>(_: *mut [T; N]) -> Self {
        Span(PhantomData)
    }
    pub const fn empty() -> Self {
        Span(PhantomData)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct ClaimOnOom;

impl ClaimOnOom {
    /// # Safety
    /// As with the original, the span must be the caller's to give.
    pub const unsafe fn new(_: Span) -> Self {
        ClaimOnOom
    }
}

#[derive(Clone, Copy, Debug)]
pub struct ErrOnOom;

pub struct Talc<O> {
    _oom: PhantomData<O>,
}

impl<O> Talc<O> {
    pub const fn new(_oom: O) -> Self
    where
        O: Copy,
    {
        Talc { _oom: PhantomData }
    }
    pub const fn lock<R: lock_api::RawMutex>(self) -> Talck<R, O> {
        Talck { _of: PhantomData }
    }
}

pub struct Talck<R, O> {
    _of: PhantomData<(R, O)>,
}

unsafe impl<R, O> Sync for Talck<R, O> {}
unsafe impl<R, O> Send for Talck<R, O> {}

unsafe impl<R, O> GlobalAlloc for Talck<R, O> {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
