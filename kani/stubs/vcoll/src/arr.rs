//! Raw inline storage: `C` slots, each used or not; the owner knows which.
use std::cell::UnsafeCell;
use std::mem::ManuallyDrop;
use std::mem::MaybeUninit;
use std::ptr;

/// One slot.  `UnsafeCell` hides the niches of `T`, so an unused slot is never mistaken for a tag.
#[repr(transparent)]
struct Slot<T>(UnsafeCell<ManuallyDrop<T>>);

pub struct Arr<T, const C: usize> {
    e: [Slot<T>; C],
}
unsafe impl<T: Send, const C: usize> Send for Arr<T, C> {}
unsafe impl<T: Sync, const C: usize> Sync for Arr<T, C> {}
impl<T, const C: usize> Unpin for Arr<T, C> {}
impl<T, const C: usize> std::panic::RefUnwindSafe for Arr<T, C> {}

impl<T, const C: usize> Arr<T, C> {
    #[inline(always)]
    pub fn new() -> Self {
        #[allow(invalid_value)]
        unsafe {
            MaybeUninit::uninit().assume_init()
        }
    }
    /// Moves the element out of slot `i`.
    #[inline(always)]
    pub fn rd(&self, i: usize) -> T {
        unsafe { ptr::read(self.at(i)) }
    }
    #[inline(always)]
    pub fn at(&self, i: usize) -> &T {
        unsafe { &*(self.e[i].0.get() as *const T) }
    }
    /// A reference to a copy of slot `at`.
    #[inline(always)]
    pub fn snap(&self, at: usize) -> &T {
        let mut i = 0;
        let mut t = self.rd_raw(0);
        while i < C {
            if i == at {
                t = self.rd_raw(i);
            }
            i += 1;
        }
        std::boxed::Box::leak(std::boxed::Box::new(ManuallyDrop::into_inner(t)))
    }
    #[inline(always)]
    fn rd_raw(&self, i: usize) -> ManuallyDrop<T> {
        unsafe { ptr::read(self.e[i].0.get()) }
    }
    #[inline(always)]
    #[allow(clippy::mut_from_ref)]
    pub fn raw(&self, i: usize) -> *mut T {
        self.e[i].0.get() as *mut T
    }
    #[inline(always)]
    pub fn at_mut(&mut self, i: usize) -> &mut T {
        unsafe { &mut *(self.e[i].0.get() as *mut T) }
    }
    #[inline(always)]
    pub fn wr(&mut self, i: usize, t: T) {
        self.e[i] = Slot(UnsafeCell::new(ManuallyDrop::new(t)));
    }
    /// Writes slot `i`, which need not be a constant: the index written to is one in each branch.
    #[inline(always)]
    pub fn put(&mut self, at: usize, t: T) {
        let t = ManuallyDrop::new(t);
        let mut i = 0;
        while i < C {
            if i == at {
                self.wr(i, unsafe { ptr::read(&*t) });
                break;
            }
            i += 1;
        }
    }
    pub fn slice(&self, n: usize) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.e.as_ptr() as *const T, n) }
    }
    pub fn slice_mut(&mut self, n: usize) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.e.as_mut_ptr() as *mut T, n) }
    }
    /// Shifts slots `at..n` up by one.
    pub fn open(&mut self, at: usize, n: usize) {
        let mut j = C - 1;
        while j > 0 {
            if j > at && j <= n {
                let x = self.rd(j - 1);
                self.wr(j, x);
            }
            j -= 1;
        }
    }
    /// Shifts slots `at+1..n` down by one.
    pub fn close(&mut self, at: usize, n: usize) {
        let mut j = 0;
        while j + 1 < C {
            if j >= at && j + 1 < n {
                let x = self.rd(j + 1);
                self.wr(j, x);
            }
            j += 1;
        }
    }
    pub fn drop_range(&mut self, from: usize, to: usize) {
        if std::mem::needs_drop::<T>() {
            let mut i = 0;
            while i < C {
                if i >= from && i < to {
                    drop(self.rd(i));
                }
                i += 1;
            }
        }
    }
}
