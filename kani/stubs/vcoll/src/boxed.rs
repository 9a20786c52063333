//! Stand-in for `Box<T>` of a sized type: a pointer that never frees.
//!
//! Where the value lives is up to `Place`: types that a harness registers live in typed storage,
//! which the solver's memory model handles far better than untyped heap bytes.
use std::fmt;
use std::ops::Deref;
use std::ops::DerefMut;

/// Chooses the storage of a boxed value.
pub trait Place: Sized {
    fn place(t: Self) -> *mut Self;
}
impl<T> Place for T {
    default fn place(t: Self) -> *mut Self {
        std::boxed::Box::into_raw(std::boxed::Box::new(t))
    }
}

pub struct Box<T>(*mut T);
unsafe impl<T: Send> Send for Box<T> {}
unsafe impl<T: Sync> Sync for Box<T> {}
impl<T> Box<T> {
    pub fn new(t: T) -> Self {
        Box(T::place(t))
    }
    pub fn into_inner(b: Self) -> T {
        unsafe { std::ptr::read(b.0) }
    }
}
impl<T> Deref for Box<T> {
    type Target = T;
    #[inline(always)]
    fn deref(&self) -> &T {
        unsafe { &*self.0 }
    }
}
impl<T> DerefMut for Box<T> {
    #[inline(always)]
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0 }
    }
}
impl<T> AsRef<T> for Box<T> {
    fn as_ref(&self) -> &T {
        self
    }
}
impl<T> AsMut<T> for Box<T> {
    fn as_mut(&mut self) -> &mut T {
        self
    }
}
impl<T: Clone> Clone for Box<T> {
    fn clone(&self) -> Self {
        Box::new((**self).clone())
    }
}
impl<T: Default> Default for Box<T> {
    fn default() -> Self {
        Box::new(T::default())
    }
}
impl<T: PartialEq> PartialEq for Box<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: Eq> Eq for Box<T> {}
impl<T: fmt::Debug> fmt::Debug for Box<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: fmt::Display> fmt::Display for Box<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
