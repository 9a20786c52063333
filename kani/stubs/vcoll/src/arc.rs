//! Stand-in for `std::sync::Arc` of immutable content: the content itself, copied bit by bit and
//! never dropped.
use std::fmt;
use std::mem::ManuallyDrop;
use std::ops::Deref;

pub struct Arc<T>(ManuallyDrop<T>);
impl<T> Arc<T> {
    pub fn new(t: T) -> Self {
        Arc(ManuallyDrop::new(t))
    }
    pub fn ptr_eq(a: &Self, b: &Self) -> bool {
        std::ptr::eq(a, b)
    }
}
impl<T> Clone for Arc<T> {
    #[inline(always)]
    fn clone(&self) -> Self {
        Arc(unsafe { std::ptr::read(&self.0) })
    }
}
impl<T> Deref for Arc<T> {
    type Target = T;
    #[inline(always)]
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        &self.0
    }
}
impl<T> std::borrow::Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        &self.0
    }
}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}
impl<T> From<T> for Arc<T> {
    fn from(t: T) -> Self {
        Arc::new(t)
    }
}
impl<T: PartialEq> PartialEq for Arc<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: Eq> Eq for Arc<T> {}
impl<T: PartialOrd> PartialOrd for Arc<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        (**self).partial_cmp(&**o)
    }
}
impl<T: Ord> Ord for Arc<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (**self).cmp(&**o)
    }
}
impl<T: fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: fmt::Display> fmt::Display for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: std::error::Error> std::error::Error for Arc<T> {}
