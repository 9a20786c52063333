//! Stand-in for `std::vec::Vec`: a bounded inline array.
use super::arr::Arr;
use std::borrow::Borrow;
use std::borrow::BorrowMut;
use std::cmp::Ordering;
use std::fmt;
use std::hash::Hash;
use std::hash::Hasher;
use std::mem::ManuallyDrop;
use std::ops::Bound;
use std::ops::Deref;
use std::ops::DerefMut;
use std::ops::RangeBounds;
use std::ptr;

/// Largest number of elements of a vector.
pub const VCAP: usize = crate::num(option_env!("VCOLL_VCAP"), 4);

/// Where the elements of a vector of `Self` live: inline, or (`Ref`) in typed storage that a harness
/// supplies, for types that are moved through enums.
pub trait Elem: Sized {
    type S: Slots<Self>;
    /// Fresh storage; only used with `Ref`.
    fn place() -> *mut Arr<Self, VCAP>;
    /// Whether a reference to an element points to a copy of it: a solver handles a pointer to a fresh
    /// object far better than one with a symbolic offset.  Elements are immutable while borrowed.
    const SNAP: bool;
}
impl<T> Elem for T {
    default type S = Arr<T, VCAP>;
    default fn place() -> *mut Arr<T, VCAP> {
        std::boxed::Box::into_raw(std::boxed::Box::new(Arr::new()))
    }
    default const SNAP: bool = false;
}
impl<T> Elem for (T, T) {
    type S = Ref<(T, T)>;
}
pub trait Slots<T> {
    fn new() -> Self;
    fn a(&self) -> &Arr<T, VCAP>;
    /// For writing.
    fn m(&mut self) -> &mut Arr<T, VCAP>;
}
impl<T> Slots<T> for Arr<T, VCAP> {
    #[inline(always)]
    fn new() -> Self {
        Arr::new()
    }
    #[inline(always)]
    fn a(&self) -> &Arr<T, VCAP> {
        self
    }
    #[inline(always)]
    fn m(&mut self) -> &mut Arr<T, VCAP> {
        self
    }
}
pub struct Ref<T>(*mut Arr<T, VCAP>);
impl<T> Slots<T> for Ref<T> {
    #[inline(always)]
    fn new() -> Self {
        Ref(T::place())
    }
    #[inline(always)]
    fn a(&self) -> &Arr<T, VCAP> {
        unsafe { &*self.0 }
    }
    #[inline(always)]
    fn m(&mut self) -> &mut Arr<T, VCAP> {
        unsafe { &mut *self.0 }
    }
}

pub struct Vec<T> {
    n: usize,
    e: <T as Elem>::S,
}
unsafe impl<T: Send> Send for Vec<T> {}
unsafe impl<T: Sync> Sync for Vec<T> {}
impl<T> Unpin for Vec<T> {}
impl<T> std::panic::UnwindSafe for Vec<T> {}
impl<T> std::panic::RefUnwindSafe for Vec<T> {}
#[inline(always)]
fn full(n: usize) {
    assert!(n < VCAP, "vcoll: capacity exceeded");
}

impl<T> Vec<T> {
    pub fn new() -> Self {
        Vec {
            n: 0,
            e: <T as Elem>::S::new(),
        }
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::new()
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn capacity(&self) -> usize {
        VCAP
    }
    #[inline(always)]
    pub fn len(&self) -> usize {
        self.n
    }
    #[inline(always)]
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    #[inline(always)]
    fn rd(&self, i: usize) -> T {
        self.e.a().rd(i)
    }
    #[inline(always)]
    fn at(&self, i: usize) -> &T {
        if <T as Elem>::SNAP {
            self.e.a().snap(i)
        } else {
            self.e.a().at(i)
        }
    }
    pub fn get<I: Idx<T>>(&self, i: I) -> Option<&I::Out> {
        i.get(self)
    }
    /// The first element that is not less than what is searched for.
    pub fn binary_search_by<F: FnMut(&T) -> Ordering>(&self, mut f: F) -> Result<usize, usize> {
        let mut i = 0;
        let mut r = Err(self.n);
        let mut found = false;
        while i < VCAP {
            if i < self.n && !found {
                match f(self.e.a().at(i)) {
                    Ordering::Less => {}
                    Ordering::Equal => {
                        r = Ok(i);
                        found = true;
                    }
                    Ordering::Greater => {
                        r = Err(i);
                        found = true;
                    }
                }
            }
            i += 1;
        }
        r
    }
    pub fn binary_search_by_key<B: Ord, F: FnMut(&T) -> B>(&self, b: &B, mut f: F) -> Result<usize, usize> {
        self.binary_search_by(|x| f(x).cmp(b))
    }
    pub fn binary_search(&self, t: &T) -> Result<usize, usize>
    where
        T: Ord,
    {
        self.binary_search_by(|x| x.cmp(t))
    }
    pub fn partition_point<P: FnMut(&T) -> bool>(&self, mut p: P) -> usize {
        match self.binary_search_by(|x| if p(x) { Ordering::Less } else { Ordering::Greater }) {
            Ok(i) | Err(i) => i,
        }
    }
    #[inline(always)]
    fn wr(&mut self, i: usize, t: T) {
        self.e.m().wr(i, t)
    }
    pub fn push(&mut self, t: T) {
        full(self.n);
        self.e.m().put(self.n, t);
        self.n += 1;
    }
    pub fn pop(&mut self) -> Option<T> {
        if self.n == 0 {
            return None;
        }
        self.n -= 1;
        Some(self.rd(self.n))
    }
    pub fn insert(&mut self, at: usize, t: T) {
        assert!(at <= self.n, "insertion index (is {}) should be <= len", at);
        full(self.n);
        self.e.m().open(at, self.n);
        self.e.m().put(at, t);
        self.n += 1;
    }
    pub fn remove(&mut self, at: usize) -> T {
        assert!(at < self.n, "removal index (is {}) should be < len", at);
        let r = self.rd(at);
        self.e.m().close(at, self.n);
        self.n -= 1;
        r
    }
    pub fn contains(&self, t: &T) -> bool
    where
        T: PartialEq,
    {
        let mut r = false;
        let mut i = 0;
        while i < VCAP {
            if i < self.n && *self.e.a().at(i) == *t {
                r = true;
            }
            i += 1;
        }
        r
    }
    pub fn swap(&mut self, a: usize, b: usize) {
        assert!(a < self.n && b < self.n, "index out of bounds");
        let x = self.rd(a);
        let y = self.rd(b);
        self.e.m().put(a, y);
        self.e.m().put(b, x);
    }
    pub fn swap_remove(&mut self, at: usize) -> T {
        assert!(at < self.n);
        let l = self.n - 1;
        self.swap(at, l);
        self.n = l;
        self.rd(l)
    }
    pub fn truncate(&mut self, n: usize) {
        let old = self.n;
        if n < self.n {
            self.n = n;
        }
        if std::mem::needs_drop::<T>() && old > n {
            self.e.m().drop_range(n, old);
        }
    }
    pub fn clear(&mut self) {
        self.truncate(0)
    }
    pub fn extend_from_slice(&mut self, s: &[T])
    where
        T: Clone,
    {
        for x in s {
            self.push(x.clone());
        }
    }
    pub fn append(&mut self, o: &mut Self) {
        let o = std::mem::replace(o, Vec::new());
        for x in o {
            self.push(x);
        }
    }
    pub fn resize(&mut self, n: usize, t: T)
    where
        T: Clone,
    {
        if n < self.n {
            self.truncate(n);
        }
        while self.n < n {
            self.push(t.clone());
        }
    }
    pub fn resize_with<F: FnMut() -> T>(&mut self, n: usize, mut f: F) {
        if n < self.n {
            self.truncate(n);
        }
        while self.n < n {
            self.push(f());
        }
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        let o = std::mem::replace(self, Vec::new());
        for x in o {
            if f(&x) {
                self.push(x);
            }
        }
    }
    pub fn dedup(&mut self)
    where
        T: PartialEq,
    {
        let o = std::mem::replace(self, Vec::new());
        for x in o {
            if self.n == 0 || *self.at(self.n - 1) != x {
                self.push(x);
            }
        }
    }
    fn range<R: RangeBounds<usize>>(&self, r: R) -> (usize, usize) {
        let a = match r.start_bound() {
            Bound::Included(x) => *x,
            Bound::Excluded(x) => *x + 1,
            Bound::Unbounded => 0,
        };
        let b = match r.end_bound() {
            Bound::Included(x) => *x + 1,
            Bound::Excluded(x) => *x,
            Bound::Unbounded => self.n,
        };
        assert!(a <= b, "slice index starts at {} but ends at {}", a, b);
        assert!(b <= self.n, "range end index {} out of range", b);
        (a, b)
    }
    pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> IntoIter<T> {
        let (a, b) = self.range(r);
        let o = std::mem::replace(self, Vec::new());
        let mut out = Vec::new();
        let mut i = 0;
        for x in o {
            if i >= a && i < b {
                out.push(x);
            } else {
                self.push(x);
            }
            i += 1;
        }
        out.into_iter()
    }
    pub fn split_off(&mut self, at: usize) -> Self {
        assert!(
            at <= self.n,
            "`at` split index (is {}) should be <= len",
            at
        );
        let mut out = Vec::new();
        let mut i = 0;
        while i < VCAP {
            if i >= at && i < self.n {
                out.push(self.rd(i));
            }
            i += 1;
        }
        self.n = at;
        out
    }
    pub fn splice<R: RangeBounds<usize>, I: IntoIterator<Item = T>>(
        &mut self,
        r: R,
        with: I,
    ) -> IntoIter<T> {
        let (a, b) = self.range(r);
        let tail = self.split_off(b);
        let out = self.split_off(a);
        for x in with {
            self.push(x);
        }
        for x in tail {
            self.push(x);
        }
        out.into_iter()
    }
    pub fn as_slice(&self) -> &[T] {
        if self.n == 0 {
            return &[];
        }
        self.e.a().slice(self.n)
    }
    pub fn as_mut_slice(&mut self) -> &mut [T] {
        let n = self.n;
        if n == 0 {
            return &mut [];
        }
        self.e.m().slice_mut(n)
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter {
            v: self,
            i: 0,
            j: self.n,
            s: 0,
        }
    }
    pub fn first(&self) -> Option<&T> {
        if self.n == 0 {
            None
        } else {
            Some(self.at(0))
        }
    }
    pub fn last(&self) -> Option<&T> {
        if self.n == 0 {
            None
        } else {
            Some(self.at(self.n - 1))
        }
    }
    pub fn to_vec(&self) -> Self
    where
        T: Clone,
    {
        self.clone()
    }
    pub fn into_boxed_slice(self) -> Box<[T]> {
        self.into_iter()
            .collect::<std::vec::Vec<_>>()
            .into_boxed_slice()
    }
    /// Moves the elements to a standard vector.
    pub fn std(self) -> std::vec::Vec<T> {
        self.into_iter().collect()
    }
}
/// What `get` and `[]` accept.
pub trait Idx<T> {
    type Out: ?Sized;
    fn get(self, v: &Vec<T>) -> Option<&Self::Out>;
    fn index(self, v: &Vec<T>) -> &Self::Out;
    fn index_mut(self, v: &mut Vec<T>) -> &mut Self::Out;
}
impl<T> Idx<T> for usize {
    type Out = T;
    #[inline(always)]
    fn get(self, v: &Vec<T>) -> Option<&T> {
        if self < v.n {
            Some(v.at(self))
        } else {
            None
        }
    }
    #[inline(always)]
    fn index(self, v: &Vec<T>) -> &T {
        assert!(self < v.n, "index out of bounds");
        v.at(self)
    }
    #[inline(always)]
    fn index_mut(self, v: &mut Vec<T>) -> &mut T {
        assert!(self < v.n, "index out of bounds");
        v.e.m().at_mut(self)
    }
}
macro_rules! idx_range {
    ($($r:ty),*) => {$(
        impl<T> Idx<T> for $r {
            type Out = [T];
            fn get(self, v: &Vec<T>) -> Option<&[T]> {
                v.as_slice().get(self)
            }
            fn index(self, v: &Vec<T>) -> &[T] {
                &v.as_slice()[self]
            }
            fn index_mut(self, v: &mut Vec<T>) -> &mut [T] {
                &mut v.as_mut_slice()[self]
            }
        }
    )*};
}
idx_range!(std::ops::RangeFrom<usize>, std::ops::RangeFull);
/// Part of a vector: a slice whose own iterator has constant indices.
pub struct View<T> {
    v: *const Vec<T>,
    a: usize,
    b: usize,
}
impl<T> View<T> {
    pub fn iter(&self) -> Iter<'_, T> {
        Iter {
            v: unsafe { &*self.v },
            i: self.a,
            j: self.b,
            s: 0,
        }
    }
    pub fn len(&self) -> usize {
        self.b - self.a
    }
    pub fn is_empty(&self) -> bool {
        self.b == self.a
    }
}
impl<T> Deref for View<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { &(&(*self.v).as_slice())[self.a..self.b] }
    }
}
impl<T> DerefMut for View<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        panic!("vcoll: capacity exceeded")
    }
}
impl<'a, T> IntoIterator for &'a View<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
macro_rules! idx_view {
    ($($r:ty),*) => {$(
        impl<T> Idx<T> for $r {
            type Out = View<T>;
            fn get(self, v: &Vec<T>) -> Option<&View<T>> {
                let b = match self.end_bound() {
                    Bound::Included(x) => *x + 1,
                    Bound::Excluded(x) => *x,
                    Bound::Unbounded => v.n,
                };
                if b > v.n {
                    None
                } else {
                    Some(self.index(v))
                }
            }
            fn index(self, v: &Vec<T>) -> &View<T> {
                let (a, b) = v.range(self);
                std::boxed::Box::leak(std::boxed::Box::new(View { v, a, b }))
            }
            fn index_mut(self, _v: &mut Vec<T>) -> &mut View<T> {
                panic!("vcoll: capacity exceeded")
            }
        }
    )*};
}
idx_view!(std::ops::Range<usize>, std::ops::RangeTo<usize>, std::ops::RangeToInclusive<usize>, std::ops::RangeInclusive<usize>);
impl<T, I: Idx<T>> std::ops::Index<I> for Vec<T> {
    type Output = I::Out;
    #[inline(always)]
    fn index(&self, i: I) -> &I::Out {
        i.index(self)
    }
}
impl<T, I: Idx<T>> std::ops::IndexMut<I> for Vec<T> {
    #[inline(always)]
    fn index_mut(&mut self, i: I) -> &mut I::Out {
        i.index_mut(self)
    }
}
impl<T> Drop for Vec<T> {
    fn drop(&mut self) {
        if std::mem::needs_drop::<T>() {
            self.truncate(0)
        }
    }
}
impl<T> Deref for Vec<T> {
    type Target = [T];
    #[inline(always)]
    fn deref(&self) -> &[T] {
        self.as_slice()
    }
}
impl<T> DerefMut for Vec<T> {
    #[inline(always)]
    fn deref_mut(&mut self) -> &mut [T] {
        self.as_mut_slice()
    }
}

pub struct Iter<'a, T> {
    v: &'a Vec<T>,
    i: usize,
    j: usize,
    s: usize,
}
impl<T> Clone for Iter<'_, T> {
    fn clone(&self) -> Self {
        Iter {
            v: self.v,
            i: self.i,
            j: self.j,
            s: self.s,
        }
    }
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    #[inline(always)]
    fn next(&mut self) -> Option<&'a T> {
        let i = self.i;
        self.i = i + 1;
        if i + self.s < self.j && i < VCAP {
            Some(self.v.at(i))
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (
            self.j.saturating_sub(self.i + self.s),
            Some(self.j.saturating_sub(self.i + self.s)),
        )
    }
}
impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
    fn next_back(&mut self) -> Option<&'a T> {
        let s = self.s;
        self.s = s + 1;
        if self.i + s < self.j && s < VCAP {
            Some(self.v.at(self.j - 1 - s))
        } else {
            None
        }
    }
}
impl<T> ExactSizeIterator for Iter<'_, T> {}

pub struct IntoIter<T> {
    v: ManuallyDrop<Vec<T>>,
    i: usize,
    s: usize,
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    #[inline(always)]
    fn next(&mut self) -> Option<T> {
        let i = self.i;
        self.i = i + 1;
        if i + self.s < self.v.n && i < VCAP {
            Some(self.v.rd(i))
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (
            self.v.n.saturating_sub(self.i + self.s),
            Some(self.v.n.saturating_sub(self.i + self.s)),
        )
    }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        let s = self.s;
        self.s = s + 1;
        if self.i + s < self.v.n && s < VCAP {
            Some(self.v.rd(self.v.n - 1 - s))
        } else {
            None
        }
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> Drop for IntoIter<T> {
    fn drop(&mut self) {
        if std::mem::needs_drop::<T>() {
            let n = self.v.n.saturating_sub(self.s);
            if n > self.i {
                self.v.e.m().drop_range(self.i, n);
            }
        }
    }
}
impl<T: fmt::Debug> fmt::Debug for IntoIter<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("IntoIter")
    }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter {
            v: ManuallyDrop::new(self),
            i: 0,
            s: 0,
        }
    }
}
impl<'a, T> IntoIterator for &'a Vec<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<'a, T> IntoIterator for &'a mut Vec<T> {
    type Item = &'a mut T;
    type IntoIter = std::slice::IterMut<'a, T>;
    fn into_iter(self) -> std::slice::IterMut<'a, T> {
        self.as_mut_slice().iter_mut()
    }
}
impl<T> FromIterator<T> for Vec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut v = Vec::new();
        for x in it {
            v.push(x);
        }
        v
    }
}
impl<T> Extend<T> for Vec<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for x in it {
            self.push(x);
        }
    }
}
impl<'a, T: Copy + 'a> Extend<&'a T> for Vec<T> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
        for x in it {
            self.push(*x);
        }
    }
}
impl<T, const N: usize> From<[T; N]> for Vec<T> {
    #[inline(always)]
    fn from(a: [T; N]) -> Self {
        assert!(N <= VCAP, "vcoll: capacity exceeded");
        let a = ManuallyDrop::new(a);
        let mut v = Vec::new();
        let mut i = 0;
        while i < N {
            v.wr(i, unsafe { ptr::read(&a[i]) });
            i += 1;
        }
        v.n = N;
        v
    }
}
impl<T> From<std::vec::Vec<T>> for Vec<T> {
    fn from(a: std::vec::Vec<T>) -> Self {
        a.into_iter().collect()
    }
}
impl<T: Clone> From<&[T]> for Vec<T> {
    fn from(a: &[T]) -> Self {
        a.iter().cloned().collect()
    }
}
impl<T> Default for Vec<T> {
    fn default() -> Self {
        Vec::new()
    }
}
impl<T: Clone> Clone for Vec<T> {
    fn clone(&self) -> Self {
        let mut v = Vec::new();
        let mut i = 0;
        while i < VCAP {
            if i < self.n {
                v.wr(i, self.at(i).clone());
            }
            i += 1;
        }
        v.n = self.n;
        v
    }
}
fn same<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < VCAP && i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
impl<T: PartialEq<U>, U> PartialEq<Vec<U>> for Vec<T> {
    fn eq(&self, o: &Vec<U>) -> bool {
        same(self, o)
    }
}
impl<T: PartialEq<U>, U> PartialEq<[U]> for Vec<T> {
    fn eq(&self, o: &[U]) -> bool {
        same(self, o)
    }
}
impl<T: PartialEq<U>, U> PartialEq<&[U]> for Vec<T> {
    fn eq(&self, o: &&[U]) -> bool {
        same(self, o)
    }
}
impl<T: PartialEq<U>, U, const N: usize> PartialEq<[U; N]> for Vec<T> {
    fn eq(&self, o: &[U; N]) -> bool {
        same(self, o)
    }
}
impl<T: Eq> Eq for Vec<T> {}
impl<T: PartialOrd> PartialOrd for Vec<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.iter().partial_cmp(o.iter())
    }
}
impl<T: Ord> Ord for Vec<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.iter().cmp(o.iter())
    }
}
impl<T: Hash> Hash for Vec<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.as_slice().hash(h)
    }
}
impl<T: fmt::Debug> fmt::Debug for Vec<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}
impl<T> AsRef<[T]> for Vec<T> {
    fn as_ref(&self) -> &[T] {
        self
    }
}
impl<T> AsMut<[T]> for Vec<T> {
    fn as_mut(&mut self) -> &mut [T] {
        self
    }
}
impl<T> Borrow<[T]> for Vec<T> {
    fn borrow(&self) -> &[T] {
        self
    }
}
impl<T> BorrowMut<[T]> for Vec<T> {
    fn borrow_mut(&mut self) -> &mut [T] {
        self
    }
}
pub fn repeat<T: Clone>(t: T, n: usize) -> Vec<T> {
    let mut v = Vec::new();
    v.resize(n, t);
    v
}
#[macro_export]
macro_rules! vec {
    () => { $crate::Vec::new() };
    ($e:expr; $n:expr) => { $crate::vec_mod::repeat($e, $n) };
    ($($x:expr),+ $(,)?) => { $crate::Vec::from([$($x),+]) };
}
mod pool_set {
    use super::*;
    type T = crate::btree_set::BTreeSet<u8>;
    const N: usize = 16;
    static mut POOL: [Arr<T, VCAP>; N] = unsafe { std::mem::MaybeUninit::zeroed().assume_init() };
    static mut NEXT: usize = 0;
    impl Elem for T {
        type S = Ref<T>;
        #[inline(always)]
        fn place() -> *mut Arr<T, VCAP> {
            unsafe {
                let i = NEXT;
                assert!(i < N, "vcoll: capacity exceeded");
                NEXT = i + 1;
                std::ptr::addr_of_mut!(POOL[i])
            }
        }
    }
}
