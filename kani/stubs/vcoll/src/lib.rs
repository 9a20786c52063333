//! Stand-ins for the standard ordered collections: bounded, inline, sorted arrays.
//!
//! They have the documented behaviour of `std::collections::{BTreeMap, BTreeSet, VecDeque}` up to
//! `CAP` elements and panic beyond (the checks treat that panic as "outside the bound": it does
//! not reproduce on the real collections).  Counterexamples are replayed on the real ones.
#![allow(clippy::all, incomplete_features)]
#![feature(specialization)]

mod arc;
pub mod boxed;
pub use boxed::Box;
mod arr;
pub use arc::Arc;
mod vec;
pub use vec::Elem;
pub use vec::Ref;
pub use vec::Vec;
pub use arr::Arr;
pub mod vec_mod {
    pub use super::vec::*;
}

pub use std::collections::hash_map;
pub use std::collections::hash_set;
pub use std::collections::BinaryHeap;
pub use std::collections::HashMap;
pub use std::collections::HashSet;
pub use std::collections::LinkedList;

/// Largest number of elements of an ordered map or set.
pub const CAP: usize = num(option_env!("VCOLL_CAP"), 4);
pub(crate) const fn num(s: Option<&'static str>, d: usize) -> usize {
    match s {
        Some(s) => (s.as_bytes()[0] - b'0') as usize,
        None => d,
    }
}
/// Largest number of elements of a deque.
pub const DCAP: usize = 10;

pub mod btree_map {
    use super::arr::Arr;
    use super::CAP;
    use std::borrow::Borrow;
    use std::cmp::Ordering;
    use std::fmt;
    use std::hash::Hash;
    use std::hash::Hasher;
    use std::ops::Bound;
    use std::ops::Index;
    use std::ops::RangeBounds;

    pub struct BTreeMap<K, V> {
        pub(crate) n: usize,
        pub(crate) k: Arr<K, CAP>,
        pub(crate) v: Arr<V, CAP>,
    }

    impl<K, V> BTreeMap<K, V> {
        pub fn new() -> Self {
            BTreeMap {
                n: 0,
                k: Arr::new(),
                v: Arr::new(),
            }
        }
        pub fn len(&self) -> usize {
            self.n
        }
        pub fn is_empty(&self) -> bool {
            self.n == 0
        }
        pub fn clear(&mut self) {
            let n = self.n;
            self.n = 0;
            self.k.drop_range(0, n);
            self.v.drop_range(0, n);
        }
        pub fn iter(&self) -> Iter<'_, K, V> {
            Iter {
                m: self,
                i: 0,
                j: self.n,
                s: 0,
            }
        }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
            IterMut {
                m: self,
                i: 0,
                p: std::marker::PhantomData,
            }
        }
        pub fn keys(&self) -> Keys<'_, K, V> {
            Keys { it: self.iter() }
        }
        pub fn values(&self) -> Values<'_, K, V> {
            Values { it: self.iter() }
        }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
            ValuesMut {
                it: self.iter_mut(),
            }
        }
        pub fn into_keys(self) -> crate::vec::IntoIter<K> {
            let mut v = crate::Vec::new();
            for (k, _) in self {
                v.push(k);
            }
            v.into_iter()
        }
        pub fn into_values(self) -> crate::vec::IntoIter<V> {
            let mut v = crate::Vec::new();
            for (_, x) in self {
                v.push(x);
            }
            v.into_iter()
        }
        #[inline(always)]
        fn at(&self, i: usize) -> (&K, &V) {
            (self.k.at(i), self.v.at(i))
        }
        pub fn first_key_value(&self) -> Option<(&K, &V)> {
            if self.n == 0 {
                None
            } else {
                Some(self.at(0))
            }
        }
        pub fn last_key_value(&self) -> Option<(&K, &V)> {
            if self.n == 0 {
                None
            } else {
                Some(self.at(self.n - 1))
            }
        }
        pub fn pop_first(&mut self) -> Option<(K, V)> {
            if self.n == 0 {
                None
            } else {
                self.take_at(0)
            }
        }
        pub fn pop_last(&mut self) -> Option<(K, V)> {
            if self.n == 0 {
                None
            } else {
                self.take_at(self.n - 1)
            }
        }
        fn take_at(&mut self, i: usize) -> Option<(K, V)> {
            let r = (self.k.rd(i), self.v.rd(i));
            self.k.close(i, self.n);
            self.v.close(i, self.n);
            self.n -= 1;
            Some(r)
        }
        pub fn retain<F>(&mut self, mut f: F)
        where
            F: FnMut(&K, &mut V) -> bool,
        {
            let old = std::mem::replace(self, BTreeMap::new());
            for (k, mut v) in old {
                if f(&k, &mut v) {
                    self.k.put(self.n, k);
                    self.v.put(self.n, v);
                    self.n += 1;
                }
            }
        }
    }

    impl<K: Ord, V> BTreeMap<K, V> {
        /// Number of keys smaller than `k`, and whether `k` is present.
        fn find<Q: ?Sized + Ord>(&self, k: &Q) -> (usize, bool)
        where
            K: Borrow<Q>,
        {
            let mut i = 0;
            while i < CAP {
                if i >= self.n {
                    return (i, false);
                }
                match self.k.at(i).borrow().cmp(k) {
                    Ordering::Less => {}
                    Ordering::Equal => return (i, true),
                    Ordering::Greater => return (i, false),
                }
                i += 1;
            }
            (self.n, false)
        }
        pub fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
        {
            let (i, f) = self.find(k);
            if f {
                Some(self.at(i).1)
            } else {
                None
            }
        }
        pub fn get_key_value<Q: ?Sized + Ord>(&self, k: &Q) -> Option<(&K, &V)>
        where
            K: Borrow<Q>,
        {
            let (i, f) = self.find(k);
            if f {
                Some(self.at(i))
            } else {
                None
            }
        }
        pub fn get_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V>
        where
            K: Borrow<Q>,
        {
            let (i, f) = self.find(k);
            if f {
                Some(self.v.at_mut(i))
            } else {
                None
            }
        }
        pub fn contains_key<Q: ?Sized + Ord>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.find(k).1
        }
        fn insert_at(&mut self, i: usize, k: K, v: V) {
            assert!(self.n < CAP, "vcoll: capacity exceeded");
            self.k.open(i, self.n);
            self.v.open(i, self.n);
            self.k.put(i, k);
            self.v.put(i, v);
            self.n += 1;
        }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            let (i, f) = self.find(&k);
            if f {
                Some(std::mem::replace(self.v.at_mut(i), v))
            } else {
                self.insert_at(i, k, v);
                None
            }
        }
        pub fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            self.remove_entry(k).map(|x| x.1)
        }
        pub fn remove_entry<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<(K, V)>
        where
            K: Borrow<Q>,
        {
            let (i, f) = self.find(k);
            if f {
                self.take_at(i)
            } else {
                None
            }
        }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
            let (i, f) = self.find(&k);
            if f {
                Entry::Occupied(OccupiedEntry { m: self, i, k })
            } else {
                Entry::Vacant(VacantEntry { m: self, i, k })
            }
        }
        pub fn append(&mut self, other: &mut Self) {
            let o = std::mem::replace(other, BTreeMap::new());
            for (k, v) in o {
                self.insert(k, v);
            }
        }
        pub fn split_off<Q: ?Sized + Ord>(&mut self, k: &Q) -> Self
        where
            K: Borrow<Q>,
        {
            let old = std::mem::replace(self, BTreeMap::new());
            let mut r = BTreeMap::new();
            for (x, v) in old {
                if x.borrow() < k {
                    self.insert(x, v);
                } else {
                    r.insert(x, v);
                }
            }
            r
        }
        pub fn range<Q: ?Sized + Ord, R: RangeBounds<Q>>(&self, r: R) -> Iter<'_, K, V>
        where
            K: Borrow<Q>,
        {
            let i = match r.start_bound() {
                Bound::Unbounded => 0,
                Bound::Included(k) => self.find(k).0,
                Bound::Excluded(k) => {
                    let (i, f) = self.find(k);
                    if f {
                        i + 1
                    } else {
                        i
                    }
                }
            };
            let j = match r.end_bound() {
                Bound::Unbounded => self.n,
                Bound::Excluded(k) => self.find(k).0,
                Bound::Included(k) => {
                    let (j, f) = self.find(k);
                    if f {
                        j + 1
                    } else {
                        j
                    }
                }
            };
            Iter {
                m: self,
                i,
                j: if j < i { i } else { j },
                s: 0,
            }
        }
    }

    pub enum Entry<'a, K, V> {
        Vacant(VacantEntry<'a, K, V>),
        Occupied(OccupiedEntry<'a, K, V>),
    }
    pub struct VacantEntry<'a, K, V> {
        m: &'a mut BTreeMap<K, V>,
        i: usize,
        k: K,
    }
    pub struct OccupiedEntry<'a, K, V> {
        m: &'a mut BTreeMap<K, V>,
        i: usize,
        k: K,
    }
    impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
        pub fn insert(self, v: V) -> &'a mut V {
            self.m.insert_at(self.i, self.k, v);
            self.m.v.at_mut(self.i)
        }
        pub fn key(&self) -> &K {
            &self.k
        }
    }
    impl<'a, K: Ord, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> &V {
            self.m.at(self.i).1
        }
        pub fn get_mut(&mut self) -> &mut V {
            self.m.v.at_mut(self.i)
        }
        pub fn into_mut(self) -> &'a mut V {
            self.m.v.at_mut(self.i)
        }
        pub fn insert(&mut self, v: V) -> V {
            std::mem::replace(self.get_mut(), v)
        }
        pub fn remove(self) -> V {
            match self.m.take_at(self.i) {
                Some((_, v)) => v,
                None => unreachable!(),
            }
        }
        pub fn key(&self) -> &K {
            &self.k
        }
    }
    impl<'a, K: Ord, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            match self {
                Entry::Vacant(e) => e.insert(v),
                Entry::Occupied(e) => e.into_mut(),
            }
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Vacant(e) => e.insert(f()),
                Entry::Occupied(e) => e.into_mut(),
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
            if let Entry::Occupied(e) = &mut self {
                f(e.get_mut());
            }
            self
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Vacant(e) => &e.k,
                Entry::Occupied(e) => &e.k,
            }
        }
    }

    pub struct Iter<'a, K, V> {
        m: &'a BTreeMap<K, V>,
        i: usize,
        j: usize,
        s: usize,
    }
    impl<'a, K, V> Clone for Iter<'a, K, V> {
        fn clone(&self) -> Self {
            Iter {
                m: self.m,
                i: self.i,
                j: self.j,
                s: self.s,
            }
        }
    }
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        #[inline(always)]
        fn next(&mut self) -> Option<Self::Item> {
            let i = self.i;
            self.i = i + 1;
            if i + self.s < self.j && i < CAP {
                Some(self.m.at(i))
            } else {
                None
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (
                self.j.saturating_sub(self.i + self.s),
                Some(self.j.saturating_sub(self.i + self.s)),
            )
        }
    }
    impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> {
        fn next_back(&mut self) -> Option<Self::Item> {
            let s = self.s;
            self.s = s + 1;
            if self.i + s < self.j && s < CAP {
                Some(self.m.at(self.j - 1 - s))
            } else {
                None
            }
        }
    }
    impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}

    pub struct IterMut<'a, K, V> {
        m: *mut BTreeMap<K, V>,
        i: usize,
        p: std::marker::PhantomData<&'a mut BTreeMap<K, V>>,
    }
    impl<'a, K, V> Iterator for IterMut<'a, K, V> {
        type Item = (&'a K, &'a mut V);
        fn next(&mut self) -> Option<Self::Item> {
            let m: &'a BTreeMap<K, V> = unsafe { &*self.m };
            let i = self.i;
            self.i = i + 1;
            if i < m.n && i < CAP {
                Some((m.k.at(i), unsafe { &mut *m.v.raw(i) }))
            } else {
                None
            }
        }
    }
    pub struct Keys<'a, K, V> {
        it: Iter<'a, K, V>,
    }
    impl<'a, K, V> Clone for Keys<'a, K, V> {
        fn clone(&self) -> Self {
            Keys {
                it: self.it.clone(),
            }
        }
    }
    impl<'a, K, V> Iterator for Keys<'a, K, V> {
        type Item = &'a K;
        fn next(&mut self) -> Option<&'a K> {
            match self.it.next() {
                Some((k, _)) => Some(k),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.it.size_hint()
        }
    }
    impl<'a, K, V> DoubleEndedIterator for Keys<'a, K, V> {
        fn next_back(&mut self) -> Option<&'a K> {
            self.it.next_back().map(|x| x.0)
        }
    }
    impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> {}
    pub struct Values<'a, K, V> {
        it: Iter<'a, K, V>,
    }
    impl<'a, K, V> Clone for Values<'a, K, V> {
        fn clone(&self) -> Self {
            Values {
                it: self.it.clone(),
            }
        }
    }
    impl<'a, K, V> Iterator for Values<'a, K, V> {
        type Item = &'a V;
        fn next(&mut self) -> Option<&'a V> {
            match self.it.next() {
                Some((_, v)) => Some(v),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.it.size_hint()
        }
    }
    impl<'a, K, V> DoubleEndedIterator for Values<'a, K, V> {
        fn next_back(&mut self) -> Option<&'a V> {
            self.it.next_back().map(|x| x.1)
        }
    }
    impl<'a, K, V> ExactSizeIterator for Values<'a, K, V> {}
    pub struct ValuesMut<'a, K, V> {
        it: IterMut<'a, K, V>,
    }
    impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
        type Item = &'a mut V;
        fn next(&mut self) -> Option<&'a mut V> {
            self.it.next().map(|x| x.1)
        }
    }

    pub struct IntoIter<K, V> {
        m: std::mem::ManuallyDrop<BTreeMap<K, V>>,
        i: usize,
        j: usize,
        s: usize,
    }
    impl<K, V> Iterator for IntoIter<K, V> {
        type Item = (K, V);
        #[inline(always)]
        fn next(&mut self) -> Option<(K, V)> {
            let i = self.i;
            self.i = i + 1;
            if i + self.s < self.j && i < CAP {
                Some((self.m.k.rd(i), self.m.v.rd(i)))
            } else {
                None
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (
                self.j.saturating_sub(self.i + self.s),
                Some(self.j.saturating_sub(self.i + self.s)),
            )
        }
    }
    impl<K, V> DoubleEndedIterator for IntoIter<K, V> {
        fn next_back(&mut self) -> Option<(K, V)> {
            let s = self.s;
            self.s = s + 1;
            if self.i + s < self.j && s < CAP {
                let j = self.j - 1 - s;
                Some((self.m.k.rd(j), self.m.v.rd(j)))
            } else {
                None
            }
        }
    }
    impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
    impl<K, V> Drop for IntoIter<K, V> {
        fn drop(&mut self) {
            let j = self.j.saturating_sub(self.s);
            self.m.k.drop_range(self.i, j);
            self.m.v.drop_range(self.i, j);
        }
    }
    impl<K, V> Drop for BTreeMap<K, V> {
        fn drop(&mut self) {
            self.k.drop_range(0, self.n);
            self.v.drop_range(0, self.n);
        }
    }
    impl<K, V> IntoIterator for BTreeMap<K, V> {
        type Item = (K, V);
        type IntoIter = IntoIter<K, V>;
        fn into_iter(self) -> IntoIter<K, V> {
            let j = self.n;
            IntoIter {
                m: std::mem::ManuallyDrop::new(self),
                i: 0,
                j,
                s: 0,
            }
        }
    }
    impl<'a, K, V> IntoIterator for &'a BTreeMap<K, V> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> {
            self.iter()
        }
    }
    impl<'a, K, V> IntoIterator for &'a mut BTreeMap<K, V> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> {
            self.iter_mut()
        }
    }
    impl<K: Ord, V> FromIterator<(K, V)> for BTreeMap<K, V> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
            let mut m = BTreeMap::new();
            for (k, v) in it {
                m.insert(k, v);
            }
            m
        }
    }
    impl<K: Ord, V> Extend<(K, V)> for BTreeMap<K, V> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
            for (k, v) in it {
                self.insert(k, v);
            }
        }
    }
    impl<'a, K: Ord + Copy, V: Copy> Extend<(&'a K, &'a V)> for BTreeMap<K, V> {
        fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) {
            for (k, v) in it {
                self.insert(*k, *v);
            }
        }
    }
    impl<K: Ord, V, const N: usize> From<[(K, V); N]> for BTreeMap<K, V> {
        fn from(a: [(K, V); N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<K, V> Default for BTreeMap<K, V> {
        fn default() -> Self {
            BTreeMap::new()
        }
    }
    impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
        fn clone(&self) -> Self {
            let mut m = BTreeMap::new();
            let mut i = 0;
            while i < CAP {
                if i < self.n {
                    m.k.wr(i, self.k.at(i).clone());
                    m.v.wr(i, self.v.at(i).clone());
                }
                i += 1;
            }
            m.n = self.n;
            m
        }
    }
    impl<K: PartialEq, V: PartialEq> PartialEq for BTreeMap<K, V> {
        fn eq(&self, o: &Self) -> bool {
            if self.n != o.n {
                return false;
            }
            let mut i = 0;
            while i < CAP {
                if i < self.n && (self.k.at(i) != o.k.at(i) || self.v.at(i) != o.v.at(i)) {
                    return false;
                }
                i += 1;
            }
            true
        }
    }
    impl<K: Eq, V: Eq> Eq for BTreeMap<K, V> {}
    impl<K: PartialOrd, V: PartialOrd> PartialOrd for BTreeMap<K, V> {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            self.iter().partial_cmp(o.iter())
        }
    }
    impl<K: Ord, V: Ord> Ord for BTreeMap<K, V> {
        fn cmp(&self, o: &Self) -> Ordering {
            self.iter().cmp(o.iter())
        }
    }
    impl<K: Hash, V: Hash> Hash for BTreeMap<K, V> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            self.n.hash(h);
            for x in self.iter() {
                x.hash(h);
            }
        }
    }
    impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for BTreeMap<K, V> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_map().entries(self.iter()).finish()
        }
    }
    impl<K: Borrow<Q> + Ord, Q: ?Sized + Ord, V> Index<&Q> for BTreeMap<K, V> {
        type Output = V;
        fn index(&self, k: &Q) -> &V {
            self.get(k).expect("no entry found for key")
        }
    }
}

pub mod btree_set {
    use super::btree_map;
    use super::BTreeMap;
    use super::CAP;
    use std::borrow::Borrow;
    use std::cmp::Ordering;
    use std::fmt;
    use std::hash::Hash;
    use std::hash::Hasher;
    use std::ops::BitAnd;
    use std::ops::BitOr;
    use std::ops::BitXor;
    use std::ops::RangeBounds;
    use std::ops::Sub;

    /// The value of every key; not zero-sized, which the back end cannot handle in arrays.
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct U(u8);
    pub struct BTreeSet<T> {
        m: BTreeMap<T, U>,
    }
    impl<T> BTreeSet<T> {
        pub fn new() -> Self {
            BTreeSet { m: BTreeMap::new() }
        }
        pub fn len(&self) -> usize {
            self.m.len()
        }
        pub fn is_empty(&self) -> bool {
            self.m.is_empty()
        }
        pub fn clear(&mut self) {
            self.m.clear()
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter { it: self.m.iter() }
        }
        pub fn first(&self) -> Option<&T> {
            self.m.first_key_value().map(|x| x.0)
        }
        pub fn last(&self) -> Option<&T> {
            self.m.last_key_value().map(|x| x.0)
        }
        pub fn pop_first(&mut self) -> Option<T> {
            self.m.pop_first().map(|x| x.0)
        }
        pub fn pop_last(&mut self) -> Option<T> {
            self.m.pop_last().map(|x| x.0)
        }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
            self.m.retain(|k, _| f(k))
        }
    }
    impl<T: Ord> BTreeSet<T> {
        pub fn contains<Q: ?Sized + Ord>(&self, k: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.m.contains_key(k)
        }
        pub fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&T>
        where
            T: Borrow<Q>,
        {
            self.m.get_key_value(k).map(|x| x.0)
        }
        pub fn insert(&mut self, t: T) -> bool {
            self.m.insert(t, U(0)).is_none()
        }
        pub fn replace(&mut self, t: T) -> Option<T> {
            let r = self.m.remove_entry(&t).map(|x| x.0);
            self.m.insert(t, U(0));
            r
        }
        pub fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.m.remove(k).is_some()
        }
        pub fn take<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<T>
        where
            T: Borrow<Q>,
        {
            self.m.remove_entry(k).map(|x| x.0)
        }
        pub fn append(&mut self, o: &mut Self) {
            self.m.append(&mut o.m)
        }
        pub fn split_off<Q: ?Sized + Ord>(&mut self, k: &Q) -> Self
        where
            T: Borrow<Q>,
        {
            BTreeSet {
                m: self.m.split_off(k),
            }
        }
        pub fn range<Q: ?Sized + Ord, R: RangeBounds<Q>>(&self, r: R) -> Iter<'_, T>
        where
            T: Borrow<Q>,
        {
            Iter {
                it: self.m.range(r),
            }
        }
        pub fn is_subset(&self, o: &Self) -> bool {
            self.iter().all(|x| o.contains(x))
        }
        pub fn is_superset(&self, o: &Self) -> bool {
            o.is_subset(self)
        }
        pub fn is_disjoint(&self, o: &Self) -> bool {
            !self.iter().any(|x| o.contains(x))
        }
        pub fn union<'a>(&'a self, o: &'a Self) -> Refs<'a, T> {
            let mut r = Refs::new();
            for x in self.iter() {
                r.push(x);
            }
            for x in o.iter() {
                r.merge(x);
            }
            r
        }
        pub fn intersection<'a>(&'a self, o: &'a Self) -> Refs<'a, T> {
            let mut r = Refs::new();
            for x in self.iter() {
                if o.contains(x) {
                    r.push(x);
                }
            }
            r
        }
        pub fn difference<'a>(&'a self, o: &'a Self) -> Refs<'a, T> {
            let mut r = Refs::new();
            for x in self.iter() {
                if !o.contains(x) {
                    r.push(x);
                }
            }
            r
        }
        pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> Refs<'a, T> {
            let mut r = Refs::new();
            for x in self.iter() {
                if !o.contains(x) {
                    r.push(x);
                }
            }
            for x in o.iter() {
                if !self.contains(x) {
                    r.merge(x);
                }
            }
            r
        }
    }

    /// The result of a set operation: bit copies of the elements, which the iterator hands out by
    /// reference.  Such a reference is good until the iterator moves: enough for a `for` loop and for
    /// `copied()` or `cloned()`.
    pub struct Refs<'a, T> {
        a: crate::arr::Arr<T, CAP>,
        i: usize,
        n: usize,
        p: std::marker::PhantomData<&'a T>,
    }
    impl<'a, T> Refs<'a, T> {
        fn new() -> Self {
            Refs {
                a: crate::arr::Arr::new(),
                i: 0,
                n: 0,
                p: std::marker::PhantomData,
            }
        }
        fn push(&mut self, t: &'a T) {
            assert!(self.n < CAP, "vcoll: capacity exceeded");
            self.a.put(self.n, unsafe { std::ptr::read(t) });
            self.n += 1;
        }
        /// Inserts in order unless present.
        fn merge(&mut self, t: &'a T)
        where
            T: Ord,
        {
            let mut less = 0;
            let mut i = 0;
            while i < CAP {
                if i < self.n {
                    match self.a.at(i).cmp(t) {
                        Ordering::Less => less += 1,
                        Ordering::Equal => return,
                        Ordering::Greater => {}
                    }
                }
                i += 1;
            }
            assert!(self.n < CAP, "vcoll: capacity exceeded");
            self.a.open(less, self.n);
            self.a.put(less, unsafe { std::ptr::read(t) });
            self.n += 1;
        }
    }
    impl<'a, T> Clone for Refs<'a, T> {
        fn clone(&self) -> Self {
            Refs {
                a: unsafe { std::ptr::read(&self.a) },
                i: self.i,
                n: self.n,
                p: std::marker::PhantomData,
            }
        }
    }
    impl<'a, T> Iterator for Refs<'a, T> {
        type Item = &'a T;
        #[inline(always)]
        fn next(&mut self) -> Option<&'a T> {
            let i = self.i;
            self.i = i + 1;
            if i < self.n && i < CAP {
                Some(unsafe { &*(self.a.raw(i) as *const T) })
            } else {
                None
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            (
                self.n.saturating_sub(self.i),
                Some(self.n.saturating_sub(self.i)),
            )
        }
    }

    pub struct Iter<'a, T> {
        it: btree_map::Iter<'a, T, U>,
    }
    impl<'a, T> Clone for Iter<'a, T> {
        fn clone(&self) -> Self {
            Iter {
                it: self.it.clone(),
            }
        }
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = &'a T;
        #[inline(always)]
        fn next(&mut self) -> Option<&'a T> {
            match self.it.next() {
                Some((k, _)) => Some(k),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.it.size_hint()
        }
    }
    impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
        fn next_back(&mut self) -> Option<&'a T> {
            self.it.next_back().map(|x| x.0)
        }
    }
    impl<'a, T> ExactSizeIterator for Iter<'a, T> {}

    pub struct IntoIter<T> {
        it: btree_map::IntoIter<T, U>,
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        #[inline(always)]
        fn next(&mut self) -> Option<T> {
            match self.it.next() {
                Some((k, _)) => Some(k),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.it.size_hint()
        }
    }
    impl<T> DoubleEndedIterator for IntoIter<T> {
        fn next_back(&mut self) -> Option<T> {
            self.it.next_back().map(|x| x.0)
        }
    }
    impl<T> ExactSizeIterator for IntoIter<T> {}
    impl<T> IntoIterator for BTreeSet<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter {
                it: self.m.into_iter(),
            }
        }
    }
    impl<'a, T> IntoIterator for &'a BTreeSet<T> {
        type Item = &'a T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    impl<T: Ord> FromIterator<T> for BTreeSet<T> {
        fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
            let mut s = BTreeSet::new();
            for x in it {
                s.insert(x);
            }
            s
        }
    }
    impl<T: Ord> Extend<T> for BTreeSet<T> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
            for x in it {
                self.insert(x);
            }
        }
    }
    impl<'a, T: Ord + Copy + 'a> Extend<&'a T> for BTreeSet<T> {
        fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
            for x in it {
                self.insert(*x);
            }
        }
    }
    impl<T: Ord, const N: usize> From<[T; N]> for BTreeSet<T> {
        fn from(a: [T; N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<T> Default for BTreeSet<T> {
        fn default() -> Self {
            BTreeSet::new()
        }
    }
    impl<T: Clone> Clone for BTreeSet<T> {
        fn clone(&self) -> Self {
            BTreeSet { m: self.m.clone() }
        }
    }
    impl<T: PartialEq> PartialEq for BTreeSet<T> {
        fn eq(&self, o: &Self) -> bool {
            self.m == o.m
        }
    }
    impl<T: Eq> Eq for BTreeSet<T> {}
    impl<T: PartialOrd> PartialOrd for BTreeSet<T> {
        fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
            self.iter().partial_cmp(o.iter())
        }
    }
    impl<T: Ord> Ord for BTreeSet<T> {
        fn cmp(&self, o: &Self) -> Ordering {
            self.iter().cmp(o.iter())
        }
    }
    impl<T: Hash> Hash for BTreeSet<T> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            self.m.hash(h)
        }
    }
    impl<T: fmt::Debug> fmt::Debug for BTreeSet<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_set().entries(self.iter()).finish()
        }
    }
    impl<T: Ord + Clone> BitOr<&BTreeSet<T>> for &BTreeSet<T> {
        type Output = BTreeSet<T>;
        fn bitor(self, o: &BTreeSet<T>) -> BTreeSet<T> {
            self.union(o).cloned().collect()
        }
    }
    impl<T: Ord + Clone> BitAnd<&BTreeSet<T>> for &BTreeSet<T> {
        type Output = BTreeSet<T>;
        fn bitand(self, o: &BTreeSet<T>) -> BTreeSet<T> {
            self.intersection(o).cloned().collect()
        }
    }
    impl<T: Ord + Clone> BitXor<&BTreeSet<T>> for &BTreeSet<T> {
        type Output = BTreeSet<T>;
        fn bitxor(self, o: &BTreeSet<T>) -> BTreeSet<T> {
            self.symmetric_difference(o).cloned().collect()
        }
    }
    impl<T: Ord + Clone> Sub<&BTreeSet<T>> for &BTreeSet<T> {
        type Output = BTreeSet<T>;
        fn sub(self, o: &BTreeSet<T>) -> BTreeSet<T> {
            self.difference(o).cloned().collect()
        }
    }
}

/// Lets a harness observe the elements pushed to a deque at the push site instead of storing them.
pub trait Sink {
    const SUNK: bool;
    fn sink(t: &Self);
}
impl<T> Sink for T {
    default const SUNK: bool = false;
    default fn sink(_t: &Self) {}
}

pub mod vec_deque {
    use super::Sink;
    use super::arr::Arr;
    use super::DCAP;
    use std::fmt;
    use std::ops::Index;
    use std::ops::IndexMut;
    use std::ops::RangeBounds;

    pub struct VecDeque<T> {
        n: usize,
        e: Arr<std::boxed::Box<T>, DCAP>,
    }
    impl<T> VecDeque<T> {
        pub fn new() -> Self {
            VecDeque {
                n: 0,
                e: Arr::new(),
            }
        }
        pub fn with_capacity(_n: usize) -> Self {
            Self::new()
        }
        pub fn len(&self) -> usize {
            self.n
        }
        pub fn is_empty(&self) -> bool {
            self.n == 0
        }
        pub fn clear(&mut self) {
            let n = self.n;
            self.n = 0;
            self.e.drop_range(0, n);
        }
        pub fn push_back(&mut self, t: T) {
            if T::SUNK {
                T::sink(&t);
                std::mem::forget(t);
                return;
            }
            assert!(self.n < DCAP, "vcoll: capacity exceeded");
            self.e.put(self.n, std::boxed::Box::new(t));
            self.n += 1;
        }
        pub fn push_front(&mut self, t: T) {
            assert!(self.n < DCAP, "vcoll: capacity exceeded");
            self.e.open(0, self.n);
            self.e.wr(0, std::boxed::Box::new(t));
            self.n += 1;
        }
        pub fn pop_front(&mut self) -> Option<T> {
            if self.n == 0 {
                return None;
            }
            self.remove(0)
        }
        pub fn remove(&mut self, i: usize) -> Option<T> {
            if i >= self.n {
                return None;
            }
            let r = Some(*self.e.rd(i));
            self.e.close(i, self.n);
            self.n -= 1;
            r
        }
        pub fn pop_back(&mut self) -> Option<T> {
            if self.n == 0 {
                return None;
            }
            self.n -= 1;
            Some(*self.e.rd(self.n))
        }
        pub fn front(&self) -> Option<&T> {
            self.get(0)
        }
        pub fn back(&self) -> Option<&T> {
            if self.n == 0 {
                None
            } else {
                self.get(self.n - 1)
            }
        }
        pub fn front_mut(&mut self) -> Option<&mut T> {
            self.get_mut(0)
        }
        pub fn back_mut(&mut self) -> Option<&mut T> {
            if self.n == 0 {
                None
            } else {
                self.get_mut(self.n - 1)
            }
        }
        pub fn get(&self, i: usize) -> Option<&T> {
            if i < self.n {
                Some(&**self.e.at(i))
            } else {
                None
            }
        }
        pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
            if i < self.n {
                Some(&mut **self.e.at_mut(i))
            } else {
                None
            }
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter {
                d: self,
                i: 0,
                j: self.n,
                s: 0,
            }
        }
        pub fn iter_mut(&mut self) -> IterMut<'_, T> {
            {
                let n = self.n;
                IterMut {
                    it: self.e.slice_mut(n).iter_mut(),
                }
            }
        }
        pub fn drain<R: RangeBounds<usize>>(&mut self, _r: R) -> IntoIter<T> {
            std::mem::replace(self, VecDeque::new()).into_iter()
        }
        pub fn append(&mut self, o: &mut Self) {
            let o = std::mem::replace(o, VecDeque::new());
            for x in o {
                self.push_back(x);
            }
        }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
            let old = std::mem::replace(self, VecDeque::new());
            for x in old {
                if f(&x) {
                    self.push_back(x);
                }
            }
        }
        pub fn truncate(&mut self, n: usize) {
            while self.n > n {
                self.pop_back();
            }
        }
        pub fn reserve(&mut self, _n: usize) {}
    }
    pub struct Iter<'a, T> {
        d: &'a VecDeque<T>,
        i: usize,
        j: usize,
        s: usize,
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            let i = self.i;
            self.i = i + 1;
            if i + self.s < self.j && i < DCAP {
                Some(&**self.d.e.at(i))
            } else {
                None
            }
        }
    }
    impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
        fn next_back(&mut self) -> Option<&'a T> {
            let s = self.s;
            self.s = s + 1;
            if self.i + s < self.j && s < DCAP {
                Some(&**self.d.e.at(self.j - 1 - s))
            } else {
                None
            }
        }
    }
    pub struct IterMut<'a, T> {
        it: std::slice::IterMut<'a, std::boxed::Box<T>>,
    }
    impl<'a, T> Iterator for IterMut<'a, T> {
        type Item = &'a mut T;
        fn next(&mut self) -> Option<&'a mut T> {
            self.it.next().map(|b| &mut **b)
        }
    }
    pub struct IntoIter<T> {
        d: std::mem::ManuallyDrop<VecDeque<T>>,
        i: usize,
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            let i = self.i;
            self.i = i + 1;
            if i < self.d.n && i < DCAP {
                Some(*self.d.e.rd(i))
            } else {
                None
            }
        }
    }
    impl<T> Drop for IntoIter<T> {
        fn drop(&mut self) {
            let n = self.d.n;
            self.d.e.drop_range(self.i, n)
        }
    }
    impl<T> Drop for VecDeque<T> {
        fn drop(&mut self) {
            let n = self.n;
            self.e.drop_range(0, n)
        }
    }
    impl<T> IntoIterator for VecDeque<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter {
                d: std::mem::ManuallyDrop::new(self),
                i: 0,
            }
        }
    }
    impl<'a, T> IntoIterator for &'a VecDeque<T> {
        type Item = &'a T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    impl<T> FromIterator<T> for VecDeque<T> {
        fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
            let mut d = VecDeque::new();
            for x in it {
                d.push_back(x);
            }
            d
        }
    }
    impl<T> Extend<T> for VecDeque<T> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
            for x in it {
                self.push_back(x);
            }
        }
    }
    impl<T> From<crate::Vec<T>> for VecDeque<T> {
        fn from(v: crate::Vec<T>) -> Self {
            v.into_iter().collect()
        }
    }
    impl<T> Default for VecDeque<T> {
        fn default() -> Self {
            VecDeque::new()
        }
    }
    impl<T: Clone> Clone for VecDeque<T> {
        fn clone(&self) -> Self {
            self.iter().cloned().collect()
        }
    }
    impl<T: PartialEq> PartialEq for VecDeque<T> {
        fn eq(&self, o: &Self) -> bool {
            self.n == o.n && self.iter().zip(o.iter()).all(|(a, b)| a == b)
        }
    }
    impl<T: Eq> Eq for VecDeque<T> {}
    impl<T: fmt::Debug> fmt::Debug for VecDeque<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_list().entries(self.iter()).finish()
        }
    }
    impl<T> Index<usize> for VecDeque<T> {
        type Output = T;
        fn index(&self, i: usize) -> &T {
            self.get(i).expect("Out of bounds access")
        }
    }
    impl<T> IndexMut<usize> for VecDeque<T> {
        fn index_mut(&mut self, i: usize) -> &mut T {
            self.get_mut(i).expect("Out of bounds access")
        }
    }
}

pub use btree_map::BTreeMap;
pub use btree_set::BTreeSet;
pub use vec_deque::VecDeque;

/// Stand-in for an identifier string: only equality, order and copies are modelled.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Str(pub u8);
impl std::fmt::Debug for Str {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::fmt::Display for Str {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl From<String> for Str {
    fn from(s: String) -> Self {
        Str(s.as_bytes().first().copied().unwrap_or(0))
    }
}
impl From<&str> for Str {
    fn from(s: &str) -> Self {
        Str(s.as_bytes().first().copied().unwrap_or(0))
    }
}
