//! Contract model of the `hashbrown` API that fixed-map uses, for symbolic execution.
//!
//! A table is a small array of slots searched with `Eq`.  It honours the documented contract of
//! the hash table (a dictionary over `Eq` keys, iteration in some order that is stable while the
//! table is not modified, equality irrespective of order, exact lengths).  Slots are filled
//! first-free, so different histories give different iteration orders for equal contents.
//! More than `CAP` entries are outside the bound (a panic the harnesses never reach).
#![no_std]

pub const CAP: usize = 4;

/// Allocation never fails in the model.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TryReserveError {
    CapacityOverflow,
}

pub use hash_map::HashMap;
pub use hash_set::HashSet;

pub mod hash_map {
    use super::CAP;
    use core::borrow::Borrow;
    use core::hash::Hash;
    use core::iter::FusedIterator;
    use core::mem;

    #[derive(Clone, Copy, Default, Debug)]
    pub struct DefaultHashBuilder;

    #[derive(Clone)]
    pub struct HashMap<K, V, S = DefaultHashBuilder> {
        pub(crate) slots: [Option<(K, V)>; CAP],
        pub(crate) s: S,
    }

    impl<K, V> HashMap<K, V, DefaultHashBuilder> {
        #[inline]
        pub fn new() -> Self {
            HashMap { slots: [const { None }; CAP], s: DefaultHashBuilder }
        }
        #[inline]
        pub fn with_capacity(_: usize) -> Self {
            Self::new()
        }
    }

    impl<K, V, S: Default> Default for HashMap<K, V, S> {
        fn default() -> Self {
            HashMap { slots: [const { None }; CAP], s: S::default() }
        }
    }

    impl<K, V, S> HashMap<K, V, S> {
        pub fn len(&self) -> usize {
            self.slots[0].is_some() as usize
                + self.slots[1].is_some() as usize
                + self.slots[2].is_some() as usize
                + self.slots[3].is_some() as usize
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn capacity(&self) -> usize {
            CAP
        }
        pub fn with_hasher(s: S) -> Self {
            HashMap { slots: [const { None }; CAP], s }
        }
        pub fn with_capacity_and_hasher(_: usize, s: S) -> Self {
            Self::with_hasher(s)
        }
        pub fn drain_filter<F>(&mut self, mut f: F) -> IntoIter<K, V>
        where
            F: FnMut(&K, &mut V) -> bool,
        {
            let mut out = [const { None }; CAP];
            macro_rules! at {
                ($($i:literal)*) => { $(
                    let take = match &mut self.slots[$i] { Some((k, v)) => f(k, v), None => false };
                    if take { out[$i] = self.slots[$i].take(); }
                )* };
            }
            at!(0 1 2 3);
            IntoIter { slots: out, at: 0 }
        }
        #[inline]
        fn free(&self) -> usize {
            macro_rules! at {
                ($($i:literal)*) => { $( if self.slots[$i].is_none() { return $i; } )* };
            }
            at!(0 1 2 3);
            panic!("hash table model: capacity bound exceeded")
        }
        pub fn hasher(&self) -> &S {
            &self.s
        }
        pub fn clear(&mut self) {
            self.slots = [const { None }; CAP];
        }
        pub fn iter(&self) -> Iter<'_, K, V> {
            Iter { slots: &self.slots, at: 0 }
        }
        pub fn keys(&self) -> Keys<'_, K, V> {
            Keys(self.iter())
        }
        pub fn values(&self) -> Values<'_, K, V> {
            Values(self.iter())
        }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
            let [a, b, c, d] = &mut self.slots;
            IterMut { slots: [Some(a), Some(b), Some(c), Some(d)], at: 0 }
        }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
            ValuesMut(self.iter_mut())
        }
        pub fn into_keys(self) -> IntoKeys<K, V> {
            IntoKeys(self.into_iter())
        }
        pub fn into_values(self) -> IntoValues<K, V> {
            IntoValues(self.into_iter())
        }
        pub fn drain(&mut self) -> IntoIter<K, V> {
            IntoIter { slots: mem::replace(&mut self.slots, [const { None }; CAP]), at: 0 }
        }
        pub fn retain<F>(&mut self, mut f: F)
        where
            F: FnMut(&K, &mut V) -> bool,
        {
            let [a, b, c, d] = &mut self.slots;
            Self::keep(a, &mut f);
            Self::keep(b, &mut f);
            Self::keep(c, &mut f);
            Self::keep(d, &mut f);
        }
        #[inline]
        fn keep(slot: &mut Option<(K, V)>, f: &mut impl FnMut(&K, &mut V) -> bool) {
            let drop_it = match slot {
                Some((k, v)) => !f(k, v),
                None => false,
            };
            if drop_it {
                *slot = None;
            }
        }
    }

    impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
        #[inline]
        fn find<Q: ?Sized + Eq + Hash>(&self, key: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            macro_rules! at {
                ($($i:literal)*) => { $( if let Some((k, _)) = &self.slots[$i] { if k.borrow() == key { return Some($i); } } )* };
            }
            at!(0 1 2 3);
            None
        }
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.find(&k) {
                Some(i) => match &mut self.slots[i] {
                    Some((_, old)) => Some(mem::replace(old, v)),
                    None => unreachable!(),
                },
                None => {
                    let i = self.free();
                    self.slots[i] = Some((k, v));
                    None
                }
            }
        }
        pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.find(k).is_some()
        }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
        {
            self.get_key_value(k).map(|(_, v)| v)
        }
        pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)>
        where
            K: Borrow<Q>,
        {
            let i = self.find(k)?;
            match &self.slots[i] {
                Some((k, v)) => Some((k, v)),
                None => None,
            }
        }
        pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V>
        where
            K: Borrow<Q>,
        {
            let i = self.find(k)?;
            match &mut self.slots[i] {
                Some((_, v)) => Some(v),
                None => None,
            }
        }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            self.remove_entry(k).map(|(_, v)| v)
        }
        pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)>
        where
            K: Borrow<Q>,
        {
            let i = self.find(k)?;
            self.slots[i].take()
        }
        pub fn shrink_to(&mut self, _: usize) {}
        pub fn try_reserve(&mut self, _: usize) -> Result<(), super::TryReserveError> {
            Ok(())
        }
        pub fn get_key_value_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(&K, &mut V)>
        where
            K: Borrow<Q>,
        {
            let i = self.find(k)?;
            match &mut self.slots[i] {
                Some((k, v)) => Some((k, v)),
                None => None,
            }
        }
        pub fn insert_unique_unchecked(&mut self, k: K, v: V) -> (&K, &mut V) {
            let i = self.free();
            self.slots[i] = Some((k, v));
            match &mut self.slots[i] {
                Some((k, v)) => (k, v),
                None => unreachable!(),
            }
        }
        pub fn try_insert(&mut self, key: K, value: V) -> Result<&mut V, OccupiedError<'_, K, V, S>> {
            match self.entry(key) {
                Entry::Occupied(entry) => Err(OccupiedError { entry, value }),
                Entry::Vacant(e) => Ok(e.insert(value)),
            }
        }
        pub fn entry(&mut self, key: K) -> Entry<'_, K, V, S> {
            match self.find(&key) {
                Some(at) => Entry::Occupied(OccupiedEntry { at, map: self }),
                None => Entry::Vacant(VacantEntry { key, map: self }),
            }
        }
    }

    impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
        fn eq(&self, other: &Self) -> bool {
            if self.len() != other.len() {
                return false;
            }
            macro_rules! at {
                ($($i:literal)*) => { $( if let Some((k, v)) = &self.slots[$i] { match other.get(k) { Some(w) if *v == *w => (), _ => return false } } )* };
            }
            at!(0 1 2 3);
            true
        }
    }
    impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}

    pub struct OccupiedError<'a, K, V, S = DefaultHashBuilder> {
        pub entry: OccupiedEntry<'a, K, V, S>,
        pub value: V,
    }
    impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S> core::ops::Index<&Q> for HashMap<K, V, S> {
        type Output = V;
        fn index(&self, k: &Q) -> &V {
            self.get(k).expect("no entry found for key")
        }
    }
    impl<K: core::fmt::Debug, V: core::fmt::Debug, S> core::fmt::Debug for HashMap<K, V, S> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.debug_map().entries(self.iter()).finish()
        }
    }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
        fn from(a: [(K, V); N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<'a, K: Eq + Hash + Copy, V: Copy, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
        fn extend<T: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, iter: T) {
            for (k, v) in iter {
                self.insert(*k, *v);
            }
        }
    }
    impl<K: Eq + Hash, V, S: Default> FromIterator<(K, V)> for HashMap<K, V, S> {
        fn from_iter<T: IntoIterator<Item = (K, V)>>(iter: T) -> Self {
            let mut m = Self::default();
            m.extend(iter);
            m
        }
    }
    impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
        fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, iter: T) {
            for (k, v) in iter {
                self.insert(k, v);
            }
        }
    }
    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = IntoIter<K, V>;
        fn into_iter(self) -> IntoIter<K, V> {
            IntoIter { slots: self.slots, at: 0 }
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> {
            self.iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> {
            self.iter_mut()
        }
    }

    pub enum Entry<'a, K: 'a, V: 'a, S: 'a = DefaultHashBuilder> {
        Occupied(OccupiedEntry<'a, K, V, S>),
        Vacant(VacantEntry<'a, K, V, S>),
    }
    impl<'a, K: Eq + Hash, V, S> Entry<'a, K, V, S> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(v),
            }
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => {
                    let v = f(e.key());
                    e.insert(v)
                }
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(V::default()),
            }
        }
        pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
            match self {
                Entry::Occupied(mut e) => {
                    f(e.get_mut());
                    Entry::Occupied(e)
                }
                Entry::Vacant(e) => Entry::Vacant(e),
            }
        }
        pub fn insert(self, v: V) -> OccupiedEntry<'a, K, V, S> {
            match self {
                Entry::Occupied(mut e) => {
                    e.insert(v);
                    e
                }
                Entry::Vacant(e) => e.insert_entry(v),
            }
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(e) => e.key(),
                Entry::Vacant(e) => e.key(),
            }
        }
    }
    pub struct OccupiedEntry<'a, K, V, S = DefaultHashBuilder> {
        at: usize,
        map: &'a mut HashMap<K, V, S>,
    }
    impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
        #[inline]
        fn slot(&self) -> &(K, V) {
            match &self.map.slots[self.at] {
                Some(kv) => kv,
                None => unreachable!(),
            }
        }
        #[inline]
        fn slot_mut(&mut self) -> &mut (K, V) {
            match &mut self.map.slots[self.at] {
                Some(kv) => kv,
                None => unreachable!(),
            }
        }
        pub fn key(&self) -> &K {
            &self.slot().0
        }
        pub fn get(&self) -> &V {
            &self.slot().1
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.slot_mut().1
        }
        pub fn into_mut(self) -> &'a mut V {
            match &mut self.map.slots[self.at] {
                Some((_, v)) => v,
                None => unreachable!(),
            }
        }
        pub fn insert(&mut self, v: V) -> V {
            mem::replace(self.get_mut(), v)
        }
        pub fn remove(self) -> V {
            self.remove_entry().1
        }
        pub fn remove_entry(self) -> (K, V) {
            match self.map.slots[self.at].take() {
                Some(kv) => kv,
                None => unreachable!(),
            }
        }
    }
    pub struct VacantEntry<'a, K, V, S = DefaultHashBuilder> {
        key: K,
        map: &'a mut HashMap<K, V, S>,
    }
    impl<'a, K, V, S> VacantEntry<'a, K, V, S> {
        pub fn key(&self) -> &K {
            &self.key
        }
        pub fn into_key(self) -> K {
            self.key
        }
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V, S> {
            let at = self.map.free();
            self.map.slots[at] = Some((self.key, v));
            OccupiedEntry { at, map: self.map }
        }
        pub fn insert(self, v: V) -> &'a mut V
        where
            K: Hash,
        {
            let at = self.map.free();
            self.map.slots[at] = Some((self.key, v));
            match &mut self.map.slots[at] {
                Some((_, v)) => v,
                None => unreachable!(),
            }
        }
    }

    pub struct Iter<'a, K, V> {
        slots: &'a [Option<(K, V)>; CAP],
        at: usize,
    }
    impl<K, V> Clone for Iter<'_, K, V> {
        fn clone(&self) -> Self {
            Iter { slots: self.slots, at: self.at }
        }
    }
    #[inline]
    fn left<K, V>(slots: &[Option<(K, V)>; CAP], at: usize) -> usize {
        (at <= 0 && slots[0].is_some()) as usize
            + (at <= 1 && slots[1].is_some()) as usize
            + (at <= 2 && slots[2].is_some()) as usize
            + (at <= 3 && slots[3].is_some()) as usize
    }
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<Self::Item> {
            macro_rules! at {
                ($($i:literal)*) => { $( if self.at <= $i { if let Some((k, v)) = &self.slots[$i] { self.at = $i + 1; return Some((k, v)); } } )* };
            }
            at!(0 1 2 3);
            self.at = CAP;
            None
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = left(self.slots, self.at);
            (n, Some(n))
        }
    }
    impl<K, V> ExactSizeIterator for Iter<'_, K, V> {}
    impl<K, V> FusedIterator for Iter<'_, K, V> {}

    pub struct IterMut<'a, K, V> {
        slots: [Option<&'a mut Option<(K, V)>>; CAP],
        at: usize,
    }
    impl<'a, K, V> Iterator for IterMut<'a, K, V> {
        type Item = (&'a K, &'a mut V);
        fn next(&mut self) -> Option<Self::Item> {
            macro_rules! at {
                ($($i:literal)*) => { $( if self.at <= $i { if let Some(Some((k, v))) = self.slots[$i].take() { self.at = $i + 1; return Some((&*k, v)); } } )* };
            }
            at!(0 1 2 3);
            self.at = CAP;
            None
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let mut n = 0;
            macro_rules! at {
                ($($i:literal)*) => { $( if self.at <= $i { if let Some(Some(_)) = &self.slots[$i] { n += 1; } } )* };
            }
            at!(0 1 2 3);
            (n, Some(n))
        }
    }
    impl<K, V> ExactSizeIterator for IterMut<'_, K, V> {}
    impl<K, V> FusedIterator for IterMut<'_, K, V> {}

    #[derive(Clone)]
    pub struct IntoIter<K, V> {
        slots: [Option<(K, V)>; CAP],
        at: usize,
    }
    impl<K, V> Iterator for IntoIter<K, V> {
        type Item = (K, V);
        fn next(&mut self) -> Option<Self::Item> {
            macro_rules! at {
                ($($i:literal)*) => { $( if self.at <= $i { if let Some(kv) = self.slots[$i].take() { self.at = $i + 1; return Some(kv); } } )* };
            }
            at!(0 1 2 3);
            self.at = CAP;
            None
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = left(&self.slots, self.at);
            (n, Some(n))
        }
    }
    impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
    impl<K, V> FusedIterator for IntoIter<K, V> {}

    macro_rules! project {
        ($n:ident [$($lt:lifetime)?] $inner:ty, $item:ty, $p:pat => $e:expr) => {
            pub struct $n<$($lt,)? K, V>($inner);
            impl<$($lt,)? K, V> Iterator for $n<$($lt,)? K, V> {
                type Item = $item;
                fn next(&mut self) -> Option<Self::Item> {
                    match self.0.next() {
                        Some($p) => Some($e),
                        None => None,
                    }
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    self.0.size_hint()
                }
            }
            impl<$($lt,)? K, V> ExactSizeIterator for $n<$($lt,)? K, V> {}
            impl<$($lt,)? K, V> FusedIterator for $n<$($lt,)? K, V> {}
        };
    }
    project!(Keys ['a] Iter<'a, K, V>, &'a K, (k, _) => k);
    project!(Values ['a] Iter<'a, K, V>, &'a V, (_, v) => v);
    project!(ValuesMut ['a] IterMut<'a, K, V>, &'a mut V, (_, v) => v);
    project!(IntoKeys [] IntoIter<K, V>, K, (k, _) => k);
    project!(IntoValues [] IntoIter<K, V>, V, (_, v) => v);
    impl<K, V> Clone for Keys<'_, K, V> {
        fn clone(&self) -> Self {
            Keys(self.0.clone())
        }
    }
    impl<K, V> Clone for Values<'_, K, V> {
        fn clone(&self) -> Self {
            Values(self.0.clone())
        }
    }
}

pub mod hash_set {
    use super::hash_map::{self, DefaultHashBuilder, HashMap};
    use core::borrow::Borrow;
    use core::hash::Hash;
    use core::iter::FusedIterator;

    #[derive(Clone)]
    pub struct HashSet<T, S = DefaultHashBuilder> {
        map: HashMap<T, (), S>,
    }
    impl<T> HashSet<T, DefaultHashBuilder> {
        pub fn new() -> Self {
            HashSet { map: HashMap::new() }
        }
        pub fn with_capacity(_: usize) -> Self {
            Self::new()
        }
    }
    impl<T, S: Default> Default for HashSet<T, S> {
        fn default() -> Self {
            HashSet { map: HashMap::default() }
        }
    }
    impl<T, S> HashSet<T, S> {
        pub fn len(&self) -> usize {
            self.map.len()
        }
        pub fn is_empty(&self) -> bool {
            self.map.is_empty()
        }
        pub fn capacity(&self) -> usize {
            self.map.capacity()
        }
        pub fn clear(&mut self) {
            self.map.clear()
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self.map.keys())
        }
        pub fn drain(&mut self) -> IntoIter<T> {
            IntoIter(self.map.drain())
        }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
            self.map.retain(|k, _| f(k))
        }
        pub fn drain_filter<F: FnMut(&T) -> bool>(&mut self, mut f: F) -> IntoIter<T> {
            IntoIter(self.map.drain_filter(|k, _| f(k)))
        }
        pub fn with_hasher(s: S) -> Self {
            HashSet { map: HashMap::with_hasher(s) }
        }
        pub fn with_capacity_and_hasher(_: usize, s: S) -> Self {
            Self::with_hasher(s)
        }
    }
    impl<T: Eq + Hash, S> HashSet<T, S> {
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn insert(&mut self, v: T) -> bool {
            self.map.insert(v, ()).is_none()
        }
        pub fn replace(&mut self, v: T) -> Option<T> {
            let old = self.map.remove_entry(&v);
            self.map.insert(v, ());
            old.map(|(k, _)| k)
        }
        pub fn get_or_insert(&mut self, v: T) -> &T {
            if !self.map.contains_key(&v) {
                return self.map.insert_unique_unchecked(v, ()).0;
            }
            match self.map.get_key_value(&v) {
                Some((k, _)) => k,
                None => unreachable!(),
            }
        }
        pub fn insert_unique_unchecked(&mut self, v: T) -> &T {
            self.map.insert_unique_unchecked(v, ()).0
        }
        pub fn is_subset(&self, other: &Self) -> bool {
            self.len() <= other.len() && self.iter().all(|v| other.contains(v))
        }
        pub fn is_superset(&self, other: &Self) -> bool {
            other.is_subset(self)
        }
        pub fn is_disjoint(&self, other: &Self) -> bool {
            self.iter().all(|v| !other.contains(v))
        }
        pub fn contains<Q: ?Sized + Eq + Hash>(&self, v: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.map.contains_key(v)
        }
        pub fn get<Q: ?Sized + Eq + Hash>(&self, v: &Q) -> Option<&T>
        where
            T: Borrow<Q>,
        {
            self.map.get_key_value(v).map(|(k, _)| k)
        }
        pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, v: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.map.remove(v).is_some()
        }
        pub fn take<Q: ?Sized + Eq + Hash>(&mut self, v: &Q) -> Option<T>
        where
            T: Borrow<Q>,
        {
            self.map.remove_entry(v).map(|(k, _)| k)
        }
    }
    impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> {
        fn eq(&self, other: &Self) -> bool {
            self.map == other.map
        }
    }
    impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
    impl<T: core::fmt::Debug, S> core::fmt::Debug for HashSet<T, S> {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.debug_set().entries(self.iter()).finish()
        }
    }
    impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> {
        fn from(a: [T; N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<'a, T: Eq + Hash + Copy, S> Extend<&'a T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = &'a T>>(&mut self, iter: I) {
            for v in iter {
                self.insert(*v);
            }
        }
    }
    impl<T: Eq + Hash, S: Default> FromIterator<T> for HashSet<T, S> {
        fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
            let mut s = Self::default();
            s.extend(iter);
            s
        }
    }
    impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
            for v in iter {
                self.insert(v);
            }
        }
    }
    impl<T, S> IntoIterator for HashSet<T, S> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self.map.into_iter())
        }
    }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
        type Item = &'a T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    pub struct Iter<'a, T>(hash_map::Keys<'a, T, ()>);
    impl<T> Clone for Iter<'_, T> {
        fn clone(&self) -> Self {
            Iter(self.0.clone())
        }
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<T> ExactSizeIterator for Iter<'_, T> {}
    impl<T> FusedIterator for Iter<'_, T> {}
    #[derive(Clone)]
    pub struct IntoIter<T>(hash_map::IntoIter<T, ()>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            match self.0.next() {
                Some((k, _)) => Some(k),
                None => None,
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<T> ExactSizeIterator for IntoIter<T> {}
    impl<T> FusedIterator for IntoIter<T> {}
}
