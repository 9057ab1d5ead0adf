//! Harness macro, reference model and state builders shared by the property modules.

use crate::nd;
use fixed_map::map::{Entry, MapStorage, OccupiedEntry, VacantEntry};
use fixed_map::{Key, Map, Set};

/// Declares harnesses: `name [unwind] => expression;`.  Harnesses marked `thorough` are only
/// compiled with that feature.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* $name:ident [$unw:literal] => $body:expr ; )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unw))]
            pub fn $name() { $body }
        )*
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $( $(#[$m])* { v.push((concat!(module_path!(), "::", stringify!($name)), $name as fn())); } )*
            v
        }
    };
}

/// Lists the harnesses of submodules.
#[macro_export]
macro_rules! groups {
    ($( $(#[$m:meta])* $s:ident; )*) => {
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, fn())> {
            #[allow(unused_mut)]
            let mut v: Vec<(&'static str, fn())> = Vec::new();
            $( $(#[$m])* { v.extend($s::all()); } )*
            v
        }
    };
}

/// Calls `f(0)`, .., `f(N - 1)` without a loop, so that the unwinding bound of a harness only
/// has to cover the loops of the code under test.
#[inline(always)]
pub fn un<const N: usize>(mut f: impl FnMut(usize)) {
    const { assert!(N <= 16); };
    macro_rules! go { ($($i:literal)*) => { $( if N > $i { f($i) } )* } }
    go!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15);
}

/// Reference dictionary over the universe `u[0..N]`.
#[derive(Clone, Copy)]
pub struct Ref<const N: usize> {
    pub p: [bool; N],
    pub v: [u8; N],
}

impl<const N: usize> Ref<N> {
    #[inline(always)]
    pub fn new() -> Self {
        Ref { p: [false; N], v: [0; N] }
    }
    #[inline(always)]
    pub fn get(&self, i: usize) -> Option<u8> {
        if self.p[i] { Some(self.v[i]) } else { None }
    }
    #[inline(always)]
    pub fn put(&mut self, i: usize, v: u8) {
        self.p[i] = true;
        self.v[i] = v;
    }
    #[inline(always)]
    pub fn del(&mut self, i: usize) {
        self.p[i] = false;
    }
    #[inline(always)]
    pub fn len(&self) -> usize {
        let mut c = 0;
        un::<N>(|i| c += self.p[i] as usize);
        c
    }
    /// Position of the `k`-th present key, in order.
    #[inline(always)]
    pub fn clear(&mut self) {
        un::<N>(|i| self.p[i] = false);
    }
    #[inline(always)]
    pub fn eq(&self, o: &Self) -> bool {
        let mut e = true;
        un::<N>(|i| {
            if self.p[i] != o.p[i] || (self.p[i] && self.v[i] != o.v[i]) {
                e = false
            }
        });
        e
    }
}

/// A map with arbitrary content: every key is independently absent, present with an arbitrary
/// value, or was present and has been removed again.
#[inline(always)]
pub fn any_map<K: Key, const N: usize>(u: &[K; N]) -> (Map<K, u8>, Ref<N>) {
    let mut m = Map::new();
    let mut r = Ref::new();
    un::<N>(|i| {
        let c = nd::u8();
        if c & 1 != 0 {
            let v = nd::u8();
            m.insert(u[i], v);
            r.put(i, v);
        }
    });
    (m, r)
}

/// As [`any_map`], and keys may also have been inserted and removed again.
#[inline(always)]
pub fn any_map_residue<K: Key, const N: usize>(u: &[K; N]) -> (Map<K, u8>, Ref<N>) {
    let mut m = Map::new();
    let mut r = Ref::new();
    un::<N>(|i| {
        let c = nd::u8();
        if c & 1 != 0 {
            let v = nd::u8();
            m.insert(u[i], v);
            r.put(i, v);
            if c & 2 != 0 {
                m.remove(u[i]);
                r.del(i);
            }
        }
    });
    (m, r)
}

/// A set with arbitrary content.
#[inline(always)]
pub fn any_set<K: Key, const N: usize>(u: &[K; N]) -> (Set<K>, [bool; N]) {
    let mut s = Set::new();
    let mut r = [false; N];
    un::<N>(|i| {
        if nd::u8() & 1 != 0 {
            s.insert(u[i]);
            r[i] = true;
        }
    });
    (s, r)
}

#[inline(always)]
pub fn any_set_residue<K: Key, const N: usize>(u: &[K; N]) -> (Set<K>, [bool; N]) {
    let mut s = Set::new();
    let mut r = [false; N];
    un::<N>(|i| {
        let c = nd::u8();
        if c & 1 != 0 {
            s.insert(u[i]);
            r[i] = true;
            if c & 2 != 0 {
                s.remove(u[i]);
                r[i] = false;
            }
        }
    });
    (s, r)
}

#[inline(always)]
pub fn count<const N: usize>(r: &[bool; N]) -> usize {
    let mut c = 0;
    un::<N>(|i| c += r[i] as usize);
    c
}

/// Position of a key in the universe (`N` if it is not there).
#[inline(always)]
pub fn pos<K: Key + PartialEq, const N: usize>(u: &[K; N], k: K) -> usize {
    let mut at = N;
    un::<N>(|i| {
        if at == N && u[i] == k {
            at = i
        }
    });
    at
}

/// One arbitrary operation, checked (if `C`) for its result against the
/// reference dictionary.
#[inline(always)]
pub fn op<K: Key, const N: usize, const C: bool>(m: &mut Map<K, u8>, r: &mut Ref<N>, u: &[K; N], kinds: u8) {
    let i = nd::below(N);
    let v = nd::u8();
    let k = nd::u8();
    nd::assume(k < kinds);
    match k {
        0 => {
            assert!(m.insert(u[i], v) == r.get(i) || !C, "insert returns the replaced value");
            r.put(i, v);
        }
        1 => {
            assert!(m.remove(u[i]) == r.get(i) || !C, "remove returns the removed value");
            r.del(i);
        }
        2 => match m.get_mut(u[i]) {
            Some(x) => {
                assert!(!C || r.p[i] && *x == r.v[i], "get_mut finds the stored value");
                *x = v;
                r.v[i] = v;
            }
            None => assert!(!C || !r.p[i], "get_mut misses a present key"),
        },
        3 => {
            assert!(!C || m.get(u[i]).copied() == r.get(i), "get finds the stored value");
            assert!(!C || m.contains_key(u[i]) == r.p[i], "contains_key agrees");
        }
        4 => {
            m.clear();
            r.clear();
        }
        5 => {
            let x = *m.entry(u[i]).or_insert(v);
            if !r.p[i] {
                r.put(i, v);
            }
            assert!(!C || x == r.v[i], "or_insert gives the stored value");
        }
        6 => {
            if let Entry::Occupied(e) = m.entry(u[i]) {
                let x = fixed_map::map::OccupiedEntry::remove(e);
                assert!(!C || r.get(i) == Some(x), "entry remove gives the stored value");
                r.del(i);
            } else {
                assert!(!C || !r.p[i], "vacant entry of a present key");
            }
        }
        _ => {
            // Keep by parity of the value, so the outcome per key is arbitrary.
            m.retain(|_, x| *x & 1 == 0);
            un::<N>(|j| {
                if r.p[j] && r.v[j] & 1 != 0 {
                    r.del(j)
                }
            });
        }
    }
}

/// Every key reads back as the reference says.
#[inline(always)]
pub fn observe<K: Key, const N: usize>(m: &mut Map<K, u8>, r: &Ref<N>, u: &[K; N]) {
    un::<N>(|j| {
        assert!(m.get(u[j]).copied() == r.get(j), "get after");
        assert!(m.contains_key(u[j]) == r.p[j], "contains_key after");
        assert!(m.get_mut(u[j]).copied() == r.get(j), "get_mut after");
    });
}


/// Position of the first and of the last set flag.
#[inline(always)]
pub fn first<const N: usize>(p: &[bool; N]) -> usize {
    let mut at = N;
    un::<N>(|i| {
        if at == N && p[i] {
            at = i
        }
    });
    at
}

#[inline(always)]
pub fn last<const N: usize>(p: &[bool; N]) -> usize {
    let mut at = N;
    un::<N>(|i| {
        if p[i] {
            at = i
        }
    });
    at
}

/// One step of a double-ended iterator from the front or the back, checked against the
/// positions that are still to come; size hints bracket their number.
#[inline(always)]
pub fn step<T, I: DoubleEndedIterator<Item = T>, const N: usize>(it: &mut I, left: &mut [bool; N], back: bool, f: &mut impl FnMut(T, usize)) {
    let n = count(left);
    let (lo, hi) = it.size_hint();
    assert!(lo <= n, "size hint promises more than remain");
    assert!(hi.is_none() || hi.unwrap() >= n, "size hint promises fewer than remain");
    let at = if back { last(left) } else { first(left) };
    match if back { it.next_back() } else { it.next() } {
        Some(x) => {
            assert!(at < N, "more items than remain");
            f(x, at);
            left[at] = false;
        }
        None => assert!(at == N, "ended before all items were seen"),
    }
}

/// Drives a double-ended iterator through S steps, each from an arbitrary end.
#[inline(always)]
pub fn drive<T, I: DoubleEndedIterator<Item = T>, const N: usize, const S: usize>(mut it: I, p: &[bool; N], mut f: impl FnMut(T, usize)) {
    let mut left = *p;
    un::<S>(|_| {
        let back = nd::flag();
        step(&mut it, &mut left, back, &mut f)
    });
}

/// A clone made after an arbitrary step continues on its own: it still yields what remained
/// when it was made, and the original is not affected by it.
#[inline(always)]
pub fn drive_clone<T, I: DoubleEndedIterator<Item = T> + Clone, const N: usize, const S: usize>(mut it: I, p: &[bool; N], mut f: impl FnMut(T, usize)) {
    let mut left = *p;
    if nd::flag() {
        let back = nd::flag();
        step(&mut it, &mut left, back, &mut f);
    }
    let mut other = it.clone();
    let mut oleft = left;
    let back = nd::flag();
    step(&mut it, &mut left, back, &mut f);
    un::<S>(|_| {
        let back = nd::flag();
        step(&mut other, &mut oleft, back, &mut f)
    });
    let back = nd::flag();
    step(&mut it, &mut left, back, &mut f);
}

/// `it` yields exactly the flagged positions in order.
#[inline(always)]
pub fn seq<T, const N: usize>(mut it: impl Iterator<Item = T>, p: &[bool; N], mut f: impl FnMut(T, usize)) {
    un::<N>(|i| {
        if p[i] {
            match it.next() {
                Some(x) => f(x, i),
                None => assert!(false, "iteration ended before a present entry"),
            }
        }
    });
    assert!(it.next().is_none(), "iteration yields more than the present entries");
}

/// One arbitrary set operation, checked (if `C`) for its result.
#[inline(always)]
pub fn sop<K: Key, const N: usize, const C: bool>(s: &mut Set<K>, r: &mut [bool; N], u: &[K; N], kinds: u8) {
    let i = nd::below(N);
    let k = nd::u8();
    nd::assume(k < kinds);
    match k {
        0 => {
            assert!(s.insert(u[i]) == !r[i] || !C, "insert answers true exactly when absent");
            r[i] = true;
        }
        1 => {
            assert!(s.remove(u[i]) == r[i] || !C, "remove answers true exactly when present");
            r[i] = false;
        }
        2 => assert!(s.contains(u[i]) == r[i] || !C, "contains answers true exactly when present"),
        3 => {
            s.clear();
            un::<N>(|j| r[j] = false);
        }
        _ => {
            // Keep all or none; retain has a property of its own.
            let keep = nd::flag();
            s.retain(|_| keep);
            if !keep {
                un::<N>(|j| r[j] = false);
            }
        }
    }
}

#[inline(always)]
pub fn sobserve<K: Key, const N: usize>(s: &Set<K>, r: &[bool; N], u: &[K; N]) {
    un::<N>(|j| assert!(s.contains(u[j]) == r[j], "contains after"));
}

/// One forward step of an iterator, checked against the positions still to come.
#[inline(always)]
pub fn fstep<T, I: Iterator<Item = T>, const N: usize>(it: &mut I, left: &mut [bool; N], f: &mut impl FnMut(T, usize)) {
    let n = count(left);
    let (lo, hi) = it.size_hint();
    assert!(lo <= n, "size hint promises more than remain");
    assert!(hi.is_none() || hi.unwrap() >= n, "size hint promises fewer than remain");
    let at = first(left);
    match it.next() {
        Some(x) => {
            assert!(at < N, "more items than remain");
            f(x, at);
            left[at] = false;
        }
        None => assert!(at == N, "ended before all items were seen"),
    }
}

/// One arbitrary use of the entry of key `i`.
#[inline(always)]
pub fn entry_op<K: Key + PartialEq, const N: usize>(m: &mut Map<K, u8>, r: &mut Ref<N>, u: &[K; N], kinds: core::ops::Range<u8>) {
    let i = nd::below(N);
    let v = nd::u8();
    let w = nd::u8();
    let kind = nd::u8();
    nd::assume(kind >= kinds.start && kind < kinds.end);
    let old = r.get(i);
    let e = m.entry(u[i]);
    assert!(e.key() == u[i], "the entry reports its key");
    let occupied = matches!(e, Entry::Occupied(_));
    assert!(occupied == old.is_some(), "occupied exactly when present");
    match kind {
        0 => drop(e),
        1 => {
            let x = e.or_insert(v);
            assert!(*x == old.unwrap_or(v), "or_insert gives the stored value");
            *x = w;
            r.put(i, w);
        }
        2 => {
            let mut calls = 0u8;
            let x = e.or_insert_with(|| {
                calls += 1;
                v
            });
            assert!(*x == old.unwrap_or(v), "or_insert_with gives the stored value");
            *x = w;
            assert!(calls == old.is_none() as u8, "the closure is called exactly when needed");
            r.put(i, w);
        }
        3 => {
            let mut calls = 0u8;
            let mut right = true;
            let x = e.or_insert_with_key(|k| {
                calls += 1;
                right &= k == u[i];
                v
            });
            assert!(*x == old.unwrap_or(v), "or_insert_with_key gives the stored value");
            *x = w;
            assert!(right, "the closure is given the key");
            assert!(calls == old.is_none() as u8, "the closure is called exactly when needed");
            r.put(i, w);
        }
        4 => {
            let x = e.or_default();
            assert!(*x == old.unwrap_or(0), "or_default gives the stored value");
            *x = w;
            r.put(i, w);
        }
        5 => {
            let mut calls = 0u8;
            let e = e.and_modify(|x| {
                calls += 1;
                *x = x.wrapping_add(w);
            });
            assert!(e.key() == u[i], "the entry still reports its key");
            assert!(calls == old.is_some() as u8, "and_modify calls exactly when present");
            if nd::flag() {
                let x = *e.or_insert(v);
                r.put(i, old.map_or(v, |o| o.wrapping_add(w)));
                assert!(x == r.v[i], "and_modify, then or_insert");
            } else {
                drop(e);
                if let Some(o) = old {
                    r.put(i, o.wrapping_add(w));
                }
            }
        }
        6 => match e {
            Entry::Occupied(mut o) => {
                assert!(o.key() == u[i] && *o.get() == old.unwrap(), "occupied entry reads its value");
                assert!(o.insert(v) == old.unwrap(), "occupied insert returns the old value");
                assert!(*o.get() == v, "occupied insert stores");
                *o.get_mut() = w;
                assert!(*o.get() == w, "get_mut writes");
                r.put(i, w);
                if nd::flag() {
                    assert!(o.remove() == w, "remove returns the value");
                    r.del(i);
                }
            }
            Entry::Vacant(x) => {
                assert!(x.key() == u[i], "vacant entry reports its key");
                let p = x.insert(v);
                assert!(*p == v, "vacant insert stores");
                *p = w;
                r.put(i, w);
            }
        },
        _ => match e {
            Entry::Occupied(o) => {
                let p = o.into_mut();
                assert!(*p == old.unwrap(), "into_mut reads the value");
                *p = w;
                r.put(i, w);
            }
            Entry::Vacant(_) => {}
        },
    }
}

/// Whatever remains after an arbitrary step, taken at once: by number, by its last item, by folding
/// from either end.
#[inline(always)]
pub fn bulk<T, I: DoubleEndedIterator<Item = T>, const N: usize>(mut it: I, p: &[bool; N], mut f: impl FnMut(T, usize)) {
    let mut left = *p;
    if nd::flag() {
        let back = nd::flag();
        step(&mut it, &mut left, back, &mut f);
    }
    let kind = nd::below(4);
    match kind {
        0 => assert!(it.count() == count(&left), "count"),
        1 => {
            let at = last(&left);
            match it.last() {
                Some(x) => {
                    assert!(at < N, "last of nothing");
                    f(x, at);
                }
                None => assert!(at == N, "last misses the last item"),
            }
        }
        2 => {
            it.fold((), |(), x| {
                let at = first(&left);
                assert!(at < N, "fold gives more items than remain");
                f(x, at);
                left[at] = false;
            });
            assert!(first(&left) == N, "fold ends before all items were seen");
        }
        _ => {
            it.rfold((), |(), x| {
                let at = last(&left);
                assert!(at < N, "rfold gives more items than remain");
                f(x, at);
                left[at] = false;
            });
            assert!(first(&left) == N, "rfold ends before all items were seen");
        }
    }
}

/// Skipping an arbitrary number of items from an arbitrary end, and going on from there.
#[inline(always)]
pub fn skips<T, I: DoubleEndedIterator<Item = T>, const N: usize>(mut it: I, p: &[bool; N], mut f: impl FnMut(T, usize)) {
    let mut left = *p;
    let k = nd::below(N + 1);
    let back = nd::flag();
    let mut seen = 0;
    let mut at = N;
    un::<N>(|i| {
        let i = if back { N - 1 - i } else { i };
        if at == N && left[i] {
            left[i] = false;
            if seen == k {
                at = i
            }
            seen += 1;
        }
    });
    match if back { it.nth_back(k) } else { it.nth(k) } {
        Some(x) => {
            assert!(at < N, "nth gives more items than remain");
            f(x, at);
        }
        None => assert!(at == N, "nth ends before all items were seen"),
    }
    let back = nd::flag();
    step(&mut it, &mut left, back, &mut f);
}

/// A history of H arbitrary point operations over a large key type, then one arbitrary key is looked
/// up.  Returns the number of keys the reference holds, too.
#[inline(always)]
pub fn probe<K: Key, const N: usize, const H: usize>(u: &[K; N]) -> (Map<K, u8>, usize) {
    let mut m = Map::new();
    let mut p = [false; N];
    let mut v = [0u8; N];
    let mut n = 0;
    un::<H>(|_| {
        let i = nd::below(N);
        let x = nd::u8();
        let old = if p[i] { Some(v[i]) } else { None };
        match nd::below(4) {
            0 => {
                assert!(m.insert(u[i], x) == old, "insert returns the replaced value");
                v[i] = x;
                n += !p[i] as usize;
                p[i] = true;
            }
            1 => {
                assert!(m.remove(u[i]) == old, "remove returns the removed value");
                n -= p[i] as usize;
                p[i] = false;
            }
            2 => {
                let y = m.entry(u[i]).or_insert(x);
                assert!(*y == old.unwrap_or(x), "or_insert gives the stored value");
                n += !p[i] as usize;
                p[i] = true;
                v[i] = *y;
            }
            _ => {
                if let Some(y) = m.get_mut(u[i]) {
                    assert!(old == Some(*y), "get_mut gives the stored value");
                    *y = x;
                    v[i] = x;
                } else {
                    assert!(old.is_none(), "get_mut misses a present key");
                }
            }
        }
    });
    let i = nd::below(N);
    assert!(m.get(u[i]).copied() == if p[i] { Some(v[i]) } else { None }, "get after");
    assert!(m.contains_key(u[i]) == p[i], "contains_key after");
    (m, n)
}

/// As [`probe`], for sets.
#[inline(always)]
pub fn sprobe<K: Key, const N: usize, const H: usize>(u: &[K; N]) -> (Set<K>, usize) {
    let mut s = Set::new();
    let mut p = [false; N];
    let mut n = 0;
    un::<H>(|_| {
        let i = nd::below(N);
        if nd::flag() {
            assert!(s.insert(u[i]) == !p[i], "insert answers true exactly when absent");
            n += !p[i] as usize;
            p[i] = true;
        } else {
            assert!(s.remove(u[i]) == p[i], "remove answers true exactly when present");
            n -= p[i] as usize;
            p[i] = false;
        }
    });
    let i = nd::below(N);
    assert!(s.contains(u[i]) == p[i], "contains after");
    (s, n)
}
