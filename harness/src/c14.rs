//! C14: bit-packed sets behave like plain sets and survive raw round trips.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Set};

/// The same operations on a bit-packed and on a plain set.
fn pair<B: Key + PartialEq, U: Key + PartialEq, const N: usize, const H: usize>(b: &[B; N], u: &[U; N]) {
    let (mut x, mut y) = (Set::<B>::new(), Set::<U>::new());
    un::<H>(|_| {
        let i = nd::below(N);
        match nd::below(4) {
            0 => assert!(x.insert(b[i]) == y.insert(u[i]), "insert"),
            1 => assert!(x.remove(b[i]) == y.remove(u[i]), "remove"),
            2 => assert!(x.contains(b[i]) == y.contains(u[i]), "contains"),
            _ => {
                x.clear();
                y.clear();
            }
        }
        assert!(x.len() == y.len() && x.is_empty() == y.is_empty(), "sizes");
    });
    nd::done();
}

fn filter<B: Key + PartialEq, U: Key + PartialEq, const N: usize>(b: &[B; N], u: &[U; N]) {
    let (mut x, mut y) = (Set::<B>::new(), Set::<U>::new());
    let mut keep = [false; N];
    un::<N>(|i| {
        let c = nd::u8();
        if c & 1 != 0 {
            x.insert(b[i]);
            y.insert(u[i]);
        }
        keep[i] = c & 2 != 0;
    });
    x.retain(|k| keep[pos(b, k)]);
    y.retain(|k| keep[pos(u, k)]);
    un::<N>(|i| assert!(x.contains(b[i]) == y.contains(u[i]), "retain"));
    assert!(x.len() == y.len(), "size after retain");
    nd::done();
}

fn order<B: Key + PartialEq, U: Key + PartialEq, const N: usize>(b: &[B; N], u: &[U; N]) {
    let (mut x, mut y) = (Set::<B>::new(), Set::<U>::new());
    un::<N>(|i| {
        if nd::flag() {
            x.insert(b[i]);
            y.insert(u[i]);
        }
    });
    let (mut p, mut q) = (x.iter(), y.iter());
    un::<N>(|_| {
        assert!(p.size_hint() == q.size_hint(), "size hint");
        match (p.next(), q.next()) {
            (Some(s), Some(t)) => assert!(pos(b, s) == pos(u, t), "same element"),
            (None, None) => {}
            _ => assert!(false, "iterations have the same length"),
        }
    });
    nd::done();
}

fn compare<B: Key, U: Key, const N: usize>(b: &[B; N], u: &[U; N])
where
    Set<B>: Ord,
    Set<U>: Ord,
{
    let (mut x, mut y) = (Set::<B>::new(), Set::<U>::new());
    let (mut x2, mut y2) = (Set::<B>::new(), Set::<U>::new());
    un::<N>(|i| {
        let c = nd::u8();
        if c & 1 != 0 {
            x.insert(b[i]);
            y.insert(u[i]);
        }
        if c & 2 != 0 {
            x2.insert(b[i]);
            y2.insert(u[i]);
        }
    });
    assert!((x == x2) == (y == y2), "equality");
    assert!(x.cmp(&x2) == y.cmp(&y2), "order");
    nd::done();
}

/// Raw form of sets of any bit-packed size, against a mask.
macro_rules! raw {
    ($( $(#[$m:meta])* $s:ident $k:ident $u:ident $raw:ident $draw:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            const N: usize = $u.len();
            const FULL: $raw = if N == <$raw>::BITS as usize { <$raw>::MAX } else { ((1 as $raw) << (N % <$raw>::BITS as usize)) - 1 };
            /// An arbitrary set by its arbitrary mask.
            fn any() -> (Set<$k>, $raw) {
                let mask = nd::$draw() & FULL;
                (Set::from_raw(mask), mask)
            }
            fn bit(i: usize) -> $raw { (1 as $raw) << i }
            crate::harnesses! {
                /// One arbitrary point operation on an arbitrary set.
                point [2] => {
                    let (mut s, mut mask) = any();
                    assert!(s.as_raw() == mask, "raw round trip");
                    let i = nd::below(N);
                    let key = $u[i];
                    assert!(s.contains(key) == (mask & bit(i) != 0), "contains reads the element's bit");
                    match nd::below(3) {
                        0 => {
                            assert!(s.insert(key) == (mask & bit(i) == 0), "insert");
                            mask |= bit(i);
                        }
                        1 => {
                            assert!(s.remove(key) == (mask & bit(i) != 0), "remove");
                            mask &= !bit(i);
                        }
                        _ => {
                            s.clear();
                            mask = 0;
                        }
                    }
                    assert!(s.as_raw() == mask, "exactly the bits of the elements");
                    assert!(s.len() == mask.count_ones() as usize && s.is_empty() == (mask == 0), "sizes");
                    let j = nd::below(N);
                    assert!(s.contains($u[j]) == (mask & bit(j) != 0), "contains after");
                    assert!(Set::from_raw(s.as_raw()) == s, "rebuilding gives an equal set");
                    nd::done();
                };
                /// An inserted history has the same raw form.
                built [2] => {
                    let mut s = Set::<$k>::new();
                    let mut mask: $raw = 0;
                    assert!(s.as_raw() == 0, "a fresh set has no bits");
                    un::<3>(|_| {
                        let i = nd::below(N);
                        if nd::flag() { s.insert($u[i]); mask |= bit(i); } else { s.remove($u[i]); mask &= !bit(i); }
                    });
                    assert!(s.as_raw() == mask, "exactly the bits of the elements");
                    assert!(Set::from_raw(mask) == s, "rebuilding gives an equal set");
                    nd::done();
                };
                /// Any raw value at all gives a coherent set.
                any_raw [2] => {
                    let raw = nd::$draw();
                    let s = Set::<$k>::from_raw(raw);
                    let mut want: $raw = 0;
                    let i = nd::below(N);
                    assert!(s.contains($u[i]) == (raw & bit(i) != 0), "membership by position");
                    want |= raw & FULL;
                    assert!(s.len() == want.count_ones() as usize, "length counts the elements");
                    assert!(s.is_empty() == (want == 0), "emptiness agrees");
                    assert!(s == Set::from_raw(want), "equality by elements");
                    assert!(s.as_raw() == want, "no bits but those of elements");
                    nd::done();
                };
                /// Filtering visits exactly the bits that are set.
                retain [2] => {
                    let (mut s, mask) = any();
                    let keep = nd::$draw() & FULL;
                    let mut seen: $raw = 0;
                    s.retain(|k| {
                        let b = bit(k as usize);
                        assert!(mask & b != 0 && seen & b == 0, "visits elements once");
                        seen |= b;
                        keep & b != 0
                    });
                    assert!(seen == mask, "visits every element");
                    assert!(s.as_raw() == mask & keep, "keeps exactly the chosen elements");
                    nd::done();
                };
                eq [2] => {
                    let (a, x) = any();
                    let (b, y) = any();
                    assert!((a == b) == (x == y), "equality by elements");
                    nd::done();
                };
            }
        } )*
    };
}

/// Iteration over any raw value of a small set.
macro_rules! iterate {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $k:ident $u:ident $raw:ident $draw:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            const N: usize = $u.len();
            crate::harnesses! {
                iter [$unw] => {
                    let raw = nd::$draw();
                    let s = Set::<$k>::from_raw(raw);
                    let mut p = [false; N];
                    un::<N>(|i| p[i] = raw & (1 << i) != 0);
                    assert!(s.len() == count(&p) && s.is_empty() == (count(&p) == 0), "sizes agree with iteration");
                    seq(s.iter(), &p, |k, i| assert!(k == $u[i], "iterates the elements"));
                    nd::done();
                };
                into_iter [$unw] => {
                    let raw = nd::$draw();
                    let s = Set::<$k>::from_raw(raw);
                    let mut p = [false; N];
                    un::<N>(|i| p[i] = raw & (1 << i) != 0);
                    let mut n = 0;
                    seq(s.into_iter(), &p, |k, i| { assert!(k == $u[i], "iterates the elements"); n += 1 });
                    assert!(s.len() == n, "length agrees with iteration");
                    nd::done();
                };
            }
        } )*
    };
}

macro_rules! pairs {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $b:ident $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            const N: usize = $u.len();
            crate::harnesses! {
                ops [$unw] => { pair::<_, _, N, 4>(&$b, &$u) };
                filter [$unw] => { super::filter(&$b, &$u) };
                #[cfg(feature = "thorough")] long [$unw] => { pair::<_, _, N, 8>(&$b, &$u) };
            }
        } )*
    };
}

pairs! {
    p1 [4] K_B1 K_U1; p2 [4] K_B2 K_U2; p3 [5] K_B3 K_U3; p5 [7] K_B5 K_U5; p8 [10] K_B8 K_U8; p9 [11] K_B9 K_U9; pd3 [5] K_DB3 K_D3;
}
pub mod small {
    use super::*;
    crate::harnesses! {
        order2 [5] => order(&K_B2, &K_U2);
        order3 [6] => order(&K_B3, &K_U3);
        orderd3 [6] => order(&K_DB3, &K_D3);
        compare2 [5] => compare(&K_B2, &K_U2);
        compare3 [6] => compare(&K_B3, &K_U3);
        compared3 [6] => compare(&K_DB3, &K_D3);
        empty [3] => {
            let raw = nd::u8();
            let s = Set::<B0>::from_raw(raw);
            assert!(s.len() == 0 && s.is_empty() && s == Set::new() && s.iter().next().is_none(), "no elements, whatever the raw value");
            nd::done();
        };
    }
}
iterate! {
    i1 [4] B1 K_B1 u8 u8; i2 [5] B2 K_B2 u8 u8; i3 [6] B3 K_B3 u8 u8; i4 [7] B4 K_B4 u8 u8;
    #[cfg(feature = "thorough")] i5 [8] B5 K_B5 u8 u8;
    #[cfg(feature = "thorough")] i7 [10] B7 K_B7 u8 u8;
    #[cfg(feature = "thorough")] i8 [11] B8 K_B8 u8 u8;
    #[cfg(feature = "thorough")] i9 [12] B9 K_B9 u16 u16;
}
raw! {
    r1 B1 K_B1 u8 u8; r2 B2 K_B2 u8 u8; r7 B7 K_B7 u8 u8; r8 B8 K_B8 u8 u8; r9 B9 K_B9 u16 u16; r15 B15 K_B15 u16 u16; r16 B16 K_B16 u16 u16;
    r17 B17 K_B17 u32 u32; r31 B31 K_B31 u32 u32; r32 B32 K_B32 u32 u32; r33 B33 K_B33 u64 u64; r63 B63 K_B63 u64 u64; r64 B64 K_B64 u64 u64;
    r65 B65 K_B65 u128 u128; r127 B127 K_B127 u128 u128; r128 B128 K_B128 u128 u128;
}
crate::groups! {
    p1; p2; p3; p5; p8; p9; pd3; small; i1; i2; i3; i4;
    #[cfg(feature = "thorough")] i5;
    #[cfg(feature = "thorough")] i7;
    #[cfg(feature = "thorough")] i8;
    #[cfg(feature = "thorough")] i9;
    r1; r2; r7; r8; r9; r15; r16; r17; r31; r32; r33; r63; r64; r65; r127; r128;
}
