//! C19: keys with hash-stored parts obey the dictionary and set laws.
//! The hash table is replaced by a model of its contract (stubs/hashbrown); iteration order
//! within one table is therefore arbitrary, between the parts of a key it is declaration order.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::map::Entry;
use fixed_map::{Key, Map, Set};

#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum E1 { A(u8), B, C(u8) }
#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum E2 { A, B(i8), C(bool) }
#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum E3 { A(Option<u8>), B(U2) }
#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum E4 { A(E5), B(i8) }
#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum E5 { A, B(i8) }
#[derive(Key, Clone, Copy, PartialEq, Eq, Debug)]
pub enum E6 { A(&'static str), B(()) }

fn distinct<T: PartialEq + Copy, const N: usize>(k: [T; N]) -> [T; N] {
    un::<N>(|i| un::<N>(|j| nd::assume(i >= j || k[i] != k[j])));
    k
}
fn chr() -> char {
    let c = char::from_u32(nd::u32());
    nd::assume(c.is_some());
    c.unwrap()
}
fn text() -> &'static str {
    match nd::below(6) {
        0 => "",
        1 => "a",
        2 => "b",
        3 => "ab",
        4 => "ba",
        _ => "é",
    }
}
fn bytes() -> &'static [u8] {
    match nd::below(5) {
        0 => b"",
        1 => b"\0",
        2 => b"\0\0",
        3 => b"\xff",
        _ => b"\xff\0",
    }
}

// Universes: any pairwise distinct payloads.  Positions are in segments, `SEG`, one per storage
// part; the segments come in declaration order.
fn k_u8() -> [u8; 3] { distinct([nd::u8(), nd::u8(), nd::u8()]) }
fn k_ou8() -> [Option<u8>; 3] { distinct([Some(nd::u8()), Some(nd::u8()), None]) }
fn k_oou8() -> [Option<Option<u8>>; 4] { distinct([Some(Some(nd::u8())), Some(Some(nd::u8())), Some(None), None]) }
fn k_e1() -> [E1; 5] { distinct([E1::A(nd::u8()), E1::A(nd::u8()), E1::B, E1::C(nd::u8()), E1::C(nd::u8())]) }
fn k_e1s() -> [E1; 3] { distinct([E1::A(nd::u8()), E1::B, E1::C(nd::u8())]) }
fn k_e2() -> [E2; 5] { distinct([E2::A, E2::B(nd::u8() as i8), E2::B(nd::u8() as i8), E2::C(true), E2::C(false)]) }
fn k_e2s() -> [E2; 3] { distinct([E2::A, E2::B(nd::u8() as i8), E2::B(nd::u8() as i8)]) }
fn k_e3() -> [E3; 5] { distinct([E3::A(Some(nd::u8())), E3::A(Some(nd::u8())), E3::A(None), E3::B(U2::V0), E3::B(U2::V1)]) }
fn k_e3s() -> [E3; 3] { distinct([E3::A(Some(nd::u8())), E3::A(None), E3::B(U2::V0)]) }
fn k_e4() -> [E4; 4] { distinct([E4::A(E5::A), E4::A(E5::B(nd::u8() as i8)), E4::A(E5::B(nd::u8() as i8)), E4::B(nd::u8() as i8)]) }
fn k_e6() -> [E6; 3] { distinct([E6::A(text()), E6::A(text()), E6::B(())]) }

/// A map with arbitrary content, put in in two orders, so that equal contents are laid out
/// differently; the value of position `i` is `i` modulo 8.
#[inline(always)]
fn tagged<K: Key, const N: usize>(u: &[K; N]) -> (Map<K, u8>, Ref<N>) {
    let mut m = Map::new();
    let mut r = Ref::new();
    let back = nd::flag();
    un::<N>(|i| {
        let i = if back { N - 1 - i } else { i };
        let c = nd::u8();
        if c & 1 != 0 {
            let v = (nd::u8() & 0xf8) | i as u8;
            m.insert(u[i], v);
            r.put(i, v);
        }
        if c & 2 != 0 {
            let j = nd::below(N);
            m.remove(u[j]);
            r.del(j);
        }
    });
    (m, r)
}
#[inline(always)]
fn some_set<K: Key, const N: usize>(u: &[K; N]) -> (Set<K>, [bool; N]) {
    let mut s = Set::new();
    let mut r = [false; N];
    let back = nd::flag();
    un::<N>(|i| {
        let i = if back { N - 1 - i } else { i };
        let c = nd::u8();
        if c & 1 != 0 {
            s.insert(u[i]);
            r[i] = true;
        }
        if c & 2 != 0 {
            let j = nd::below(N);
            s.remove(u[j]);
            r[j] = false;
        }
    });
    (s, r)
}

/// `it` yields the flagged positions, each once, the segments in order; writes the order down.
#[inline(always)]
fn bag<T, const N: usize>(mut it: impl Iterator<Item = T>, p: &[bool; N], seg: &[u8; N], mut at: impl FnMut(T) -> usize) -> [u8; N] {
    let mut left = *p;
    let mut order = [N as u8; N];
    let mut part = 0;
    un::<N>(|j| {
        let n = count(&left);
        let (lo, hi) = it.size_hint();
        assert!(lo <= n, "size hint promises more than remain");
        assert!(hi.is_none() || hi.unwrap() >= n, "size hint promises fewer than remain");
        match it.next() {
            Some(x) => {
                let i = at(x);
                assert!(i < N && left[i], "an entry that is not there, or twice");
                left[i] = false;
                assert!(seg[i] >= part, "parts in declaration order");
                part = seg[i];
                order[j] = i as u8;
            }
            None => assert!(first(&left) == N, "iteration ended before a present entry"),
        }
    });
    assert!(it.next().is_none(), "iteration yields more than the present entries");
    assert!(first(&left) == N, "every entry is seen");
    order
}
#[inline(always)]
fn same<const N: usize>(a: &[u8; N], b: &[u8; N]) {
    un::<N>(|i| assert!(a[i] == b[i], "all iterators agree on the order"));
}

/// Any two keys, equal or not.
fn pair<K: Key + PartialEq>(x: K, y: K) {
    let (v, w) = (nd::u8(), nd::u8());
    let same = x == y;
    let mut m = Map::new();
    assert!(m.is_empty() && m.get(x).is_none() && m.remove(x).is_none(), "starts empty");
    assert!(m.insert(x, v).is_none() && m.len() == 1, "a new key");
    let old = if same { Some(v) } else { None };
    assert!(m.get(y).copied() == old && m.contains_key(y) == same, "found exactly under an equal key");
    match m.entry(y) {
        Entry::Occupied(_) => assert!(same, "occupied exactly for an equal key"),
        Entry::Vacant(_) => assert!(!same, "vacant exactly for a different key"),
    }
    assert!(m.insert(y, w) == old && m.len() == 2 - same as usize, "replaces exactly an equal key");
    assert!(m.get(x).copied() == Some(if same { w } else { v }), "the other key keeps its value");
    assert!(m.remove(y) == Some(w) && m.contains_key(x) != same, "removes exactly an equal key");
    nd::done();
}
fn set_pair<K: Key + PartialEq>(x: K, y: K) {
    let same = x == y;
    let mut s = Set::new();
    assert!(s.is_empty() && !s.contains(x) && !s.remove(x), "starts empty");
    assert!(s.insert(x) && s.len() == 1, "a new element");
    assert!(s.contains(y) == same, "found exactly if equal");
    assert!(s.insert(y) != same && s.len() == 2 - same as usize, "added exactly if different");
    assert!(s.contains(x) && s.remove(y) && s.contains(x) != same, "removes exactly an equal element");
    nd::done();
}

fn point<K: Key + PartialEq, const N: usize>(u: [K; N]) {
    let (mut m, mut r) = any_map_residue(&u);
    op::<_, N, true>(&mut m, &mut r, &u, 8);
    observe(&mut m, &r, &u);
    assert!(m.len() == r.len() && m.is_empty() == (r.len() == 0), "size");
    nd::done();
}
fn entry<K: Key + PartialEq, const N: usize>(u: [K; N]) {
    let (mut m, mut r) = any_map(&u);
    entry_op(&mut m, &mut r, &u, 0..8);
    observe(&mut m, &r, &u);
    assert!(m.len() == r.len(), "size");
    nd::done();
}
fn history<K: Key + PartialEq, const N: usize, const H: usize>(u: [K; N]) {
    let mut m = Map::new();
    let mut r = Ref::new();
    un::<H>(|_| op::<_, N, true>(&mut m, &mut r, &u, 8));
    observe(&mut m, &r, &u);
    nd::done();
}
fn set<K: Key + PartialEq, const N: usize>(u: [K; N]) {
    let (mut s, mut r) = some_set(&u);
    sop::<_, N, true>(&mut s, &mut r, &u, 5);
    sobserve(&s, &r, &u);
    assert!(s.len() == count(&r) && s.is_empty() == (count(&r) == 0), "size");
    nd::done();
}
fn walk<K: Key + PartialEq, const N: usize>(u: [K; N], seg: [u8; N]) {
    let (m, r) = tagged(&u);
    let tag = |v: &u8| {
        let i = (*v & 7) as usize;
        assert!(i < N && r.v[i] == *v, "the stored value");
        i
    };
    let o = bag(m.iter(), &r.p, &seg, |(k, v)| {
        let i = pos(&u, k);
        assert!(i < N && r.v[i] == *v, "the key's value");
        i
    });
    same(&o, &bag(m.keys(), &r.p, &seg, |k| pos(&u, k)));
    same(&o, &bag(m.values(), &r.p, &seg, tag));
    nd::done();
}
fn walk_mut<K: Key + PartialEq, const N: usize>(u: [K; N], seg: [u8; N]) {
    let (mut m, mut r) = tagged(&u);
    let x = nd::u8() & 0xf8;
    let o = bag(m.iter_mut(), &r.p, &seg, |(k, v)| {
        let i = pos(&u, k);
        assert!(i < N && r.v[i] == *v, "the key's value");
        *v ^= x;
        i
    });
    un::<N>(|i| r.v[i] ^= x);
    same(&o, &bag(m.values_mut(), &r.p, &seg, |v| {
        let i = (*v & 7) as usize;
        assert!(i < N && r.v[i] == *v, "the written value");
        i
    }));
    observe(&mut m, &r, &u);
    same(&o, &bag(m.into_iter(), &r.p, &seg, |(k, v)| {
        let i = pos(&u, k);
        assert!(i < N && r.v[i] == v, "the key's value");
        i
    }));
    nd::done();
}
fn set_walk<K: Key + PartialEq, const N: usize>(u: [K; N], seg: [u8; N]) {
    let (s, r) = some_set(&u);
    let o = bag(s.iter(), &r, &seg, |k| pos(&u, k));
    same(&o, &bag(s.into_iter(), &r, &seg, |k| pos(&u, k)));
    nd::done();
}
fn retain<K: Key + PartialEq, const N: usize>(u: [K; N]) {
    let (mut m, mut r) = tagged(&u);
    let mut keep = [false; N];
    un::<N>(|i| keep[i] = nd::flag());
    let x = nd::u8();
    let mut seen = [false; N];
    m.retain(|k, v| {
        let i = pos(&u, k);
        assert!(i < N && r.p[i] && !seen[i], "each entry is visited once");
        seen[i] = true;
        assert!(*v == r.v[i], "the predicate sees the stored value");
        *v ^= x;
        keep[i]
    });
    un::<N>(|i| {
        assert!(seen[i] == r.p[i], "every entry is visited");
        r.p[i] &= keep[i];
        r.v[i] ^= x;
    });
    observe(&mut m, &r, &u);
    assert!(m.len() == r.len(), "size");
    m.clear();
    r.clear();
    observe(&mut m, &r, &u);
    assert!(m.is_empty(), "clear");
    nd::done();
}
fn set_retain<K: Key + PartialEq, const N: usize>(u: [K; N]) {
    let (mut s, mut r) = some_set(&u);
    let mut keep = [false; N];
    un::<N>(|i| keep[i] = nd::flag());
    let mut seen = [false; N];
    s.retain(|k| {
        let i = pos(&u, k);
        assert!(i < N && r[i] && !seen[i], "each element is visited once");
        seen[i] = true;
        keep[i]
    });
    un::<N>(|i| {
        assert!(seen[i] == r[i], "every element is visited");
        r[i] &= keep[i];
    });
    sobserve(&s, &r, &u);
    assert!(s.len() == count(&r), "size");
    s.clear();
    sobserve(&s, &[false; N], &u);
    nd::done();
}
fn equal<K: Key + PartialEq, const N: usize>(u: [K; N])
where
    K::MapStorage<u8>: PartialEq,
{
    let (a, ra) = tagged(&u);
    let (b, rb) = tagged(&u);
    assert!((a == b) == ra.eq(&rb), "equal exactly when the contents are");
    assert!((a != b) != ra.eq(&rb), "unequal exactly when the contents differ");
    nd::done();
}
fn set_equal<K: Key + PartialEq, const N: usize>(u: [K; N])
where
    K::SetStorage: PartialEq,
{
    let (a, ra) = some_set(&u);
    let (b, rb) = some_set(&u);
    let mut e = true;
    un::<N>(|i| e &= ra[i] == rb[i]);
    assert!((a == b) == e, "equal exactly when the elements are");
    nd::done();
}
fn clone<K: Key + PartialEq, const N: usize>(u: [K; N])
where
    K::MapStorage<u8>: Clone,
{
    let (mut a, mut ra) = tagged(&u);
    let mut b = a.clone();
    let mut rb = ra;
    op::<_, N, false>(&mut a, &mut ra, &u, 3);
    op::<_, N, false>(&mut b, &mut rb, &u, 3);
    observe(&mut a, &ra, &u);
    observe(&mut b, &rb, &u);
    nd::done();
}
fn set_clone<K: Key + PartialEq, const N: usize>(u: [K; N])
where
    K::SetStorage: Clone,
{
    let (mut s, mut rs) = some_set(&u);
    let mut t = s.clone();
    let mut rt = rs;
    sop::<_, N, false>(&mut s, &mut rs, &u, 2);
    sop::<_, N, false>(&mut t, &mut rt, &u, 2);
    sobserve(&s, &rs, &u);
    sobserve(&t, &rt, &u);
    nd::done();
}
fn common<K: Key + PartialEq, const N: usize>(u: [K; N], seg: [u8; N]) {
    let (a, ra) = some_set(&u);
    let (b, rb) = some_set(&u);
    let mut both = [false; N];
    un::<N>(|i| both[i] = ra[i] && rb[i]);
    bag(a.intersection(&b), &both, &seg, |k| pos(&u, k));
    nd::done();
}

pub mod types {
    use super::*;
    crate::harnesses! {
        t_u8 [5] => pair(nd::u8(), nd::u8());
        t_u8_set [5] => set_pair(nd::u8(), nd::u8());
        t_u32 [5] => pair(nd::u32(), nd::u32());
        t_u32_set [5] => set_pair(nd::u32(), nd::u32());
        t_u64 [5] => pair(nd::u64(), nd::u64());
        t_u64_set [5] => set_pair(nd::u64(), nd::u64());
        t_u128 [5] => pair(nd::u128(), nd::u128());
        t_u128_set [5] => set_pair(nd::u128(), nd::u128());
        t_usize [5] => pair(nd::u64() as usize, nd::u64() as usize);
        t_usize_set [5] => set_pair(nd::u64() as usize, nd::u64() as usize);
        t_i8 [5] => pair(nd::u8() as i8, nd::u8() as i8);
        t_i8_set [5] => set_pair(nd::u8() as i8, nd::u8() as i8);
        t_i32 [5] => pair(nd::u32() as i32, nd::u32() as i32);
        t_i32_set [5] => set_pair(nd::u32() as i32, nd::u32() as i32);
        t_i64 [5] => pair(nd::u64() as i64, nd::u64() as i64);
        t_i64_set [5] => set_pair(nd::u64() as i64, nd::u64() as i64);
        t_i128 [5] => pair(nd::u128() as i128, nd::u128() as i128);
        t_i128_set [5] => set_pair(nd::u128() as i128, nd::u128() as i128);
        t_isize [5] => pair(nd::u64() as isize, nd::u64() as isize);
        t_isize_set [5] => set_pair(nd::u64() as isize, nd::u64() as isize);
        t_char [5] => pair(chr(), chr());
        t_char_set [5] => set_pair(chr(), chr());
        t_str [5] => pair(text(), text());
        t_str_set [5] => set_pair(text(), text());
        t_bytes [5] => pair(bytes(), bytes());
        t_bytes_set [5] => set_pair(bytes(), bytes());
        t_opt [5] => pair(Some(nd::u32()), None);
        t_opt_set [5] => set_pair(Some(nd::u32()), None);
        t_e6 [5] => pair(E6::A(text()), E6::A(text()));
        t_e6_set [5] => set_pair(E6::A(text()), E6::A(text()));
        t_e4 [5] => pair(E4::A(E5::B(nd::u8() as i8)), E4::B(nd::u8() as i8));
        t_e4_set [5] => set_pair(E4::A(E5::B(nd::u8() as i8)), E4::B(nd::u8() as i8));
        t_e1 [5] => pair(E1::A(nd::u8()), E1::C(nd::u8()));
        t_e1_set [5] => set_pair(E1::A(nd::u8()), E1::C(nd::u8()));
        t_e1b [5] => pair(E1::A(nd::u8()), E1::B);
        t_e1b_set [5] => set_pair(E1::A(nd::u8()), E1::B);
    }
}
pub mod n_u8 {
    use super::*;
    crate::harnesses! {
        point [5] => super::point(k_u8());
        entry [5] => super::entry(k_u8());
        history [5] => super::history::<_, 3, 3>(k_u8());
        set [5] => super::set(k_u8());
        walk [5] => super::walk(k_u8(), [0, 0, 0]);
        walk_mut [5] => super::walk_mut(k_u8(), [0, 0, 0]);
        set_walk [5] => super::set_walk(k_u8(), [0, 0, 0]);
        retain [5] => super::retain(k_u8());
        set_retain [5] => super::set_retain(k_u8());
        equal [5] => super::equal(k_u8());
        set_equal [5] => super::set_equal(k_u8());
        clone [5] => super::clone(k_u8());
        set_clone [5] => super::set_clone(k_u8());
        common [5] => super::common(k_u8(), [0, 0, 0]);
    }
}
pub mod o_u8 {
    use super::*;
    crate::harnesses! {
        point [5] => super::point(k_ou8());
        entry [5] => super::entry(k_ou8());
        history [5] => super::history::<_, 3, 3>(k_ou8());
        set [5] => super::set(k_ou8());
        walk [5] => super::walk(k_ou8(), [0, 0, 1]);
        walk_mut [5] => super::walk_mut(k_ou8(), [0, 0, 1]);
        set_walk [5] => super::set_walk(k_ou8(), [0, 0, 1]);
        retain [5] => super::retain(k_ou8());
        set_retain [5] => super::set_retain(k_ou8());
        equal [5] => super::equal(k_ou8());
        set_equal [5] => super::set_equal(k_ou8());
        clone [5] => super::clone(k_ou8());
        set_clone [5] => super::set_clone(k_ou8());
        common [5] => super::common(k_ou8(), [0, 0, 1]);
    }
}
pub mod oo_u8 {
    use super::*;
    crate::harnesses! {
        #[cfg(feature = "thorough")] point [6] => super::point(k_oou8());
        #[cfg(feature = "thorough")] entry [6] => super::entry(k_oou8());
        #[cfg(feature = "thorough")] history [6] => super::history::<_, 4, 3>(k_oou8());
        #[cfg(feature = "thorough")] set [6] => super::set(k_oou8());
        #[cfg(feature = "thorough")] walk [6] => super::walk(k_oou8(), [0, 0, 1, 2]);
        #[cfg(feature = "thorough")] walk_mut [6] => super::walk_mut(k_oou8(), [0, 0, 1, 2]);
        #[cfg(feature = "thorough")] set_walk [6] => super::set_walk(k_oou8(), [0, 0, 1, 2]);
        #[cfg(feature = "thorough")] retain [6] => super::retain(k_oou8());
        #[cfg(feature = "thorough")] set_retain [6] => super::set_retain(k_oou8());
        #[cfg(feature = "thorough")] equal [6] => super::equal(k_oou8());
        #[cfg(feature = "thorough")] set_equal [6] => super::set_equal(k_oou8());
        #[cfg(feature = "thorough")] clone [6] => super::clone(k_oou8());
        #[cfg(feature = "thorough")] set_clone [6] => super::set_clone(k_oou8());
        #[cfg(feature = "thorough")] common [6] => super::common(k_oou8(), [0, 0, 1, 2]);
    }
}
pub mod e1 {
    use super::*;
    crate::harnesses! {
        point [5] => super::point(k_e1s());
        entry [5] => super::entry(k_e1s());
        #[cfg(feature = "thorough")] history [5] => super::history::<_, 3, 3>(k_e1s());
        set [5] => super::set(k_e1s());
        walk [5] => super::walk(k_e1s(), [0, 1, 2]);
        #[cfg(feature = "thorough")] walk_mut [5] => super::walk_mut(k_e1s(), [0, 1, 2]);
        set_walk [5] => super::set_walk(k_e1s(), [0, 1, 2]);
        retain [5] => super::retain(k_e1s());
        set_retain [5] => super::set_retain(k_e1s());
        equal [5] => super::equal(k_e1s());
        set_equal [5] => super::set_equal(k_e1s());
        #[cfg(feature = "thorough")] clone [5] => super::clone(k_e1s());
        set_clone [5] => super::set_clone(k_e1s());
        #[cfg(feature = "thorough")] common [5] => super::common(k_e1s(), [0, 1, 2]);
    }
}
pub mod e2 {
    use super::*;
    crate::harnesses! {
        point [5] => super::point(k_e2s());
        entry [5] => super::entry(k_e2s());
        #[cfg(feature = "thorough")] history [5] => super::history::<_, 3, 3>(k_e2s());
        set [5] => super::set(k_e2s());
        #[cfg(feature = "thorough")] walk [5] => super::walk(k_e2s(), [0, 1, 1]);
        #[cfg(feature = "thorough")] walk_mut [5] => super::walk_mut(k_e2s(), [0, 1, 1]);
        #[cfg(feature = "thorough")] set_walk [5] => super::set_walk(k_e2s(), [0, 1, 1]);
        retain [5] => super::retain(k_e2s());
        set_retain [5] => super::set_retain(k_e2s());
        #[cfg(feature = "thorough")] equal [5] => super::equal(k_e2s());
        #[cfg(feature = "thorough")] set_equal [5] => super::set_equal(k_e2s());
        #[cfg(feature = "thorough")] clone [5] => super::clone(k_e2s());
        #[cfg(feature = "thorough")] set_clone [5] => super::set_clone(k_e2s());
        #[cfg(feature = "thorough")] common [5] => super::common(k_e2s(), [0, 1, 1]);
    }
}
pub mod e3 {
    use super::*;
    crate::harnesses! {
        point [5] => super::point(k_e3s());
        entry [5] => super::entry(k_e3s());
        #[cfg(feature = "thorough")] history [5] => super::history::<_, 3, 3>(k_e3s());
        set [5] => super::set(k_e3s());
        #[cfg(feature = "thorough")] walk [5] => super::walk(k_e3s(), [0, 1, 2]);
        #[cfg(feature = "thorough")] walk_mut [5] => super::walk_mut(k_e3s(), [0, 1, 2]);
        #[cfg(feature = "thorough")] set_walk [5] => super::set_walk(k_e3s(), [0, 1, 2]);
        retain [5] => super::retain(k_e3s());
        set_retain [5] => super::set_retain(k_e3s());
        #[cfg(feature = "thorough")] equal [5] => super::equal(k_e3s());
        #[cfg(feature = "thorough")] set_equal [5] => super::set_equal(k_e3s());
        #[cfg(feature = "thorough")] clone [5] => super::clone(k_e3s());
        #[cfg(feature = "thorough")] set_clone [5] => super::set_clone(k_e3s());
        #[cfg(feature = "thorough")] common [5] => super::common(k_e3s(), [0, 1, 2]);
    }
}
pub mod e4 {
    use super::*;
    crate::harnesses! {
        #[cfg(feature = "thorough")] point [6] => super::point(k_e4());
        #[cfg(feature = "thorough")] entry [6] => super::entry(k_e4());
        #[cfg(feature = "thorough")] history [6] => super::history::<_, 4, 3>(k_e4());
        #[cfg(feature = "thorough")] set [6] => super::set(k_e4());
        #[cfg(feature = "thorough")] walk [6] => super::walk(k_e4(), [0, 1, 1, 2]);
        #[cfg(feature = "thorough")] walk_mut [6] => super::walk_mut(k_e4(), [0, 1, 1, 2]);
        #[cfg(feature = "thorough")] set_walk [6] => super::set_walk(k_e4(), [0, 1, 1, 2]);
        #[cfg(feature = "thorough")] retain [6] => super::retain(k_e4());
        #[cfg(feature = "thorough")] set_retain [6] => super::set_retain(k_e4());
        #[cfg(feature = "thorough")] equal [6] => super::equal(k_e4());
        #[cfg(feature = "thorough")] set_equal [6] => super::set_equal(k_e4());
        #[cfg(feature = "thorough")] clone [6] => super::clone(k_e4());
        #[cfg(feature = "thorough")] set_clone [6] => super::set_clone(k_e4());
        #[cfg(feature = "thorough")] common [6] => super::common(k_e4(), [0, 1, 1, 2]);
    }
}
pub mod e6 {
    use super::*;
    crate::harnesses! {
        #[cfg(feature = "thorough")] point [5] => super::point(k_e6());
        #[cfg(feature = "thorough")] entry [5] => super::entry(k_e6());
        #[cfg(feature = "thorough")] history [5] => super::history::<_, 3, 3>(k_e6());
        #[cfg(feature = "thorough")] set [5] => super::set(k_e6());
        #[cfg(feature = "thorough")] walk [5] => super::walk(k_e6(), [0, 0, 1]);
        #[cfg(feature = "thorough")] walk_mut [5] => super::walk_mut(k_e6(), [0, 0, 1]);
        #[cfg(feature = "thorough")] set_walk [5] => super::set_walk(k_e6(), [0, 0, 1]);
        #[cfg(feature = "thorough")] retain [5] => super::retain(k_e6());
        #[cfg(feature = "thorough")] set_retain [5] => super::set_retain(k_e6());
        #[cfg(feature = "thorough")] equal [5] => super::equal(k_e6());
        #[cfg(feature = "thorough")] set_equal [5] => super::set_equal(k_e6());
        #[cfg(feature = "thorough")] clone [5] => super::clone(k_e6());
        #[cfg(feature = "thorough")] set_clone [5] => super::set_clone(k_e6());
        #[cfg(feature = "thorough")] common [5] => super::common(k_e6(), [0, 0, 1]);
    }
}
pub mod e1l {
    use super::*;
    crate::harnesses! {
        #[cfg(feature = "thorough")] point [7] => super::point(k_e1());
        #[cfg(feature = "thorough")] entry [7] => super::entry(k_e1());
        #[cfg(feature = "thorough")] history [7] => super::history::<_, 5, 3>(k_e1());
        #[cfg(feature = "thorough")] set [7] => super::set(k_e1());
        #[cfg(feature = "thorough")] walk [7] => super::walk(k_e1(), [0, 0, 1, 2, 2]);
        #[cfg(feature = "thorough")] walk_mut [7] => super::walk_mut(k_e1(), [0, 0, 1, 2, 2]);
        #[cfg(feature = "thorough")] set_walk [7] => super::set_walk(k_e1(), [0, 0, 1, 2, 2]);
        #[cfg(feature = "thorough")] retain [7] => super::retain(k_e1());
        #[cfg(feature = "thorough")] set_retain [7] => super::set_retain(k_e1());
        #[cfg(feature = "thorough")] equal [7] => super::equal(k_e1());
        #[cfg(feature = "thorough")] set_equal [7] => super::set_equal(k_e1());
        #[cfg(feature = "thorough")] clone [7] => super::clone(k_e1());
        #[cfg(feature = "thorough")] set_clone [7] => super::set_clone(k_e1());
        #[cfg(feature = "thorough")] common [7] => super::common(k_e1(), [0, 0, 1, 2, 2]);
    }
}
pub mod e2l {
    use super::*;
    crate::harnesses! {
        #[cfg(feature = "thorough")] point [7] => super::point(k_e2());
        #[cfg(feature = "thorough")] entry [7] => super::entry(k_e2());
        #[cfg(feature = "thorough")] history [7] => super::history::<_, 5, 3>(k_e2());
        #[cfg(feature = "thorough")] set [7] => super::set(k_e2());
        #[cfg(feature = "thorough")] walk [7] => super::walk(k_e2(), [0, 1, 1, 2, 3]);
        #[cfg(feature = "thorough")] walk_mut [7] => super::walk_mut(k_e2(), [0, 1, 1, 2, 3]);
        #[cfg(feature = "thorough")] set_walk [7] => super::set_walk(k_e2(), [0, 1, 1, 2, 3]);
        #[cfg(feature = "thorough")] retain [7] => super::retain(k_e2());
        #[cfg(feature = "thorough")] set_retain [7] => super::set_retain(k_e2());
        #[cfg(feature = "thorough")] equal [7] => super::equal(k_e2());
        #[cfg(feature = "thorough")] set_equal [7] => super::set_equal(k_e2());
        #[cfg(feature = "thorough")] clone [7] => super::clone(k_e2());
        #[cfg(feature = "thorough")] set_clone [7] => super::set_clone(k_e2());
        #[cfg(feature = "thorough")] common [7] => super::common(k_e2(), [0, 1, 1, 2, 3]);
    }
}
pub mod e3l {
    use super::*;
    crate::harnesses! {
        #[cfg(feature = "thorough")] point [7] => super::point(k_e3());
        #[cfg(feature = "thorough")] entry [7] => super::entry(k_e3());
        #[cfg(feature = "thorough")] history [7] => super::history::<_, 5, 3>(k_e3());
        #[cfg(feature = "thorough")] set [7] => super::set(k_e3());
        #[cfg(feature = "thorough")] walk [7] => super::walk(k_e3(), [0, 0, 1, 2, 3]);
        #[cfg(feature = "thorough")] walk_mut [7] => super::walk_mut(k_e3(), [0, 0, 1, 2, 3]);
        #[cfg(feature = "thorough")] set_walk [7] => super::set_walk(k_e3(), [0, 0, 1, 2, 3]);
        #[cfg(feature = "thorough")] retain [7] => super::retain(k_e3());
        #[cfg(feature = "thorough")] set_retain [7] => super::set_retain(k_e3());
        #[cfg(feature = "thorough")] equal [7] => super::equal(k_e3());
        #[cfg(feature = "thorough")] set_equal [7] => super::set_equal(k_e3());
        #[cfg(feature = "thorough")] clone [7] => super::clone(k_e3());
        #[cfg(feature = "thorough")] set_clone [7] => super::set_clone(k_e3());
        #[cfg(feature = "thorough")] common [7] => super::common(k_e3(), [0, 0, 1, 2, 3]);
    }
}
crate::groups! { types; n_u8; o_u8; oo_u8; e1; e2; e3; e4; e6; e1l; e2l; e3l; }
