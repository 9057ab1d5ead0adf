//! C17: every value is handed back or dropped exactly once, without undefined behaviour.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use core::cell::Cell;
use fixed_map::map::{Entry, MapStorage, OccupiedEntry, VacantEntry};
use fixed_map::{Key, Map};

const M: usize = 12;

/// Counts how often each value made was dropped.
pub struct Book {
    made: Cell<usize>,
    drops: [Cell<u8>; M],
}
impl Book {
    fn make(&self) -> D {
        let id = self.made.get();
        assert!(id < M, "the harness makes few enough values");
        self.made.set(id + 1);
        D { id: id as u8 }
    }
    /// Everything made was dropped exactly once.
    fn settled(&self) -> bool {
        let mut ok = true;
        un::<M>(|i| ok &= self.drops[i].get() == (i < self.made.get()) as u8);
        ok
    }
    fn alive(&self, id: u8) -> bool {
        self.drops[id as usize].get() == 0
    }
}
/// One per process: a harness is a program of its own.
struct Global(Book);
unsafe impl Sync for Global {}
static BOOK: Global = Global(Book { made: Cell::new(0), drops: [const { Cell::new(0) }; M] });

pub struct D {
    id: u8,
}
impl Drop for D {
    fn drop(&mut self) {
        let c = &BOOK.0.drops[self.id as usize];
        assert!(c.get() == 0, "a value is dropped twice");
        c.set(1);
    }
}
impl Clone for D {
    fn clone(&self) -> Self {
        BOOK.0.make()
    }
}

#[inline(always)]
fn any<K: Key, const N: usize>(u: &[K; N], b: &Book) -> (Map<K, D>, Ref<N>) {
    let mut m = Map::new();
    let mut r = Ref::new();
    un::<N>(|i| {
        if nd::flag() {
            let d = b.make();
            r.put(i, d.id);
            assert!(m.insert(u[i], d).is_none(), "nothing replaced");
        }
    });
    (m, r)
}

/// One arbitrary operation; values handed back are dropped here.
fn op<K: Key + PartialEq, const N: usize>(u: &[K; N], kinds: core::ops::Range<u8>) {
    let b = &BOOK.0;
    {
        let (mut m, mut r) = any(u, b);
        let i = nd::below(N);
        let kind = nd::u8();
        nd::assume(kind >= kinds.start && kind < kinds.end);
        match kind {
            0 => {
                let d = b.make();
                let id = d.id;
                let old = m.insert(u[i], d);
                assert!(old.as_ref().map(|d| d.id) == r.get(i), "the replaced value is handed back");
                assert!(!r.p[i] || b.alive(r.v[i]), "a handed back value is still alive");
                r.put(i, id);
            }
            1 => {
                let old = m.remove(u[i]);
                assert!(old.as_ref().map(|d| d.id) == r.get(i), "the removed value is handed back");
                assert!(!r.p[i] || b.alive(r.v[i]), "a handed back value is still alive");
                r.del(i);
            }
            2 => {
                m.clear();
                un::<N>(|j| assert!(!r.p[j] || !b.alive(r.v[j]), "clearing drops at once"));
                r.clear();
            }
            3 => {
                let mut keep = [false; N];
            un::<N>(|j| keep[j] = nd::flag());
                m.retain(|k, d| {
                    assert!(b.alive(d.id), "the predicate sees live values");
                    keep[pos(u, k)]
                });
                un::<N>(|j| {
                    if r.p[j] && !keep[j] {
                        assert!(!b.alive(r.v[j]), "filtering drops at once");
                        r.del(j);
                    }
                });
            }
            4 => {
                let d = b.make();
                let id = d.id;
                let x = m.entry(u[i]).or_insert(d);
                if !r.p[i] {
                    r.put(i, id);
                }
                assert!(x.id == r.v[i], "or_insert");
            }
            5 => {
                let x = m.entry(u[i]).or_insert_with(|| b.make());
                let id = x.id;
                if !r.p[i] {
                    r.put(i, id);
                }
                assert!(id == r.v[i], "or_insert_with");
            }
            6 => match m.entry(u[i]) {
                Entry::Occupied(mut e) => {
                    if nd::flag() {
                        let d = b.make();
                        let id = d.id;
                        let old = e.insert(d);
                        assert!(old.id == r.v[i] && b.alive(old.id), "the replaced value is handed back");
                        r.put(i, id);
                    } else {
                        let old = e.remove();
                        assert!(old.id == r.v[i] && b.alive(old.id), "the removed value is handed back");
                        r.del(i);
                    }
                }
                Entry::Vacant(e) => {
                    let d = b.make();
                    r.put(i, d.id);
                    e.insert(d);
                }
            },
            _ => {
                if let Some(x) = m.get_mut(u[i]) {
                    let d = b.make();
                    r.put(i, d.id);
                    *x = d;
                }
            }
        }
        un::<N>(|j| {
            assert!(m.get(u[j]).map(|d| d.id) == r.get(j), "content after");
            assert!(!r.p[j] || b.alive(r.v[j]), "what is stored is alive");
        });
    }
    assert!(b.settled(), "a value leaked");
    nd::done();
}

/// A consuming iterator stopped after any number of steps from either end.
macro_rules! consume {
    ($u:ident) => {{
        const N: usize = $u.len();
        let b = &BOOK.0;
        {
            let (m, r) = any(&$u, b);
            let mut left = r.p;
            let mut it = m.into_iter();
            let n = nd::below(N + 2);
            un::<{ N + 1 }>(|s| {
                if s < n {
                    let back = nd::flag();
                    let at = if back { last(&left) } else { first(&left) };
                    match if back { it.next_back() } else { it.next() } {
                        Some((k, d)) => {
                            assert!(at < N && k == $u[at] && d.id == r.v[at], "the stored value comes out");
                            assert!(b.alive(d.id), "alive");
                            left[at] = false;
                        }
                        None => assert!(at == N, "all values come out"),
                    }
                }
            });
            un::<N>(|i| assert!(!left[i] || b.alive(r.v[i]), "what is left is alive until the iterator goes"));
        }
        assert!(b.settled(), "a value leaked");
        nd::done();
    }};
}

/// A clone owns values of its own.
macro_rules! cloned {
    ($u:ident) => {{
        const N: usize = $u.len();
        let b = &BOOK.0;
        {
            let (m, r) = any(&$u, b);
            let c = m.clone();
            un::<N>(|i| {
                assert!(c.contains_key($u[i]) == r.p[i], "clone has the same keys");
                if r.p[i] {
                    assert!(c.get($u[i]).unwrap().id != r.v[i], "clone has values of its own");
                }
            });
            if nd::flag() {
                drop(m);
                un::<N>(|i| assert!(!r.p[i] || b.alive(c.get($u[i]).unwrap().id), "clone is independent"));
            } else {
                drop(c);
                un::<N>(|i| assert!(m.get($u[i]).map(|d| d.id) == r.get(i) && (!r.p[i] || b.alive(r.v[i])), "original is independent"));
            }
        }
        assert!(b.settled(), "a value leaked");
        nd::done();
    }};
}

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            crate::harnesses! {
                store [$unw] => { op(&$u, 0..4) };
                entries [$unw] => { op(&$u, 4..8) };
                consume [$unw] => { consume!($u) };
                cloned [$unw] => { cloned!($u) };
            }
        } )*
        crate::groups! { $( $(#[$m])* $s; )* }
    };
}
shapes! {
    u1 [3] K_U1; u2 [4] K_U2; u3 [5] K_U3; boolean [4] K_BOOL; ob [4] K_OB; one [3] K_ONE; oone [4] K_OONE;
    cu [4] K_CU; cs [4] K_CS; ck [4] K_CK; ci [4] K_CI; cr [4] K_CR;
    #[cfg(feature = "thorough")] ou2 [4] K_OU2;
    #[cfg(feature = "thorough")] oob [4] K_OOB;
    #[cfg(feature = "thorough")] ca [5] K_CA;
    #[cfg(feature = "thorough")] cb [4] K_CB;
    #[cfg(feature = "thorough")] ce [4] K_CE;
}
