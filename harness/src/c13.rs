//! C13: container ordering is lexicographic in declaration order.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use core::cmp::Ordering::{self, *};
use fixed_map::{Key, Map, Set};

/// A value that cannot be compared with anything, itself included, when it is 255.
#[derive(Clone, Copy)]
pub struct Part(pub u8);
impl PartialEq for Part {
    fn eq(&self, o: &Part) -> bool {
        self.0 != 255 && self.0 == o.0
    }
}
impl PartialOrd for Part {
    fn partial_cmp(&self, o: &Part) -> Option<Ordering> {
        if self.0 == 255 || o.0 == 255 { None } else { Some(if self.0 < o.0 { Less } else if self.0 == o.0 { Equal } else { Greater }) }
    }
}

/// Lexicographic comparison of the sequences of (position, value).
#[inline(always)]
fn lex<const N: usize>(a: &Ref<N>, b: &Ref<N>, value: impl Fn(u8, u8) -> Option<Ordering>) -> Option<Ordering> {
    let mut res = Some(Equal);
    let mut open = true;
    let (na, nb) = (last(&a.p), last(&b.p));
    let more = |n: usize, i: usize| n < N && n > i;
    un::<N>(|i| {
        if open {
            match (a.p[i], b.p[i]) {
                (true, true) => {
                    let c = value(a.v[i], b.v[i]);
                    if c != Some(Equal) {
                        res = c;
                        open = false;
                    }
                }
                // The other sequence goes on at a later position, or ends here.
                (true, false) => {
                    res = Some(if more(nb, i) { Less } else { Greater });
                    open = false;
                }
                (false, true) => {
                    res = Some(if more(na, i) { Greater } else { Less });
                    open = false;
                }
                (false, false) => {}
            }
        }
    });
    res
}

#[inline(always)]
fn plain(a: u8, b: u8) -> Option<Ordering> {
    Some(if a < b { Less } else if a == b { Equal } else { Greater })
}

#[inline(always)]
fn as_ref<const N: usize>(p: &[bool; N]) -> Ref<N> {
    Ref { p: *p, v: [0; N] }
}

fn map_cmp<K: Key, const N: usize>(u: &[K; N])
where
    Map<K, u8>: Ord,
{
    let (a, ra) = any_map(u);
    let (b, rb) = any_map(u);
    let want = lex(&ra, &rb, plain);
    assert!(Some(a.cmp(&b)) == want, "total order");
    assert!((want == Some(Equal)) == ra.eq(&rb), "order agrees with equality");
    nd::done();
}

fn map_pcmp<K: Key, const N: usize>(u: &[K; N])
where
    Map<K, Part>: PartialOrd,
{
    let (mut a, mut b) = (Map::new(), Map::new());
    let (mut ra, mut rb) = (Ref::<N>::new(), Ref::<N>::new());
    un::<N>(|i| {
        if nd::flag() {
            ra.put(i, nd::u8());
            a.insert(u[i], Part(ra.v[i]));
        }
        if nd::flag() {
            rb.put(i, nd::u8());
            b.insert(u[i], Part(rb.v[i]));
        }
    });
    let want = lex(&ra, &rb, |x, y| Part(x).partial_cmp(&Part(y)));
    assert!(a.partial_cmp(&b) == want, "partial order");
    nd::done();
}

fn map_ops<K: Key, const N: usize>(u: &[K; N])
where
    Map<K, u8>: Ord + Clone,
{
    let (a, ra) = any_map(u);
    let (b, rb) = any_map(u);
    let want = lex(&ra, &rb, plain).unwrap();
    assert!((a < b) == (want == Less), "lt");
    assert!((a <= b) == (want != Greater), "le");
    assert!((a > b) == (want == Greater), "gt");
    assert!((a >= b) == (want != Less), "ge");
    let kind = nd::below(2);
    let (mut m, r) = if kind == 0 { (a.max(b), if want == Greater { ra } else { rb }) } else { (a.min(b), if want == Greater { rb } else { ra }) };
    observe(&mut m, &r, u);
    nd::done();
}

fn map_clamp<K: Key, const N: usize>(u: &[K; N])
where
    Map<K, u8>: Ord,
{
    let (a, ra) = any_map(u);
    let (lo, rlo) = any_map(u);
    let (hi, rhi) = any_map(u);
    nd::assume(lex(&rlo, &rhi, plain) != Some(Greater));
    let r = if lex(&ra, &rlo, plain) == Some(Less) { rlo } else if lex(&ra, &rhi, plain) == Some(Greater) { rhi } else { ra };
    let mut m = a.clamp(lo, hi);
    observe(&mut m, &r, u);
    nd::done();
}

/// Operators of a partial order whose values may be incomparable.
fn map_pops<K: Key, const N: usize>(u: &[K; N])
where
    Map<K, Part>: PartialOrd,
{
    let (mut a, mut b) = (Map::new(), Map::new());
    let (mut ra, mut rb) = (Ref::<N>::new(), Ref::<N>::new());
    un::<N>(|i| {
        if nd::flag() {
            ra.put(i, nd::u8());
            a.insert(u[i], Part(ra.v[i]));
        }
        if nd::flag() {
            rb.put(i, nd::u8());
            b.insert(u[i], Part(rb.v[i]));
        }
    });
    let want = lex(&ra, &rb, |x, y| Part(x).partial_cmp(&Part(y)));
    assert!((a < b) == (want == Some(Less)), "lt");
    assert!((a <= b) == matches!(want, Some(Less | Equal)), "le");
    assert!((a > b) == (want == Some(Greater)), "gt");
    assert!((a >= b) == matches!(want, Some(Greater | Equal)), "ge");
    nd::done();
}

fn set_cmp<K: Key, const N: usize>(u: &[K; N])
where
    Set<K>: Ord,
{
    let (a, ra) = any_set(u);
    let (b, rb) = any_set(u);
    let want = lex(&as_ref(&ra), &as_ref(&rb), plain).unwrap();
    assert!(a.cmp(&b) == want, "total order");
    assert!(a.partial_cmp(&b) == Some(want), "partial order");
    nd::done();
}

fn set_ops<K: Key, const N: usize>(u: &[K; N])
where
    Set<K>: Ord + Clone,
{
    let (a, ra) = any_set(u);
    let (b, rb) = any_set(u);
    let want = lex(&as_ref(&ra), &as_ref(&rb), plain).unwrap();
    assert!((a < b) == (want == Less), "lt");
    assert!((a <= b) == (want != Greater), "le");
    assert!((a > b) == (want == Greater), "gt");
    assert!((a >= b) == (want != Less), "ge");
    let kind = nd::below(2);
    let (s, r) = if kind == 0 { (a.max(b), if want == Greater { ra } else { rb }) } else { (a.min(b), if want == Greater { rb } else { ra }) };
    sobserve(&s, &r, u);
    nd::done();
}

fn set_clamp<K: Key, const N: usize>(u: &[K; N])
where
    Set<K>: Ord,
{
    let (a, ra) = any_set(u);
    let (lo, rlo) = any_set(u);
    let (hi, rhi) = any_set(u);
    let l = |x: &[bool; N], y: &[bool; N]| lex(&as_ref(x), &as_ref(y), plain).unwrap();
    nd::assume(l(&rlo, &rhi) != Greater);
    let r = if l(&ra, &rlo) == Less { rlo } else if l(&ra, &rhi) == Greater { rhi } else { ra };
    let s = a.clamp(lo, hi);
    sobserve(&s, &r, u);
    nd::done();
}

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            crate::harnesses! {
                map_cmp [$unw] => { super::map_cmp(&$u) };
                map_pcmp [$unw] => { super::map_pcmp(&$u) };
                map_ops [$unw] => { super::map_ops(&$u) };
                map_pops [$unw] => { super::map_pops(&$u) };
                map_clamp [$unw] => { super::map_clamp(&$u) };
                set_cmp [$unw] => { super::set_cmp(&$u) };
                set_ops [$unw] => { super::set_ops(&$u) };
                set_clamp [$unw] => { super::set_clamp(&$u) };
            }
        } )*
    };
}
/// Explicit discriminants must not matter; the operators are covered by the same code.
macro_rules! brief {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            crate::harnesses! {
                map_cmp [$unw] => { super::map_cmp(&$u) };
                map_pcmp [$unw] => { super::map_pcmp(&$u) };
                set_cmp [$unw] => { super::set_cmp(&$u) };
            }
        } )*
    };
}
macro_rules! sets {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            crate::harnesses! {
                set_cmp [$unw] => { super::set_cmp(&$u) };
                set_ops [$unw] => { super::set_ops(&$u) };
            }
        } )*
    };
}
shapes! {
    u1 [4] K_U1; u2 [4] K_U2; u3 [5] K_U3;
    #[cfg(feature = "thorough")] d3 [5] K_D3;
    #[cfg(feature = "thorough")] u4 [6] K_U4;
}
brief! { e3 [5] K_D3; }
sets! {
    one [3] K_ONE; b1 [4] K_B1; b2 [4] K_B2; b3 [5] K_B3; db3 [5] K_DB3;
    #[cfg(feature = "thorough")] b5 [7] K_B5;
    #[cfg(feature = "thorough")] u5 [7] K_U5;
    #[cfg(feature = "thorough")] b9 [11] K_B9;
}
crate::groups! {
    u1; u2; u3; e3; one;
    #[cfg(feature = "thorough")] d3; b1; b2; b3; db3;
    #[cfg(feature = "thorough")] u4;
    #[cfg(feature = "thorough")] b5;
    #[cfg(feature = "thorough")] u5;
    #[cfg(feature = "thorough")] b9;
}
