//! C12: equality, cloning, copying and hashing follow the contents.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use core::hash::{Hash, Hasher};
use fixed_map::map::MapStorage;
use fixed_map::set::SetStorage;
use fixed_map::{Key, Map, Set};

/// A value that is not equal to itself when it is 255.
#[derive(Clone, Copy)]
pub struct Nan(pub u8);
impl PartialEq for Nan {
    fn eq(&self, o: &Nan) -> bool {
        self.0 != 255 && self.0 == o.0
    }
}

/// Records everything it is fed.
pub struct Rec {
    pub n: usize,
    pub log: [u64; 24],
}
impl Rec {
    fn new() -> Self {
        Rec { n: 0, log: [0; 24] }
    }
    #[inline(always)]
    fn put(&mut self, kind: u8, v: u64) {
        assert!(self.n < 24, "hasher log of the harness is large enough");
        self.log[self.n] = v.wrapping_mul(16) ^ kind as u64;
        self.n += 1;
    }
    #[inline(always)]
    fn same(&self, o: &Rec) -> bool {
        let mut e = self.n == o.n;
        un::<12>(|i| e &= (i >= self.n || self.log[i] == o.log[i]) && (i + 12 >= self.n || self.log[i + 12] == o.log[i + 12]));
        e
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.put(1, b.len() as u64);
        for x in b {
            self.put(2, *x as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.put(3, v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.put(4, v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.put(5, v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.put(6, v)
    }
    fn write_usize(&mut self, v: usize) {
        self.put(7, v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.put(8, v as u64)
    }
}

fn map_eq<K: Key, const N: usize>(u: &[K; N])
where
    Map<K, u8>: PartialEq,
{
    let (a, ra) = any_map_residue(u);
    let (b, rb) = any_map(u);
    assert!((a == b) == ra.eq(&rb), "equal exactly when the contents are");
    assert!((b == a) == ra.eq(&rb), "equality is symmetric");
    assert!((a != b) == !ra.eq(&rb), "not-equal is the opposite");
    nd::done();
}

/// Equality is decided by the equality of the values, whatever that is.
fn nan_eq<K: Key, const N: usize>(u: &[K; N])
where
    Map<K, Nan>: PartialEq,
{
    let (mut a, mut b) = (Map::new(), Map::new());
    let mut eq = true;
    let mut refl = true;
    un::<N>(|i| {
        let (p, q) = (nd::flag(), nd::flag());
        let (v, w) = (Nan(nd::u8()), Nan(nd::u8()));
        if p {
            a.insert(u[i], v);
            refl &= v == v;
        }
        if q {
            b.insert(u[i], w);
        }
        eq &= p == q && (!p || v == w);
    });
    assert!((a == b) == eq, "equal exactly when all values are");
    assert!((a == a) == refl, "reflexive exactly when all values are");
    nd::done();
}

fn map_clone<K: Key, const N: usize>(u: &[K; N])
where
    Map<K, u8>: Clone + Copy + PartialEq,
{
    let (mut a, ra) = any_map_residue(u);
    let mut b = a.clone();
    assert!(a == b, "a clone is equal");
    let mut rb = ra;
    op::<_, N, true>(&mut b, &mut rb, u, 3);
    observe(&mut a, &ra, u);
    observe(&mut b, &rb, u);
    let mut c = b;
    let rc = rb;
    op::<_, N, true>(&mut b, &mut rb, u, 2);
    observe(&mut c, &rc, u);
    assert!(c.len() == rc.len(), "size of a copy");
    nd::done();
}

fn clone_from<K: Key, const N: usize>(u: &[K; N])
where
    Map<K, u8>: Clone + PartialEq,
    Set<K>: Clone + PartialEq,
{
    let (mut a, _) = any_map_residue(u);
    let (b, mut rb) = any_map(u);
    a.clone_from(&b);
    assert!(a == b, "clone_from gives an equal map");
    observe(&mut a, &rb, u);
    op::<_, N, true>(&mut a, &mut rb, u, 2);
    let (mut s, _) = any_set_residue(u);
    let (t, mut rt) = any_set(u);
    s.clone_from(&t);
    sobserve(&s, &rt, u);
    sop::<_, N, true>(&mut s, &mut rt, u, 2);
    nd::done();
}

fn set_eq<K: Key, const N: usize>(u: &[K; N])
where
    Set<K>: PartialEq,
{
    let (a, ra) = any_set_residue(u);
    let (b, rb) = any_set(u);
    let mut same = true;
    un::<N>(|i| same &= ra[i] == rb[i]);
    assert!((a == b) == same, "equal exactly when the elements are");
    assert!((b == a) == same, "equality is symmetric");
    assert!((a != b) == !same, "not-equal is the opposite");
    nd::done();
}

fn set_clone<K: Key, const N: usize>(u: &[K; N])
where
    Set<K>: Clone + Copy + PartialEq,
{
    let (a, ra) = any_set_residue(u);
    let mut b = a.clone();
    assert!(a == b, "a clone is equal");
    let mut rb = ra;
    sop::<_, N, true>(&mut b, &mut rb, u, 5);
    sobserve(&a, &ra, u);
    sobserve(&b, &rb, u);
    let c = b;
    let rc = rb;
    sop::<_, N, true>(&mut b, &mut rb, u, 2);
    sobserve(&c, &rc, u);
    sobserve(&b, &rb, u);
    nd::done();
}

fn map_hash<K: Key, const N: usize>(u: &[K; N])
where
    Map<K, u8>: Hash + Clone,
{
    let (a, ra) = any_map_residue(u);
    let (b, rb) = any_map(u);
    nd::assume(ra.eq(&rb));
    let (mut x, mut y) = (Rec::new(), Rec::new());
    a.hash(&mut x);
    b.hash(&mut y);
    assert!(x.same(&y), "equal maps feed the same data");
    nd::done();
}

fn set_hash<K: Key, const N: usize>(u: &[K; N])
where
    Set<K>: Hash,
{
    let (a, ra) = any_set_residue(u);
    let (b, rb) = any_set(u);
    un::<N>(|i| nd::assume(ra[i] == rb[i]));
    let (mut x, mut y) = (Rec::new(), Rec::new());
    a.hash(&mut x);
    b.hash(&mut y);
    assert!(x.same(&y), "equal sets feed the same data");
    nd::done();
}

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            crate::harnesses! {
                map_eq [$unw] => { super::map_eq(&$u) };
                nan_eq [$unw] => { super::nan_eq(&$u) };
                map_clone [$unw] => { super::map_clone(&$u) };
                set_eq [$unw] => { super::set_eq(&$u) };
                set_clone [$unw] => { super::set_clone(&$u) };
                clone_from [$unw] => { super::clone_from(&$u) };
            }
        } )*
        crate::groups! { $( $(#[$m])* $s; )* hash; }
    };
}
shapes! {
    u1 [4] K_U1; u2 [5] K_U2; u3 [5] K_U3; u5 [7] K_U5; d3 [5] K_D3; b2 [5] K_B2; b9 [11] K_B9; db3 [5] K_DB3;
    boolean [4] K_BOOL; ob [5] K_OB; oob [6] K_OOB; one [3] K_ONE; oone [4] K_OONE; ou2 [5] K_OU2; oci [5] K_OCI;
    ca [6] K_CA; cb [6] K_CB; cc [5] K_CC; cd [5] K_CD; ce [6] K_CE; cf [5] K_CF; cg [7] K_CG; ch [5] K_CH;
    cj [6] K_CJ; ck [5] K_CK; cl [5] K_CL; cm [7] K_CM; cn [7] K_CN; cp [4] K_CP; cs [4] K_CS; cu [4] K_CU;
}

macro_rules! hashes {
    ($( $(#[$m:meta])* $s:ident $t:ident [$unw:literal] $u:ident; )*) => {
        crate::harnesses! {
            $( $(#[$m])* $s [$unw] => { map_hash(&$u) }; )*
            $( $(#[$m])* $t [$unw] => { set_hash(&$u) }; )*
            ones [3] => set_hash(&K_ONE);
        }
    };
}
pub mod hash {
    use super::*;
    hashes! {
        u1m u1s [4] K_U1; u2m u2s [4] K_U2; u3m u3s [5] K_U3; u5m u5s [7] K_U5; d3m d3s [5] K_D3; b2m b2s [4] K_B2; b9m b9s [11] K_B9;
    }
}
