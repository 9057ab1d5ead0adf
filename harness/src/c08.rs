//! C08: set size reporting is exact.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Set};

#[inline(always)]
fn sizes<K: Key, const N: usize>(s: &Set<K>, r: &[bool; N]) {
    assert!(s.len() == count(r), "len counts the elements");
    assert!(s.is_empty() == (count(r) == 0), "is_empty iff len is zero");
}

fn one<K: Key, const N: usize>(u: &[K; N]) {
    let (mut s, mut r) = any_set_residue(u);
    sizes(&s, &r);
    sop::<_, N, false>(&mut s, &mut r, u, 5);
    sizes(&s, &r);
    nd::done();
}

fn ends<K: Key, const N: usize>(u: &[K; N]) {
    let mut s = Set::<K>::new();
    assert!(s.len() == 0 && s.is_empty(), "a fresh set is empty");
    let d = Set::<K>::default();
    assert!(d.len() == 0 && d.is_empty(), "a default set is empty");
    un::<N>(|i| {
        s.insert(u[i]);
        assert!(s.len() == i + 1 && !s.is_empty(), "one more after each new element");
        s.insert(u[i]);
        assert!(s.len() == i + 1, "repeating does not count");
    });
    assert!(s.len() == N, "a full set has all elements");
    let mut c = N;
    un::<N>(|i| {
        if nd::flag() {
            s.remove(u[i]);
            c -= 1;
        }
    });
    assert!(s.len() == c && s.is_empty() == (c == 0), "elements are removed one by one");
    s.clear();
    assert!(s.len() == 0 && s.is_empty(), "a cleared set is empty");
    nd::done();
}

fn hist<K: Key, const N: usize, const H: usize>(u: &[K; N]) {
    let mut s = Set::new();
    let mut r = [false; N];
    un::<H>(|_| sop::<_, N, false>(&mut s, &mut r, u, 5));
    sizes(&s, &r);
    nd::done();
}

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            const N: usize = $u.len();
            crate::harnesses! {
                step [$unw] => { one(&$u) };
                ends [$unw] => { super::ends(&$u) };
                #[cfg(feature = "thorough")] long [$unw] => { hist::<_, N, 8>(&$u) };
            }
        } )*
        crate::groups! { $( $(#[$m])* $s; )* empty; big; }
    };
}
shapes! {
    u1 [4] K_U1; u2 [4] K_U2; u3 [5] K_U3; u5 [7] K_U5; u9 [11] K_U9; d3 [5] K_D3;
    b1 [4] K_B1; b2 [4] K_B2; b3 [5] K_B3; b8 [10] K_B8; b9 [11] K_B9; db3 [5] K_DB3;
    boolean [4] K_BOOL; ob [4] K_OB; oob [5] K_OOB; one [3] K_ONE; oone [4] K_OONE; ou2 [4] K_OU2; ob2 [4] K_OB2; oci [5] K_OCI;
    ca [5] K_CA; cb [5] K_CB; cc [5] K_CC; cd [5] K_CD; ce [5] K_CE; cf [5] K_CF; cg [7] K_CG; ch [5] K_CH;
    cj [5] K_CJ; ck [5] K_CK; cl [5] K_CL; cm [7] K_CM; cn [7] K_CN; cp [4] K_CP; cs [4] K_CS; cu [4] K_CU;
}
pub mod empty {
    use super::*;
    crate::harnesses! {
        u0 [3] => super::ends(&K_U0);
        b0 [3] => super::ends(&K_B0);
    }
}
/// Key types too large for whole contents: sizes after a history.
pub mod big {
    use super::*;
    fn big<K: Key, const N: usize, const H: usize>(u: &[K; N]) {
        let (s, n) = sprobe::<_, N, H>(u);
        assert!(s.len() == n && s.is_empty() == (n == 0), "sizes of a large set");
        nd::done();
    }
    crate::harnesses! {
        u17 [19] => big::<_, 17, 3>(&K_U17);
        u33 [35] => big::<_, 33, 2>(&K_U33);
        u65 [67] => big::<_, 65, 2>(&K_U65);
        b17 [19] => big::<_, 17, 4>(&K_B17);
        b33 [35] => big::<_, 33, 3>(&K_B33);
        b65 [67] => big::<_, 65, 2>(&K_B65);
        b128 [130] => big::<_, 128, 2>(&K_B128);
        cx [14] => big::<_, 21, 3>(&K_CX);
        #[cfg(feature = "thorough")] u33_deep [35] => big::<_, 33, 4>(&K_U33);
        #[cfg(feature = "thorough")] b65_deep [67] => big::<_, 65, 4>(&K_B65);
        #[cfg(feature = "thorough")] b128_deep [130] => big::<_, 128, 3>(&K_B128);
    }
}
