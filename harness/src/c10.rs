//! C10: set retain and clear keep exactly what they should.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Set};

fn retain<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (mut s, mut r) = any_set_residue(u);
    let mut keep = [false; N];
    un::<N>(|i| keep[i] = nd::u8() & 1 != 0);
    let mut seen = [false; N];
    s.retain(|k| {
        let at = pos(u, k);
        assert!(at < N && r[at], "an absent element is visited");
        assert!(!seen[at], "an element is visited twice");
        seen[at] = true;
        keep[at]
    });
    un::<N>(|i| {
        assert!(seen[i] == r[i], "every element is visited");
        r[i] &= keep[i];
    });
    sobserve(&s, &r, u);
    assert!(s.len() == count(&r) && s.is_empty() == (count(&r) == 0), "size after retain");
    nd::done();
}

fn again<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (mut s, mut r) = any_set(u);
    un::<2>(|_| {
        let mut keep = [false; N];
        un::<N>(|i| keep[i] = nd::u8() & 1 != 0);
        s.retain(|k| {
            let at = pos(u, k);
            assert!(at < N && r[at], "an absent element is visited");
            keep[at]
        });
        un::<N>(|i| r[i] &= keep[i]);
        let i = nd::below(N);
        s.insert(u[i]);
        r[i] = true;
    });
    sobserve(&s, &r, u);
    nd::done();
}

fn clear<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (mut s, _) = any_set_residue(u);
    s.clear();
    let mut r = [false; N];
    sobserve(&s, &r, u);
    assert!(s.len() == 0 && s.is_empty(), "size after clear");
    s.retain(|_| {
        assert!(false, "a cleared set has nothing to visit");
        true
    });
    sobserve(&s, &r, u);
    let i = nd::below(N);
    s.insert(u[i]);
    r[i] = true;
    sobserve(&s, &r, u);
    nd::done();
}

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            crate::harnesses! {
                retain [$unw] => { super::retain(&$u) };
                again [$unw] => { super::again(&$u) };
                clear [$unw] => { super::clear(&$u) };
            }
        } )*
        crate::groups! { $( $(#[$m])* $s; )* }
    };
}
shapes! {
    u1 [4] K_U1; u2 [4] K_U2; u3 [5] K_U3; u5 [7] K_U5; u9 [11] K_U9; d3 [5] K_D3;
    b1 [4] K_B1; b2 [4] K_B2; b3 [5] K_B3; b8 [10] K_B8; b9 [11] K_B9; db3 [5] K_DB3;
    boolean [4] K_BOOL; ob [4] K_OB; oob [5] K_OOB; one [3] K_ONE; oone [4] K_OONE; ou2 [4] K_OU2; ob2 [4] K_OB2; oci [5] K_OCI;
    ca [5] K_CA; cb [5] K_CB; cc [5] K_CC; cd [5] K_CD; ce [5] K_CE; cf [5] K_CF; cg [7] K_CG; ch [5] K_CH;
    cj [5] K_CJ; ck [5] K_CK; cl [5] K_CL; cm [7] K_CM; cn [7] K_CN; cp [4] K_CP; cs [4] K_CS; cu [4] K_CU;
}
