//! C05: map retain and clear keep exactly what they should.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Map};

/// `retain` with an arbitrary answer and an arbitrary modification for each key.
fn retain<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (mut m, mut r) = any_map_residue(u);
    let mut keep = [false; N];
    let mut write = [None; N];
    un::<N>(|i| {
        keep[i] = nd::u8() & 1 != 0;
        if nd::u8() & 1 != 0 {
            write[i] = Some(nd::u8());
        }
    });
    let mut seen = [false; N];
    m.retain(|k, v| {
        let at = pos(u, k);
        assert!(at < N && r.p[at], "an absent key is visited");
        assert!(!seen[at], "an entry is visited twice");
        seen[at] = true;
        assert!(*v == r.v[at], "the predicate sees the stored value");
        if let Some(w) = write[at] {
            *v = w;
        }
        keep[at]
    });
    un::<N>(|i| {
        assert!(seen[i] == r.p[i], "every entry is visited");
        if r.p[i] {
            if !keep[i] {
                r.del(i)
            } else if let Some(w) = write[i] {
                r.v[i] = w
            }
        }
    });
    observe(&mut m, &r, u);
    assert!(m.len() == r.len() && m.is_empty() == (r.len() == 0), "size after retain");
    nd::done();
}

/// What was filtered out can be put back, and filtering again sees just that.
fn again<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (mut m, mut r) = any_map(u);
    un::<2>(|_| {
        let mut keep = [false; N];
            un::<N>(|j| keep[j] = nd::u8() & 1 != 0);
        m.retain(|k, _| {
            let at = pos(u, k);
            assert!(at < N && r.p[at], "an absent key is visited");
            keep[at]
        });
        un::<N>(|i| r.p[i] &= keep[i]);
        let i = nd::below(N);
        let v = nd::u8();
        assert!(m.insert(u[i], v) == r.get(i), "insert after retain");
        r.put(i, v);
    });
    observe(&mut m, &r, u);
    nd::done();
}

fn clear<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (mut m, _) = any_map_residue(u);
    m.clear();
    let mut r = Ref::new();
    observe(&mut m, &r, u);
    assert!(m.len() == 0 && m.is_empty(), "size after clear");
    m.retain(|_, _| {
        assert!(false, "a cleared map has nothing to visit");
        true
    });
    let i = nd::below(N);
    let v = nd::u8();
    assert!(m.insert(u[i], v).is_none(), "insert after clear");
    r.put(i, v);
    observe(&mut m, &r, u);
    nd::done();
}

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            crate::harnesses! {
                retain [$unw] => { super::retain(&$u) };
                again [$unw] => { super::again(&$u) };
                clear [$unw] => { super::clear(&$u) };
            }
        } )*
        crate::groups! { $( $(#[$m])* $s; )* }
    };
}
shapes! {
    u1 [4] K_U1; u2 [4] K_U2; u3 [5] K_U3; u5 [7] K_U5; d3 [5] K_D3; b2 [4] K_B2;
    boolean [4] K_BOOL; ob [4] K_OB; oob [5] K_OOB; one [3] K_ONE; oone [4] K_OONE; ou2 [4] K_OU2; oci [5] K_OCI;
    ca [5] K_CA; cb [5] K_CB; cc [5] K_CC; cd [5] K_CD; ce [5] K_CE; cf [5] K_CF; cg [7] K_CG; ch [5] K_CH;
    cj [5] K_CJ; ck [5] K_CK; cl [5] K_CL; cp [4] K_CP; cs [4] K_CS; cu [4] K_CU;
    #[cfg(feature = "thorough")] u9 [11] K_U9;
    #[cfg(feature = "thorough")] b9 [11] K_B9;
    #[cfg(feature = "thorough")] cm [9] K_CM;
    #[cfg(feature = "thorough")] cn [9] K_CN;
}
