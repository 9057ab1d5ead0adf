//! C02: map size reporting is exact.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Map};

/// Arbitrary content, one arbitrary operation of any kind, sizes before and after.
fn size<K: Key, const N: usize>(u: &[K; N]) {
    let (mut m, mut r) = any_map(u);
    assert!(m.len() == r.len(), "len counts the present keys");
    assert!(m.is_empty() == (r.len() == 0), "is_empty iff len is zero");
    op::<_, N, false>(&mut m, &mut r, u, 8);
    assert!(m.len() == r.len(), "len counts the present keys afterwards");
    assert!(m.is_empty() == (r.len() == 0), "is_empty iff len is zero afterwards");
    nd::done();
}

/// Fresh, default, full and cleared maps.
fn ends<K: Key, const N: usize>(u: &[K; N]) {
    let mut m = Map::<K, u8>::new();
    assert!(m.len() == 0 && m.is_empty(), "a fresh map is empty");
    let d = Map::<K, u8>::default();
    assert!(d.len() == 0 && d.is_empty(), "a default map is empty");
    un::<N>(|i| {
        let v = nd::u8();
        m.insert(u[i], v);
        assert!(m.len() == i + 1 && !m.is_empty(), "one more after each new key");
        m.insert(u[i], v);
        assert!(m.len() == i + 1, "replacing does not count");
    });
    assert!(m.len() == N, "a full map has all keys");
    m.clear();
    assert!(m.len() == 0 && m.is_empty(), "a cleared map is empty");
    nd::done();
}

/// A history over a key type too large for whole contents.
fn big<K: Key, const N: usize, const H: usize>(u: &[K; N]) {
    let (m, n) = probe::<_, N, H>(u);
    assert!(m.len() == n && m.is_empty() == (n == 0), "sizes of a large map");
    nd::done();
}

fn hist<K: Key, const N: usize, const H: usize>(u: &[K; N]) {
    let mut m = Map::new();
    let mut r = Ref::new();
    un::<H>(|_| op::<_, N, false>(&mut m, &mut r, u, 8));
    assert!(m.len() == r.len() && m.is_empty() == (r.len() == 0), "sizes after a history");
    nd::done();
}

macro_rules! h {
    ($( $(#[$m:meta])* $name:ident $en:ident [$unw:literal] $u:ident; )*) => {
        crate::harnesses! {
            $( $(#[$m])* $name [$unw] => { size(&$u) }; )*
            $( $(#[$m])* $en [$unw] => { ends(&$u) }; )*
            u0_ends [3] => ends(&K_U0);
            big_u17 [19] => big::<_, 17, 2>(&K_U17);
            big_u33 [35] => big::<_, 33, 2>(&K_U33);
            big_cx [14] => big::<_, 21, 2>(&K_CX);
            #[cfg(feature = "thorough")] big_u65 [67] => big::<_, 65, 2>(&K_U65);
            #[cfg(feature = "thorough")] deep_u17 [19] => big::<_, 17, 4>(&K_U17);
            #[cfg(feature = "thorough")] deep_cx [14] => big::<_, 21, 3>(&K_CX);
            hist_u3 [5] => hist::<_, 3, 4>(&K_U3);
            hist_ca [5] => hist::<_, 4, 3>(&K_CA);
            hist_oob [4] => hist::<_, 4, 3>(&K_OOB);
            #[cfg(feature = "thorough")]
            hist_u5 [7] => hist::<_, 5, 6>(&K_U5);
            #[cfg(feature = "thorough")]
            hist_cm [7] => hist::<_, 9, 4>(&K_CM);
        }
    };
}
h! {
    u1 u1_ends [3] K_U1; u2 u2_ends [4] K_U2; u3 u3_ends [5] K_U3; u5 u5_ends [7] K_U5; u9 u9_ends [11] K_U9; d3 d3_ends [5] K_D3;
    b2 b2_ends [4] K_B2; b9 b9_ends [11] K_B9;
    boolean boolean_ends [4] K_BOOL; ob ob_ends [4] K_OB; oob oob_ends [4] K_OOB; one one_ends [3] K_ONE; oone oone_ends [3] K_OONE;
    ou2 ou2_ends [4] K_OU2; oci oci_ends [5] K_OCI;
    ca ca_ends [5] K_CA; cb cb_ends [5] K_CB; cc cc_ends [5] K_CC; cd cd_ends [5] K_CD; ce ce_ends [5] K_CE; cf cf_ends [5] K_CF;
    cg cg_ends [7] K_CG; ch ch_ends [5] K_CH; cj cj_ends [5] K_CJ; ck ck_ends [5] K_CK; cl cl_ends [5] K_CL; cm cm_ends [7] K_CM; cn cn_ends [5] K_CN;
}
