//! C01: map point operations behave like a dictionary.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Map};

/// Arbitrary content, one arbitrary point operation, then everything is observed.
fn step<K: Key, const N: usize>(u: &[K; N]) {
    let (mut m, mut r) = any_map_residue(u);
    op::<_, N, true>(&mut m, &mut r, u, 4);
    observe(&mut m, &r, u);
    nd::done();
}

/// As `step`, through any operation of the map API.
fn step_all<K: Key, const N: usize>(u: &[K; N]) {
    let (mut m, mut r) = any_map(u);
    op::<_, N, true>(&mut m, &mut r, u, 8);
    observe(&mut m, &r, u);
    nd::done();
}

/// Two arbitrary contents in a row are independent maps; a history of H arbitrary operations.
fn hist<K: Key, const N: usize, const H: usize>(u: &[K; N], kinds: u8) {
    let mut m = Map::new();
    let mut r = Ref::new();
    un::<H>(|_| op::<_, N, true>(&mut m, &mut r, u, kinds));
    observe(&mut m, &r, u);
    nd::done();
}

/// A history over a key type too large for whole contents, looked up at an arbitrary key.
fn big<K: Key, const N: usize, const H: usize>(u: &[K; N]) {
    probe::<_, N, H>(u);
    nd::done();
}

fn empty_enum() {
    let m = Map::<U0, u8>::new();
    assert!(m.iter().next().is_none());
    nd::done();
}

macro_rules! h {
    ($( $(#[$m:meta])* $name:ident $hn:ident [$unw:literal] $u:ident; )*) => {
        crate::harnesses! {
            u0 [3] => empty_enum();
            $( $(#[$m])* $name [$unw] => { step(&$u) }; )*
            $( $(#[$m])* $hn [$unw] => { step_all(&$u) }; )*
            hist_u3 [5] => hist::<_, 3, 4>(&K_U3, 8);
            hist_ca [5] => hist::<_, 4, 4>(&K_CA, 8);
            hist_bool [4] => hist::<_, 2, 4>(&K_BOOL, 8);
            hist_oob [4] => hist::<_, 4, 3>(&K_OOB, 8);
            hist_ce [5] => hist::<_, 4, 3>(&K_CE, 8);
            big_u17 [19] => big::<_, 17, 3>(&K_U17);
            big_u33 [35] => big::<_, 33, 2>(&K_U33);
            big_u65 [67] => big::<_, 65, 2>(&K_U65);
            big_cx [14] => big::<_, 21, 2>(&K_CX);
            big_cm [7] => big::<_, 9, 3>(&K_CM);
            #[cfg(feature = "thorough")] deep_u33 [35] => big::<_, 33, 4>(&K_U33);
            #[cfg(feature = "thorough")] deep_u65 [67] => big::<_, 65, 3>(&K_U65);
            #[cfg(feature = "thorough")] deep_cx [14] => big::<_, 21, 4>(&K_CX);
            hist_one [4] => hist::<_, 1, 5>(&K_ONE, 8);
        }
    };
}
h! {
    u1 u1_all [3] K_U1; u2 u2_all [4] K_U2; u3 u3_all [5] K_U3; u5 u5_all [7] K_U5; u9 u9_all [11] K_U9; d3 d3_all [5] K_D3;
    b2 b2_all [4] K_B2; b9 b9_all [11] K_B9;
    boolean boolean_all [4] K_BOOL; ob ob_all [4] K_OB; oob oob_all [4] K_OOB; one one_all [3] K_ONE; oone oone_all [3] K_OONE;
    ou2 ou2_all [4] K_OU2; oci oci_all [5] K_OCI;
    ca ca_all [5] K_CA; cb cb_all [5] K_CB; cc cc_all [5] K_CC; cd cd_all [5] K_CD; ce ce_all [5] K_CE; cf cf_all [5] K_CF;
    cg cg_all [7] K_CG; ch ch_all [5] K_CH; cj cj_all [5] K_CJ; ck ck_all [5] K_CK; cl cl_all [5] K_CL; cm cm_all [7] K_CM; cn cn_all [5] K_CN;
}
