//! C07: set point operations behave like a mathematical set.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Set};

fn one<K: Key, const N: usize>(u: &[K; N]) {
    let (mut s, mut r) = any_set_residue(u);
    sop::<_, N, true>(&mut s, &mut r, u, 5);
    sobserve(&s, &r, u);
    nd::done();
}

fn hist<K: Key, const N: usize, const H: usize>(u: &[K; N]) {
    let mut s = Set::new();
    let mut r = [false; N];
    un::<H>(|_| sop::<_, N, true>(&mut s, &mut r, u, 5));
    sobserve(&s, &r, u);
    nd::done();
}

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            const N: usize = $u.len();
            crate::harnesses! {
                step [$unw] => { one(&$u) };
                history [$unw] => { hist::<_, N, 4>(&$u) };
                #[cfg(feature = "thorough")] long [$unw] => { hist::<_, N, 8>(&$u) };
            }
        } )*
        crate::groups! { $( $(#[$m])* $s; )* big; }
    };
}
shapes! {
    u1 [4] K_U1; u2 [4] K_U2; u3 [5] K_U3; u5 [7] K_U5; u9 [11] K_U9; d3 [5] K_D3;
    b1 [4] K_B1; b2 [4] K_B2; b3 [5] K_B3; b8 [10] K_B8; b9 [11] K_B9; db3 [5] K_DB3;
    boolean [4] K_BOOL; ob [4] K_OB; oob [5] K_OOB; one [3] K_ONE; oone [4] K_OONE; ou2 [4] K_OU2; ob2 [4] K_OB2; oci [5] K_OCI;
    ca [5] K_CA; cb [5] K_CB; cc [5] K_CC; cd [5] K_CD; ce [5] K_CE; cf [5] K_CF; cg [7] K_CG; ch [5] K_CH;
    cj [5] K_CJ; ck [5] K_CK; cl [5] K_CL; cm [7] K_CM; cn [7] K_CN; cp [4] K_CP; cs [4] K_CS; cu [4] K_CU;
}
/// Key types too large for whole contents: a history, looked up at an arbitrary key.
pub mod big {
    use super::*;
    fn big<K: Key, const N: usize, const H: usize>(u: &[K; N]) {
        sprobe::<_, N, H>(u);
        nd::done();
    }
    crate::harnesses! {
        u17 [19] => big::<_, 17, 5>(&K_U17);
        u33 [35] => big::<_, 33, 5>(&K_U33);
        u65 [67] => big::<_, 65, 5>(&K_U65);
        b17 [19] => big::<_, 17, 5>(&K_B17);
        b33 [35] => big::<_, 33, 5>(&K_B33);
        b65 [67] => big::<_, 65, 5>(&K_B65);
        b128 [130] => big::<_, 128, 5>(&K_B128);
        cx [14] => big::<_, 21, 5>(&K_CX);
    }
}
