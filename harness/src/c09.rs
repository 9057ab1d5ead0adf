//! C09: set iteration visits each element exactly once, from either end.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Set};

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            const N: usize = $u.len();
            const S: usize = N + 2;
            crate::harnesses! {
                iter [$unw] => {
                    let (s, r) = any_set_residue(&$u);
                    seq(s.iter(), &r, |k, i| assert!(k == $u[i], "iter item"));
                    nd::done();
                };
                into_iter [$unw] => {
                    let (s, r) = any_set(&$u);
                    seq((&s).into_iter(), &r, |k, i| assert!(k == $u[i], "by reference"));
                    seq(s.into_iter(), &r, |k, i| assert!(k == $u[i], "into_iter item"));
                    nd::done();
                };
                ends [$unw] => {
                    let (s, r) = any_set(&$u);
                    drive::<_, _, N, S>(s.iter(), &r, |k, i| assert!(k == $u[i], "iter item"));
                    nd::done();
                };
                into_ends [$unw] => {
                    let (s, r) = any_set(&$u);
                    drive::<_, _, N, S>(s.into_iter(), &r, |k, i| assert!(k == $u[i], "into_iter item"));
                    nd::done();
                };
            }
        } )*
        crate::groups! { $( $(#[$m])* $s; )* adapt; clone; light; empty; #[cfg(feature = "thorough")] clone_more; }
    };
}
shapes! {
    u1 [4] K_U1; u2 [4] K_U2; u3 [5] K_U3; d3 [5] K_D3;
    b2 [4] K_B2; b3 [5] K_B3; db3 [5] K_DB3;
    boolean [4] K_BOOL; ob [4] K_OB; oob [5] K_OOB; one [3] K_ONE; oone [4] K_OONE; ou2 [4] K_OU2; ob2 [4] K_OB2; 
    ca [5] K_CA; cb [5] K_CB; cc [5] K_CC; ce [5] K_CE;
    cj [5] K_CJ; ck [5] K_CK; cr [4] K_CR; cs [4] K_CS; cu [4] K_CU;
    #[cfg(feature = "thorough")] cf [5] K_CF;
    #[cfg(feature = "thorough")] cp [4] K_CP;
    #[cfg(feature = "thorough")] u5 [7] K_U5;
    #[cfg(feature = "thorough")] u9 [11] K_U9;
    #[cfg(feature = "thorough")] b5 [7] K_B5;
    #[cfg(feature = "thorough")] b9 [11] K_B9;
    #[cfg(feature = "thorough")] oci [5] K_OCI;
    #[cfg(feature = "thorough")] cd [5] K_CD;
    #[cfg(feature = "thorough")] cg [7] K_CG;
    #[cfg(feature = "thorough")] ch [5] K_CH;
    #[cfg(feature = "thorough")] cn [7] K_CN;
}
/// Shapes whose steps from both ends take the solver too long for the quick tier.
pub mod light {
    use super::*;
    macro_rules! light {
        ($( $s:ident [$unw:literal] $u:ident; )*) => {
            $( pub mod $s {
                use super::*;
                crate::harnesses! {
                    iter [$unw] => {
                        let (s, r) = any_set_residue(&$u);
                        seq(s.iter(), &r, |k, i| assert!(k == $u[i], "iter item"));
                        nd::done();
                    };
                    into_iter [$unw] => {
                        let (s, r) = any_set(&$u);
                        seq(s.into_iter(), &r, |k, i| assert!(k == $u[i], "into_iter item"));
                        nd::done();
                    };
                }
            } )*
            crate::groups! { $( $s; )* }
        };
    }
    light! { cf [5] K_CF; cp [4] K_CP; }
}
/// What remains, taken at once or with items skipped.
pub mod adapt {
    use super::*;
    macro_rules! adapt {
        ($( $s:ident [$unw:literal] $u:ident; )*) => {
            $( pub mod $s {
                use super::*;
                crate::harnesses! {
                    iter_bulk [$unw] => { let (s, r) = any_set(&$u); bulk(s.iter(), &r, |k, i| assert!(k == $u[i], "iter item")); nd::done(); };
                    into_bulk [$unw] => { let (s, r) = any_set(&$u); bulk(s.into_iter(), &r, |k, i| assert!(k == $u[i], "into_iter item")); nd::done(); };
                    iter_skips [$unw] => { let (s, r) = any_set(&$u); skips(s.iter(), &r, |k, i| assert!(k == $u[i], "iter item")); nd::done(); };
                    into_skips [$unw] => { let (s, r) = any_set(&$u); skips(s.into_iter(), &r, |k, i| assert!(k == $u[i], "into_iter item")); nd::done(); };
                }
            } )*
            crate::groups! { $( $s; )* }
        };
    }
    adapt! { u2 [4] K_U2; b3 [5] K_B3; boolean [4] K_BOOL; ob [5] K_OB; cu [4] K_CU; cs [4] K_CS; one [3] K_ONE; oone [4] K_OONE; }
}
macro_rules! clones {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        crate::harnesses! { $( $(#[$m])* $s [$unw] => {
            const N: usize = $u.len();
            const S: usize = N + 2;
            let (s, r) = any_set(&$u);
            drive_clone::<_, _, N, S>(s.iter(), &r, |k, i| assert!(k == $u[i], "iter item"));
            nd::done();
        }; )* }
    };
}
pub mod clone {
    use super::*;
    clones! {
        u1 [4] K_U1; u2 [4] K_U2; u3 [5] K_U3; b2 [4] K_B2; b3 [5] K_B3;
        boolean [4] K_BOOL; ob [4] K_OB; oob [5] K_OOB; one [3] K_ONE; oone [4] K_OONE;
        ca [5] K_CA; cj [5] K_CJ; cs [4] K_CS; cu [4] K_CU;
    }
}
#[cfg(feature = "thorough")]
pub mod clone_more {
    use super::*;
    clones! {
        d3 [5] K_D3; db3 [5] K_DB3; u5 [7] K_U5; b5 [7] K_B5; ou2 [4] K_OU2; ob2 [4] K_OB2; oci [5] K_OCI;
        cb [5] K_CB; cc [5] K_CC; cd [5] K_CD; ce [5] K_CE; cf [5] K_CF; cg [7] K_CG; ck [5] K_CK; cp [4] K_CP; cr [4] K_CR;
    }
}
pub mod empty {
    use super::*;
    crate::harnesses! {
        u0 [3] => { let s = Set::<U0>::new(); assert!(s.iter().next().is_none() && s.iter().next_back().is_none() && s.into_iter().next().is_none()); nd::done(); };
        b0 [3] => { let s = Set::<B0>::new(); assert!(s.iter().next().is_none() && s.iter().next_back().is_none() && s.into_iter().next().is_none()); nd::done(); };
    }
}
