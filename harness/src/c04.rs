//! C04: map iterators can be driven from both ends in any interleaving.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Map};

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            const N: usize = $u.len();
            const S: usize = N + 1;
            crate::harnesses! {
                iter [$unw] => {
                    let (m, r) = any_map(&$u);
                    drive::<_, _, N, S>(m.iter(), &r.p, |(k, v), i| assert!(k == $u[i] && *v == r.v[i], "iter item"));
                    nd::done();
                };
                keys [$unw] => {
                    let (m, r) = any_map(&$u);
                    drive::<_, _, N, S>(m.keys(), &r.p, |k, i| assert!(k == $u[i], "keys item"));
                    nd::done();
                };
                values [$unw] => {
                    let (m, r) = any_map(&$u);
                    drive::<_, _, N, S>(m.values(), &r.p, |v, i| assert!(*v == r.v[i], "values item"));
                    nd::done();
                };
                iter_mut [$unw] => {
                    let (mut m, mut r) = any_map(&$u);
                    let old = r;
                    drive::<_, _, N, S>(m.iter_mut(), &old.p, |(k, v), i| {
                        assert!(k == $u[i] && *v == old.v[i], "iter_mut item");
                        *v = !*v;
                        r.v[i] = *v;
                    });
                    un::<N>(|i| assert!(m.get($u[i]).copied() == r.get(i), "written to the right entry"));
                    nd::done();
                };
                values_mut [$unw] => {
                    let (mut m, mut r) = any_map(&$u);
                    let old = r;
                    drive::<_, _, N, S>(m.values_mut(), &old.p, |v, i| {
                        assert!(*v == old.v[i], "values_mut item");
                        *v = !*v;
                        r.v[i] = *v;
                    });
                    un::<N>(|i| assert!(m.get($u[i]).copied() == r.get(i), "written to the right entry"));
                    nd::done();
                };
                into_iter [$unw] => {
                    let (m, r) = any_map(&$u);
                    drive::<_, _, N, S>(m.into_iter(), &r.p, |(k, v), i| assert!(k == $u[i] && v == r.v[i], "into_iter item"));
                    nd::done();
                };
            }
        } )*
    };
}

macro_rules! clones {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            const N: usize = $u.len();
            const S: usize = N + 1;
            crate::harnesses! {
                iter [$unw] => {
                    let (m, r) = any_map(&$u);
                    drive_clone::<_, _, N, S>(m.iter(), &r.p, |(k, v), i| assert!(k == $u[i] && *v == r.v[i], "iter item"));
                    nd::done();
                };
                keys [$unw] => {
                    let (m, r) = any_map(&$u);
                    drive_clone::<_, _, N, S>(m.keys(), &r.p, |k, i| assert!(k == $u[i], "keys item"));
                    nd::done();
                };
                values [$unw] => {
                    let (m, r) = any_map(&$u);
                    drive_clone::<_, _, N, S>(m.values(), &r.p, |v, i| assert!(*v == r.v[i], "values item"));
                    nd::done();
                };
                into_iter [$unw] => {
                    let (m, r) = any_map(&$u);
                    drive_clone::<_, _, N, S>(m.into_iter(), &r.p, |(k, v), i| assert!(k == $u[i] && v == r.v[i], "into_iter item"));
                    nd::done();
                };
            }
        } )*
    };
}

shapes! {
    u1 [3] K_U1; u2 [4] K_U2; u3 [5] K_U3; d3 [5] K_D3;
    boolean [4] K_BOOL; ob [4] K_OB; oob [4] K_OOB; one [3] K_ONE; oone [3] K_OONE;
    ca [5] K_CA; ck [4] K_CK; cs [4] K_CS; cu [4] K_CU;
    #[cfg(feature = "thorough")] cj [4] K_CJ;
    #[cfg(feature = "thorough")] cr [4] K_CR;
    #[cfg(feature = "thorough")] b2 [4] K_B2;
    #[cfg(feature = "thorough")] ou2 [4] K_OU2;
    #[cfg(feature = "thorough")] cb [4] K_CB;
    #[cfg(feature = "thorough")] cc [5] K_CC;
    #[cfg(feature = "thorough")] ce [4] K_CE;
    #[cfg(feature = "thorough")] cf [4] K_CF;
    #[cfg(feature = "thorough")] ct [4] K_CT;
    #[cfg(feature = "thorough")] u4 [6] K_U4;
    #[cfg(feature = "thorough")] u5 [7] K_U5;
    #[cfg(feature = "thorough")] oci [4] K_OCI;
    #[cfg(feature = "thorough")] cg [7] K_CG;
}

/// Cloning the pair iterator of a plain enum.  The checker mishandles a clone of an array iterator
/// of references whose position is symbolic, so that here presence and the steps before the clone
/// are spelled out; values and the steps after it are arbitrary.
macro_rules! unit_clone {
    ($u:ident $s:literal : $($p:expr),*) => {{
        const N: usize = $u.len();
        let vals: [u8; N] = core::array::from_fn(|_| nd::u8());
        let which = nd::u8();
        let mut n = 0u8;
        $(
            n += 1;
            if which == n {
                let p: [bool; N] = $p;
                unit_clone!(@ N $u $s p vals 0);
            }
            n += 1;
            if which == n {
                let p: [bool; N] = $p;
                unit_clone!(@ N $u $s p vals 1);
            }
            n += 1;
            if which == n {
                let p: [bool; N] = $p;
                unit_clone!(@ N $u $s p vals 2);
            }
        )*
        nd::done();
    }};
    (@ $n:ident $u:ident $s:literal $p:ident $vals:ident $pre:literal) => {
        let mut m = Map::new();
        un::<$n>(|i| if $p[i] { m.insert($u[i], $vals[i]); });
        let mut left = $p;
        let mut f = |(k, v): (_, &u8), i: usize| assert!(k == $u[i] && *v == $vals[i], "iter item");
        let mut it = m.iter();
        if $pre > 0 {
            step(&mut it, &mut left, $pre == 2, &mut f);
        }
        let mut other = it.clone();
        let mut oleft = left;
        step(&mut it, &mut left, $pre == 1, &mut f);
        un::<$s>(|_| {
            let back = nd::flag();
            step(&mut other, &mut oleft, back, &mut f)
        });
        let back = nd::flag();
        step(&mut it, &mut left, back, &mut f);
    };
}

pub mod clone {
    use super::*;
    clones! {
        boolean [4] K_BOOL; ob [4] K_OB; one [3] K_ONE; cs [4] K_CS; cu [4] K_CU;
        #[cfg(feature = "thorough")] ck [4] K_CK;
        #[cfg(feature = "thorough")] ca [5] K_CA;
        #[cfg(feature = "thorough")] cb [5] K_CB;
    }
    macro_rules! units {
        ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident ($($iter:tt)*); )*) => {
            $( $(#[$m])* pub mod $s {
                use super::*;
                const N: usize = $u.len();
                const S: usize = N + 1;
                crate::harnesses! {
                    iter [$unw] => { unit_clone!($u $($iter)*) };
                    keys [$unw] => {
                        let (m, r) = any_map(&$u);
                        drive_clone::<_, _, N, S>(m.keys(), &r.p, |k, i| assert!(k == $u[i], "keys item"));
                        nd::done();
                    };
                    values [$unw] => {
                        let (m, r) = any_map(&$u);
                        drive_clone::<_, _, N, S>(m.values(), &r.p, |v, i| assert!(*v == r.v[i], "values item"));
                        nd::done();
                    };
                    into_iter [$unw] => {
                        let (m, r) = any_map(&$u);
                        drive_clone::<_, _, N, S>(m.into_iter(), &r.p, |(k, v), i| assert!(k == $u[i] && v == r.v[i], "into_iter item"));
                        nd::done();
                    };
                }
            } )*
        };
    }
    units! {
        u1 [3] K_U1 (2: [true], [false]);
        u2 [4] K_U2 (3: [true, true]);
        #[cfg(feature = "thorough")] u3 [5] K_U3 (4: [true, true, true], [true, false, true], [false, true, true], [true, true, false]);
    }
    crate::groups! {
        u1; u2; boolean; ob; one; cs; cu;
        #[cfg(feature = "thorough")] ck;
        #[cfg(feature = "thorough")] u3;
        #[cfg(feature = "thorough")] ca;
        #[cfg(feature = "thorough")] cb;
    }
}

/// What remains, taken at once or with items skipped.
pub mod adapt {
    use super::*;
    macro_rules! adapt {
        ($( $s:ident [$unw:literal] $u:ident; )*) => {
            $( pub mod $s {
                use super::*;
                crate::harnesses! {
                    iter_bulk [$unw] => { let (m, r) = any_map(&$u); bulk(m.iter(), &r.p, |(k, v), i| assert!(k == $u[i] && *v == r.v[i], "iter item")); nd::done(); };
                    keys_bulk [$unw] => { let (m, r) = any_map(&$u); bulk(m.keys(), &r.p, |k, i| assert!(k == $u[i], "keys item")); nd::done(); };
                    values_bulk [$unw] => { let (m, r) = any_map(&$u); bulk(m.values(), &r.p, |v, i| assert!(*v == r.v[i], "values item")); nd::done(); };
                    into_bulk [$unw] => { let (m, r) = any_map(&$u); bulk(m.into_iter(), &r.p, |(k, v), i| assert!(k == $u[i] && v == r.v[i], "into_iter item")); nd::done(); };
                    iter_skips [$unw] => { let (m, r) = any_map(&$u); skips(m.iter(), &r.p, |(k, v), i| assert!(k == $u[i] && *v == r.v[i], "iter item")); nd::done(); };
                    keys_skips [$unw] => { let (m, r) = any_map(&$u); skips(m.keys(), &r.p, |k, i| assert!(k == $u[i], "keys item")); nd::done(); };
                    values_skips [$unw] => { let (m, r) = any_map(&$u); skips(m.values(), &r.p, |v, i| assert!(*v == r.v[i], "values item")); nd::done(); };
                    imut_bulk [$unw] => { let (mut m, r) = any_map(&$u); bulk(m.iter_mut(), &r.p, |(k, v), i| assert!(k == $u[i] && *v == r.v[i], "iter_mut item")); nd::done(); };
                    vmut_bulk [$unw] => { let (mut m, r) = any_map(&$u); bulk(m.values_mut(), &r.p, |v, i| assert!(*v == r.v[i], "values_mut item")); nd::done(); };
                    imut_skips [$unw] => { let (mut m, r) = any_map(&$u); skips(m.iter_mut(), &r.p, |(k, v), i| assert!(k == $u[i] && *v == r.v[i], "iter_mut item")); nd::done(); };
                    vmut_skips [$unw] => { let (mut m, r) = any_map(&$u); skips(m.values_mut(), &r.p, |v, i| assert!(*v == r.v[i], "values_mut item")); nd::done(); };
                    into_skips [$unw] => { let (m, r) = any_map(&$u); skips(m.into_iter(), &r.p, |(k, v), i| assert!(k == $u[i] && v == r.v[i], "into_iter item")); nd::done(); };
                }
            } )*
            crate::groups! { $( $s; )* }
        };
    }
    adapt! { u2 [4] K_U2; boolean [4] K_BOOL; ob [5] K_OB; cu [4] K_CU; cs [4] K_CS; one [3] K_ONE; oone [4] K_OONE; }
}

crate::groups! {
    adapt;
    u1; u2; u3; d3; boolean; ob; oob; one; oone; ca; ck; cs; cu; clone;
    #[cfg(feature = "thorough")] cj;
    #[cfg(feature = "thorough")] cr;
    #[cfg(feature = "thorough")] b2;
    #[cfg(feature = "thorough")] ou2;
    #[cfg(feature = "thorough")] cb;
    #[cfg(feature = "thorough")] cc;
    #[cfg(feature = "thorough")] ce;
    #[cfg(feature = "thorough")] cf;
    #[cfg(feature = "thorough")] ct;
    #[cfg(feature = "thorough")] u4;
    #[cfg(feature = "thorough")] u5;
    #[cfg(feature = "thorough")] oci;
    #[cfg(feature = "thorough")] cg;
}
