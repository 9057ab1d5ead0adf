//! C11: intersection yields exactly the common elements.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Set};

#[inline(always)]
fn two<K: Key, const N: usize>(u: &[K; N]) -> (Set<K>, [bool; N], Set<K>, [bool; N], [bool; N]) {
    let (a, ra) = any_set(u);
    let (b, rb) = any_set(u);
    let mut both = [false; N];
    un::<N>(|i| both[i] = ra[i] && rb[i]);
    (a, ra, b, rb, both)
}

fn next<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (a, ra, b, rb, both) = two(u);
    let mut it = a.intersection(&b);
    let mut left = both;
    un::<N>(|_| fstep(&mut it, &mut left, &mut |k, i| assert!(k == u[i], "intersection item")));
    fstep(&mut it, &mut left, &mut |_, _| assert!(false, "one item too many"));
    assert!(it.next().is_none(), "nothing after the end");
    sobserve(&a, &ra, u);
    sobserve(&b, &rb, u);
    nd::done();
}

fn fold<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (a, _, b, _, both) = two(u);
    let mut it = a.intersection(&b);
    let mut left = both;
    if nd::flag() {
        fstep(&mut it, &mut left, &mut |k, i| assert!(k == u[i], "intersection item"));
    }
    let n = it.fold(0usize, |n, k| {
        let i = first(&left);
        assert!(i < N && k == u[i], "folded item");
        left[i] = false;
        n + 1
    });
    assert!(first(&left) == N, "fold sees every common element");
    assert!(n <= N, "fold passes the accumulator on");
    nd::done();
}

fn accum<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (a, _, b, _, both) = two(u);
    assert!(a.intersection(&b).fold(7usize, |n, _| n + 1) == 7 + count(&both), "accumulator");
    assert!(a.intersection(&b).count() == count(&both), "count");
    nd::done();
}

fn clone<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (a, _, b, _, both) = two(u);
    let mut it = a.intersection(&b);
    let mut left = both;
    if nd::flag() {
        fstep(&mut it, &mut left, &mut |k, i| assert!(k == u[i], "intersection item"));
    }
    let mut other = it.clone();
    let mut oleft = left;
    fstep(&mut it, &mut left, &mut |k, i| assert!(k == u[i], "original after cloning"));
    un::<N>(|_| fstep(&mut other, &mut oleft, &mut |k, i| assert!(k == u[i], "cloned item")));
    assert!(other.next().is_none(), "the clone ends");
    fstep(&mut it, &mut left, &mut |k, i| assert!(k == u[i], "original after the clone ran"));
    nd::done();
}

/// The other operand order; a common element is common both ways.
fn swapped<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (a, _, b, _, both) = two(u);
    seq(a.intersection(&b), &both, |k, i| assert!(k == u[i], "one way"));
    seq(b.intersection(&a), &both, |k, i| assert!(k == u[i], "the other way"));
    nd::done();
}

fn itself<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (a, ra) = any_set(u);
    seq(a.intersection(&a), &ra, |k, i| assert!(k == u[i], "intersection with itself"));
    nd::done();
}

pub mod nexts {
    use super::*;
    crate::harnesses! {
        u1 [4] => next(&K_U1);
        u2 [5] => next(&K_U2);
        u3 [5] => next(&K_U3);
        one [3] => next(&K_ONE);
        boolean [4] => next(&K_BOOL);
        ob [5] => next(&K_OB);
        oone [4] => next(&K_OONE);
        cs [4] => next(&K_CS);
        cu [4] => next(&K_CU);
        ca [6] => next(&K_CA);
        b2 [5] => next(&K_B2);
        #[cfg(feature = "thorough")] d3 [5] => next(&K_D3);
        #[cfg(feature = "thorough")] b3 [5] => next(&K_B3);
        #[cfg(feature = "thorough")] db3 [5] => next(&K_DB3);
        #[cfg(feature = "thorough")] oob [6] => next(&K_OOB);
        #[cfg(feature = "thorough")] ou2 [5] => next(&K_OU2);
        #[cfg(feature = "thorough")] ob2 [5] => next(&K_OB2);
        #[cfg(feature = "thorough")] cb [6] => next(&K_CB);
        #[cfg(feature = "thorough")] cc [5] => next(&K_CC);
        #[cfg(feature = "thorough")] ce [6] => next(&K_CE);
        #[cfg(feature = "thorough")] cf [5] => next(&K_CF);
        #[cfg(feature = "thorough")] cj [6] => next(&K_CJ);
        #[cfg(feature = "thorough")] ck [5] => next(&K_CK);
        #[cfg(feature = "thorough")] cp [4] => next(&K_CP);
        #[cfg(feature = "thorough")] u5 [7] => next(&K_U5);
    }
}
pub mod clones {
    use super::*;
    crate::harnesses! {
        u1 [4] => clone(&K_U1);
        u2 [5] => clone(&K_U2);
        boolean [4] => clone(&K_BOOL);
        ob [5] => clone(&K_OB);
        oone [4] => clone(&K_OONE);
        cs [4] => clone(&K_CS);
        cu [4] => clone(&K_CU);
        #[cfg(feature = "thorough")] u3 [5] => clone(&K_U3);
        #[cfg(feature = "thorough")] d3 [5] => clone(&K_D3);
        #[cfg(feature = "thorough")] b3 [5] => clone(&K_B3);
        #[cfg(feature = "thorough")] db3 [5] => clone(&K_DB3);
        #[cfg(feature = "thorough")] oob [6] => clone(&K_OOB);
        #[cfg(feature = "thorough")] one [3] => clone(&K_ONE);
        #[cfg(feature = "thorough")] ou2 [5] => clone(&K_OU2);
        #[cfg(feature = "thorough")] ob2 [5] => clone(&K_OB2);
        #[cfg(feature = "thorough")] ca [6] => clone(&K_CA);
        #[cfg(feature = "thorough")] cb [6] => clone(&K_CB);
        #[cfg(feature = "thorough")] cc [5] => clone(&K_CC);
        #[cfg(feature = "thorough")] ce [6] => clone(&K_CE);
        #[cfg(feature = "thorough")] cf [5] => clone(&K_CF);
        #[cfg(feature = "thorough")] cj [6] => clone(&K_CJ);
        #[cfg(feature = "thorough")] ck [5] => clone(&K_CK);
        #[cfg(feature = "thorough")] cp [4] => clone(&K_CP);
    }
}
pub mod folds {
    use super::*;
    crate::harnesses! {
        u1 [4] => fold(&K_U1);
        u3 [5] => fold(&K_U3);
        d3 [5] => fold(&K_D3);
        b3 [5] => fold(&K_B3);
        db3 [5] => fold(&K_DB3);
        boolean [4] => fold(&K_BOOL);
        ob [5] => fold(&K_OB);
        one [3] => fold(&K_ONE);
        oone [4] => fold(&K_OONE);
        cs [4] => fold(&K_CS);
        cu [4] => fold(&K_CU);
        cr [4] => fold(&K_CR);
        cc [5] => fold(&K_CC);
        ca [6] => fold(&K_CA);
        cf [5] => fold(&K_CF);
        #[cfg(feature = "thorough")] u2 [5] => fold(&K_U2);
        #[cfg(feature = "thorough")] oob [6] => fold(&K_OOB);
        #[cfg(feature = "thorough")] ou2 [5] => fold(&K_OU2);
        #[cfg(feature = "thorough")] ob2 [5] => fold(&K_OB2);
        #[cfg(feature = "thorough")] cb [6] => fold(&K_CB);
        #[cfg(feature = "thorough")] ce [6] => fold(&K_CE);
        #[cfg(feature = "thorough")] cj [6] => fold(&K_CJ);
        #[cfg(feature = "thorough")] ck [5] => fold(&K_CK);
        #[cfg(feature = "thorough")] cp [4] => fold(&K_CP);
        #[cfg(feature = "thorough")] u5 [7] => fold(&K_U5);
        #[cfg(feature = "thorough")] b5 [7] => fold(&K_B5);
        #[cfg(feature = "thorough")] oci [6] => fold(&K_OCI);
        #[cfg(feature = "thorough")] cd [7] => fold(&K_CD);
        #[cfg(feature = "thorough")] cg [7] => fold(&K_CG);
        #[cfg(feature = "thorough")] ch [7] => fold(&K_CH);
    }
}
pub mod accums {
    use super::*;
    crate::harnesses! {
        u1 [4] => accum(&K_U1);
        u2 [5] => accum(&K_U2);
        u3 [5] => accum(&K_U3);
        d3 [5] => accum(&K_D3);
        b3 [5] => accum(&K_B3);
        db3 [5] => accum(&K_DB3);
        boolean [4] => accum(&K_BOOL);
        ob [5] => accum(&K_OB);
        oob [6] => accum(&K_OOB);
        one [3] => accum(&K_ONE);
        oone [4] => accum(&K_OONE);
        ou2 [5] => accum(&K_OU2);
        ob2 [5] => accum(&K_OB2);
        ca [6] => accum(&K_CA);
        cc [5] => accum(&K_CC);
        cf [5] => accum(&K_CF);
        cj [6] => accum(&K_CJ);
        ck [5] => accum(&K_CK);
        cs [4] => accum(&K_CS);
        cu [4] => accum(&K_CU);
        cr [4] => accum(&K_CR);
        #[cfg(feature = "thorough")] cb [6] => accum(&K_CB);
        #[cfg(feature = "thorough")] ce [6] => accum(&K_CE);
        #[cfg(feature = "thorough")] cp [4] => accum(&K_CP);
        #[cfg(feature = "thorough")] u5 [7] => accum(&K_U5);
        #[cfg(feature = "thorough")] b5 [7] => accum(&K_B5);
        #[cfg(feature = "thorough")] oci [6] => accum(&K_OCI);
        #[cfg(feature = "thorough")] cd [7] => accum(&K_CD);
        #[cfg(feature = "thorough")] cg [7] => accum(&K_CG);
        #[cfg(feature = "thorough")] ch [7] => accum(&K_CH);
    }
}
pub mod itselfs {
    use super::*;
    crate::harnesses! {
        u1 [4] => itself(&K_U1);
        one [3] => itself(&K_ONE);
        boolean [4] => itself(&K_BOOL);
        ob [5] => itself(&K_OB);
        oone [4] => itself(&K_OONE);
        cs [4] => itself(&K_CS);
        cu [4] => itself(&K_CU);
        #[cfg(feature = "thorough")] u2 [5] => itself(&K_U2);
        #[cfg(feature = "thorough")] u3 [5] => itself(&K_U3);
        #[cfg(feature = "thorough")] d3 [5] => itself(&K_D3);
        #[cfg(feature = "thorough")] b3 [5] => itself(&K_B3);
        #[cfg(feature = "thorough")] db3 [5] => itself(&K_DB3);
        #[cfg(feature = "thorough")] oob [6] => itself(&K_OOB);
        #[cfg(feature = "thorough")] ou2 [5] => itself(&K_OU2);
        #[cfg(feature = "thorough")] ob2 [5] => itself(&K_OB2);
        #[cfg(feature = "thorough")] ca [6] => itself(&K_CA);
        #[cfg(feature = "thorough")] cb [6] => itself(&K_CB);
        #[cfg(feature = "thorough")] cc [5] => itself(&K_CC);
        #[cfg(feature = "thorough")] ce [6] => itself(&K_CE);
        #[cfg(feature = "thorough")] cf [5] => itself(&K_CF);
        #[cfg(feature = "thorough")] cj [6] => itself(&K_CJ);
        #[cfg(feature = "thorough")] ck [5] => itself(&K_CK);
        #[cfg(feature = "thorough")] cp [4] => itself(&K_CP);
    }
}
pub mod swappeds {
    use super::*;
    crate::harnesses! {
        #[cfg(feature = "thorough")] u1 [4] => swapped(&K_U1);
        #[cfg(feature = "thorough")] u2 [5] => swapped(&K_U2);
        #[cfg(feature = "thorough")] u3 [5] => swapped(&K_U3);
        #[cfg(feature = "thorough")] b3 [5] => swapped(&K_B3);
        #[cfg(feature = "thorough")] boolean [4] => swapped(&K_BOOL);
        #[cfg(feature = "thorough")] ob [5] => swapped(&K_OB);
        #[cfg(feature = "thorough")] oone [4] => swapped(&K_OONE);
        #[cfg(feature = "thorough")] one [3] => swapped(&K_ONE);
        #[cfg(feature = "thorough")] cs [4] => swapped(&K_CS);
        #[cfg(feature = "thorough")] cu [4] => swapped(&K_CU);
        #[cfg(feature = "thorough")] ca [6] => swapped(&K_CA);
        #[cfg(feature = "thorough")] cc [5] => swapped(&K_CC);
    }
}
crate::groups! { nexts; clones; folds; accums; itselfs; swappeds; }
