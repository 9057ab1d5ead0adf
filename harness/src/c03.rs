//! C03: map iteration visits each entry exactly once, in declaration order.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Map};

fn iter<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (m, r) = any_map(u);
    seq(m.iter(), &r.p, |(k, v), i| assert!(k == u[i] && *v == r.v[i], "iter item"));
    nd::done();
}

fn keys_values<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (m, r) = any_map(u);
    seq(m.keys(), &r.p, |k, i| assert!(k == u[i], "keys item"));
    seq(m.values(), &r.p, |v, i| assert!(*v == r.v[i], "values item"));
    nd::done();
}

/// Writing through mutable iterators reaches exactly the stored values.
fn iter_mut<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (mut m, mut r) = any_map(u);
    let before = r;
    seq(m.iter_mut(), &before.p, |(k, v), i| {
        assert!(k == u[i] && *v == before.v[i], "iter_mut item");
        if nd::u8() & 1 != 0 {
            *v = nd::u8();
            r.v[i] = *v;
        }
    });
    un::<N>(|i| assert!(m.get(u[i]).copied() == r.get(i), "content after iter_mut"));
    nd::done();
}

fn values_mut<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (mut m, mut r) = any_map(u);
    let before = r;
    seq(m.values_mut(), &before.p, |v, i| {
        assert!(*v == before.v[i], "values_mut item");
        if nd::u8() & 1 != 0 {
            *v = nd::u8();
            r.v[i] = *v;
        }
    });
    un::<N>(|i| assert!(m.get(u[i]).copied() == r.get(i), "content after values_mut"));
    nd::done();
}

fn into_iter<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (m, r) = any_map(u);
    seq(m.into_iter(), &r.p, |(k, v), i| assert!(k == u[i] && v == r.v[i], "into_iter item"));
    nd::done();
}

/// The `for` loop forms go through the same iterators.
fn for_loops<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (mut m, r) = any_map(u);
    seq((&m).into_iter(), &r.p, |(k, v), i| assert!(k == u[i] && *v == r.v[i], "by reference"));
    seq((&mut m).into_iter(), &r.p, |(k, v), i| {
        assert!(k == u[i] && *v == r.v[i], "by mutable reference");
        *v = !*v;
    });
    un::<N>(|i| assert!(m.get(u[i]).copied() == r.get(i).map(|v| !v), "written through the reference"));
    nd::done();
}

/// Iteration after an arbitrary operation of any kind.
fn after<K: Key + PartialEq, const N: usize>(u: &[K; N]) {
    let (mut m, mut r) = any_map(u);
    op::<_, N, false>(&mut m, &mut r, u, 8);
    seq(m.iter(), &r.p, |(k, v), i| assert!(k == u[i] && *v == r.v[i], "iter item after an operation"));
    nd::done();
}

fn empty_enum() {
    let mut m = Map::<U0, u8>::new();
    assert!(m.iter().next().is_none() && m.keys().next().is_none() && m.values().next().is_none());
    assert!(m.iter_mut().next().is_none() && m.values_mut().next().is_none() && m.into_iter().next().is_none());
    nd::done();
}

macro_rules! h {
    ($( $(#[$m:meta])* $u:ident [$unw:literal] $a:ident $b:ident $c:ident $d:ident $e:ident; )*) => {
        crate::harnesses! {
            u0 [3] => empty_enum();
            for_u2 [4] => for_loops(&K_U2); for_bool [4] => for_loops(&K_BOOL); for_cu [4] => for_loops(&K_CU); for_one [4] => for_loops(&K_ONE);
            after_u3 [5] => after(&K_U3); after_bool [4] => after(&K_BOOL); after_ob [4] => after(&K_OB); after_oone [4] => after(&K_OONE); after_cu [4] => after(&K_CU); after_cs [4] => after(&K_CS);
            $( $(#[$m])* $a [$unw] => { iter(&$u) }; )*
            $( $(#[$m])* $b [$unw] => { keys_values(&$u) }; )*
            $( $(#[$m])* $c [$unw] => { iter_mut(&$u) }; )*
            $( $(#[$m])* $d [$unw] => { values_mut(&$u) }; )*
            $( $(#[$m])* $e [$unw] => { into_iter(&$u) }; )*
        }
    };
}
h! {
    K_U1 [3] u1_iter u1_kv u1_imut u1_vmut u1_into;
    K_U2 [4] u2_iter u2_kv u2_imut u2_vmut u2_into;
    K_U3 [5] u3_iter u3_kv u3_imut u3_vmut u3_into;
    K_U4 [6] u4_iter u4_kv u4_imut u4_vmut u4_into;
    K_D3 [5] d3_iter d3_kv d3_imut d3_vmut d3_into;
    K_B2 [4] b2_iter b2_kv b2_imut b2_vmut b2_into;
    K_BOOL [4] bool_iter bool_kv bool_imut bool_vmut bool_into;
    K_OB [4] ob_iter ob_kv ob_imut ob_vmut ob_into;
    K_OOB [4] oob_iter oob_kv oob_imut oob_vmut oob_into;
    K_ONE [3] one_iter one_kv one_imut one_vmut one_into;
    K_OONE [3] oone_iter oone_kv oone_imut oone_vmut oone_into;
    K_OU2 [4] ou2_iter ou2_kv ou2_imut ou2_vmut ou2_into;
    K_CA [5] ca_iter ca_kv ca_imut ca_vmut ca_into;
    K_CB [4] cb_iter cb_kv cb_imut cb_vmut cb_into;
    K_CC [5] cc_iter cc_kv cc_imut cc_vmut cc_into;
    K_CE [4] ce_iter ce_kv ce_imut ce_vmut ce_into;
    K_CF [4] cf_iter cf_kv cf_imut cf_vmut cf_into;
    K_CJ [4] cj_iter cj_kv cj_imut cj_vmut cj_into;
    K_CK [4] ck_iter ck_kv ck_imut ck_vmut ck_into;
    K_CR [4] cr_iter cr_kv cr_imut cr_vmut cr_into;
    #[cfg(feature = "thorough")] K_CT [4] ct_iter ct_kv ct_imut ct_vmut ct_into;
    K_CU [4] cu_iter cu_kv cu_imut cu_vmut cu_into;
    #[cfg(feature = "thorough")] K_U5 [7] u5_iter u5_kv u5_imut u5_vmut u5_into;
    #[cfg(feature = "thorough")] K_U6 [8] u6_iter u6_kv u6_imut u6_vmut u6_into;
    #[cfg(feature = "thorough")] K_B3 [5] b3_iter b3_kv b3_imut b3_vmut b3_into;
    #[cfg(feature = "thorough")] K_OCI [4] oci_iter oci_kv oci_imut oci_vmut oci_into;
    #[cfg(feature = "thorough")] K_CD [5] cd_iter cd_kv cd_imut cd_vmut cd_into;
    #[cfg(feature = "thorough")] K_CG [7] cg_iter cg_kv cg_imut cg_vmut cg_into;
    #[cfg(feature = "thorough")] K_CH [4] ch_iter ch_kv ch_imut ch_vmut ch_into;
    #[cfg(feature = "thorough")] K_CN [5] cn_iter cn_kv cn_imut cn_vmut cn_into;
}
