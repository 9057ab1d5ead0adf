//! C06: the entry API is equivalent to lookup followed by insert or remove.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::map::{Entry, MapStorage, OccupiedEntry, VacantEntry};
use fixed_map::{Key, Map};

fn one<K: Key + PartialEq, const N: usize>(u: &[K; N], kinds: core::ops::Range<u8>) {
    let (mut m, mut r) = any_map_residue(u);
    entry_op(&mut m, &mut r, u, kinds);
    observe(&mut m, &r, u);
    assert!(m.len() == r.len(), "length after an entry operation");
    nd::done();
}

fn hist<K: Key + PartialEq, const N: usize, const H: usize>(u: &[K; N]) {
    let mut m = Map::new();
    let mut r = Ref::new();
    un::<H>(|_| entry_op(&mut m, &mut r, u, 0..8));
    observe(&mut m, &r, u);
    nd::done();
}

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            crate::harnesses! {
                closures [$unw] => { one(&$u, 0..6) };
                views [$unw] => { one(&$u, 6..8) };
            }
        } )*
        crate::groups! { $( $(#[$m])* $s; )* history; }
    };
}
shapes! {
    u1 [4] K_U1; u2 [4] K_U2; u3 [5] K_U3; u5 [7] K_U5; u9 [11] K_U9; d3 [5] K_D3; b2 [4] K_B2;
    boolean [4] K_BOOL; ob [4] K_OB; oob [5] K_OOB; one [3] K_ONE; oone [4] K_OONE; ou2 [4] K_OU2; oci [5] K_OCI;
    ca [5] K_CA; cb [5] K_CB; cc [5] K_CC; cd [5] K_CD; ce [5] K_CE; cf [5] K_CF; cg [7] K_CG; ch [5] K_CH;
    cj [5] K_CJ; ck [5] K_CK; cl [5] K_CL; cm [7] K_CM; cn [7] K_CN; cp [4] K_CP; cs [4] K_CS; cu [4] K_CU;
}
pub mod history {
    use super::*;
    crate::harnesses! {
        u3 [5] => hist::<_, 3, 3>(&K_U3);
        boolean [4] => hist::<_, 2, 3>(&K_BOOL);
        ob [4] => hist::<_, 3, 3>(&K_OB);
        ca [5] => hist::<_, 4, 2>(&K_CA);
        cu [5] => hist::<_, 2, 3>(&K_CU);
        #[cfg(feature = "thorough")] u3_long [5] => hist::<_, 3, 6>(&K_U3);
        #[cfg(feature = "thorough")] cb_long [5] => hist::<_, 4, 4>(&K_CB);
        #[cfg(feature = "thorough")] ce_long [5] => hist::<_, 4, 4>(&K_CE);
    }
}
