//! C16: collecting equals inserting one by one.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use fixed_map::{Key, Map, Set};

/// An iterator over up to L arbitrary items that counts how many it handed out and announces an
/// arbitrary correct size hint.
struct Items<'a, T, const L: usize> {
    items: [T; L],
    n: usize,
    at: usize,
    hint: (usize, Option<usize>),
    asked: &'a mut usize,
}
impl<T: Copy, const L: usize> Iterator for Items<'_, T, L> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.at < self.n {
            *self.asked += 1;
            self.at += 1;
            Some(self.items[self.at - 1])
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.n - self.at;
        (left.saturating_sub(self.hint.0), self.hint.1.map(|h| left + h))
    }
}
fn any_hint() -> (usize, Option<usize>) {
    let lo = nd::u8() as usize;
    let hi = nd::u8() as usize;
    (lo, if nd::flag() { Some(hi) } else { None })
}

fn map_from_iter<K: Key, const N: usize, const L: usize>(u: &[K; N]) {
    let mut r = Ref::new();
    let n = nd::below(L + 1);
    let mut items = [(u[0], 0u8); L];
    let mut want = Map::new();
    un::<L>(|j| {
        let (i, v) = (nd::below(N), nd::u8());
        items[j] = (u[i], v);
        if j < n {
            r.put(i, v);
            want.insert(u[i], v);
        }
    });
    let mut asked = 0;
    let mut m: Map<K, u8> = Items { items, n, at: 0, hint: any_hint(), asked: &mut asked }.collect();
    assert!(asked == n, "every item is consumed");
    observe(&mut m, &r, u);
    assert!(m.len() == want.len(), "same size as inserting one by one");
    un::<N>(|i| assert!(m.get(u[i]) == want.get(u[i]), "same content as inserting one by one"));
    nd::done();
}

fn set_from_iter<K: Key, const N: usize, const L: usize>(u: &[K; N]) {
    let mut r = [false; N];
    let n = nd::below(L + 1);
    let mut items = [u[0]; L];
    un::<L>(|j| {
        let i = nd::below(N);
        items[j] = u[i];
        if j < n {
            r[i] = true;
        }
    });
    let mut asked = 0;
    let s: Set<K> = Items { items, n, at: 0, hint: any_hint(), asked: &mut asked }.collect();
    assert!(asked == n, "every item is consumed");
    sobserve(&s, &r, u);
    assert!(s.len() == count(&r), "size");
    nd::done();
}

fn set_from_array<K: Key, const N: usize, const L: usize>(u: &[K; N]) {
    let mut r = [false; N];
    let mut items = [u[0]; L];
    un::<L>(|j| {
        let i = nd::below(N);
        items[j] = u[i];
        r[i] = true;
    });
    let s: Set<K> = Set::from(items);
    sobserve(&s, &r, u);
    assert!(s.len() == count(&r), "size");
    nd::done();
}

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            const N: usize = $u.len();
            crate::harnesses! {
                map [$unw] => { map_from_iter::<_, N, 4>(&$u) };
                set [$unw] => { set_from_iter::<_, N, 4>(&$u) };
                array0 [3] => { set_from_array::<_, N, 0>(&$u) };
                array1 [4] => { set_from_array::<_, N, 1>(&$u) };
                array4 [$unw] => { set_from_array::<_, N, 4>(&$u) };
                #[cfg(feature = "thorough")] map_long [$unw] => { map_from_iter::<_, N, 7>(&$u) };
                #[cfg(feature = "thorough")] array_long [$unw] => { set_from_array::<_, N, 7>(&$u) };
            }
        } )*
        crate::groups! { $( $(#[$m])* $s; )* }
    };
}
shapes! {
    u1 [9] K_U1; u2 [9] K_U2; u3 [9] K_U3; u5 [9] K_U5; d3 [9] K_D3; b2 [9] K_B2; b9 [11] K_B9;
    boolean [9] K_BOOL; ob [9] K_OB; oob [9] K_OOB; one [9] K_ONE; oone [9] K_OONE; oci [9] K_OCI;
    ca [9] K_CA; cb [9] K_CB; cc [9] K_CC; cd [9] K_CD; ce [9] K_CE; ch [9] K_CH; cj [9] K_CJ; ck [9] K_CK; cs [9] K_CS; cu [9] K_CU;
}
