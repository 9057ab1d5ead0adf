//! C18: option buckets give exact views of an optional slot.
use crate::nd;
use crate::util::*;
use core::cell::Cell;
use fixed_map::option_bucket::{NoneBucket, OptionBucket, SomeBucket};

#[inline(always)]
fn slot() -> Option<u8> {
    if nd::flag() { Some(nd::u8()) } else { None }
}

fn some() {
    let mut s = slot();
    let old = s;
    let (v, w) = (nd::u8(), nd::u8());
    let mut want = old;
    match SomeBucket::new(&mut s) {
        None => assert!(old.is_none(), "no occupied view only of an empty slot"),
        Some(mut b) => {
            assert!(old.is_some(), "an occupied view only of a full slot");
            assert!(*b.as_ref() == old.unwrap(), "as_ref reads the value");
            match nd::below(6) {
                0 => {}
                1 => {
                    *b.as_mut() = v;
                    assert!(*b.as_ref() == v, "as_mut writes");
                    want = Some(v);
                }
                2 => {
                    assert!(b.replace(v) == old.unwrap(), "replace hands the value back");
                    assert!(*b.as_ref() == v, "replace stores");
                    assert!(b.replace(w) == v, "replace again");
                    want = Some(w);
                }
                3 => {
                    let x = b.into_mut();
                    assert!(*x == old.unwrap(), "into_mut reads the value");
                    *x = v;
                    want = Some(v);
                }
                4 => {
                    assert!(b.take() == old.unwrap(), "take hands the value back");
                    want = None;
                }
                _ => {
                    b.replace(v);
                    assert!(b.take() == v, "take after replace");
                    want = None;
                }
            }
        }
    }
    assert!(s == want, "the slot afterwards");
    nd::done();
}

fn none() {
    let mut s = slot();
    let old = s;
    let (v, w) = (nd::u8(), nd::u8());
    let mut want = old;
    match NoneBucket::new(&mut s) {
        None => assert!(old.is_some(), "no vacant view only of a full slot"),
        Some(b) => {
            assert!(old.is_none(), "a vacant view only of an empty slot");
            if nd::flag() {
                let x = b.insert(v);
                assert!(*x == v, "insert stores");
                *x = w;
                want = Some(w);
            }
        }
    }
    assert!(s == want, "the slot afterwards");
    nd::done();
}

fn either() {
    let mut s = slot();
    let old = s;
    let v = nd::u8();
    let mut want = old;
    match OptionBucket::new(&mut s) {
        OptionBucket::Some(mut b) => {
            assert!(old == Some(*b.as_ref()), "the occupied view of the value");
            if nd::flag() {
                *b.as_mut() = v;
                want = Some(v);
            }
            if nd::flag() {
                assert!(Some(b.take()) == want, "take");
                want = None;
            }
        }
        OptionBucket::None(b) => {
            assert!(old.is_none(), "the vacant view of an empty slot");
            if nd::flag() {
                assert!(*b.insert(v) == v, "insert");
                want = Some(v);
            }
        }
    }
    assert!(s == want, "the slot afterwards");
    nd::done();
}

/// A value that owns something: counts drops per identity.
struct D<'a>(u8, &'a [Cell<u8>; 3]);
impl Drop for D<'_> {
    fn drop(&mut self) {
        let c = &self.1[self.0 as usize];
        c.set(c.get() + 1);
    }
}
fn owned() {
    let drops = [const { Cell::new(0) }; 3];
    let full = nd::flag();
    let mut made = [full, false, false];
    {
        let mut s = if full { Some(D(0, &drops)) } else { None };
        match OptionBucket::new(&mut s) {
            OptionBucket::Some(mut b) => match nd::below(4) {
                0 => {
                    made[1] = true;
                    let old = b.replace(D(1, &drops));
                    assert!(old.0 == 0 && drops[0].get() == 0, "replace does not drop");
                    drop(old);
                    assert!(drops[0].get() == 1 && drops[1].get() == 0, "handed back once");
                    if nd::flag() {
                        assert!(b.take().0 == 1, "take");
                        assert!(drops[1].get() == 1, "taken once");
                    }
                }
                1 => {
                    let x = b.take();
                    assert!(x.0 == 0 && drops[0].get() == 0, "take does not drop");
                    drop(x);
                    assert!(s.is_none(), "take empties");
                }
                2 => {
                    made[1] = true;
                    *b.into_mut() = D(1, &drops);
                    assert!(drops[0].get() == 1, "overwriting drops the old value");
                }
                _ => {
                    made[1] = true;
                    *b.as_mut() = D(1, &drops);
                    assert!(b.as_ref().0 == 1 && drops[0].get() == 1, "overwriting drops the old value");
                }
            },
            OptionBucket::None(b) => {
                if nd::flag() {
                    made[2] = true;
                    let x = b.insert(D(2, &drops));
                    assert!(x.0 == 2 && drops[2].get() == 0, "insert does not drop");
                }
            }
        }
    }
    un::<3>(|i| assert!(drops[i].get() == made[i] as u8, "every value is dropped exactly once"));
    nd::done();
}

/// Values with a niche, without size and of larger size.
fn niches() {
    let x = nd::u8();
    let y = nd::u8();
    let mut s: Option<&u8> = if nd::flag() { Some(&x) } else { None };
    let was = s.is_some();
    match OptionBucket::new(&mut s) {
        OptionBucket::Some(mut b) => {
            assert!(was && **b.as_ref() == x, "reads the reference");
            assert!(*b.replace(&y) == x, "replace");
            assert!(*b.take() == y, "take");
        }
        OptionBucket::None(b) => assert!(!was && **b.insert(&y) == y, "insert"),
    }
    assert!(s.is_some() == !was, "the slot afterwards");
    let mut t: Option<()> = if nd::flag() { Some(()) } else { None };
    let was = t.is_some();
    match OptionBucket::new(&mut t) {
        OptionBucket::Some(b) => b.take(),
        OptionBucket::None(b) => *b.insert(()),
    }
    assert!(t.is_some() == !was, "the unit slot afterwards");
    let v = [nd::u64(), nd::u64()];
    let mut w: Option<[u64; 2]> = if nd::flag() { Some(v) } else { None };
    let was = w.is_some();
    match OptionBucket::new(&mut w) {
        OptionBucket::Some(b) => {
            let t = b.take();
            assert!(was && t[0] == v[0] && t[1] == v[1], "take")
        },
        OptionBucket::None(b) => {
            let t = b.insert(v);
            assert!(!was && t[0] == v[0] && t[1] == v[1], "insert")
        }
    }
    assert!(w.is_some() == !was, "the slot afterwards");
    // An optional slot inside an option.
    let inner = slot();
    let mut n: Option<Option<u8>> = if nd::flag() { Some(inner) } else { None };
    let was = n;
    match OptionBucket::new(&mut n) {
        OptionBucket::Some(mut b) => {
            assert!(was == Some(*b.as_ref()), "nested value");
            b.replace(None);
            assert!(n == Some(None), "a present empty option");
        }
        OptionBucket::None(b) => {
            assert!(was.is_none(), "empty outside");
            b.insert(inner);
            assert!(n == Some(inner), "nested insert");
        }
    }
    nd::done();
}

crate::harnesses! {
    some_bucket [2] => some();
    none_bucket [2] => none();
    option_bucket [2] => either();
    owned_values [4] => owned();
    niche_values [4] => niches();
}
