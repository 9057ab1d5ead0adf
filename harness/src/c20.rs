//! C20: debug output shows exactly the contents.
use crate::nd;
use crate::util::*;
use core::fmt::{self, Write};
use fixed_map::{Key, Map, Set};

/// Compares what is written with what is expected, byte by byte.
struct Sink<'a, const L: usize> {
    want: &'a [u8; L],
    n: usize,
    at: usize,
    /// The write (counting from 0) that fails.
    fail_at: usize,
    calls: usize,
    ok: bool,
}
impl<const L: usize> Write for Sink<'_, L> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let c = self.calls;
        self.calls += 1;
        assert!(c <= self.fail_at, "nothing is written after an error");
        if c == self.fail_at {
            return Err(fmt::Error);
        }
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if self.at >= self.n || self.want[self.at] != b[i] {
                self.ok = false;
            }
            self.at += 1;
            i += 1;
        }
        Ok(())
    }
}

struct Want<const L: usize> {
    b: [u8; L],
    n: usize,
}
impl<const L: usize> Want<L> {
    fn put(&mut self, c: u8) {
        self.b[self.n] = c;
        self.n += 1;
    }
}

#[derive(Clone, Copy)]
struct Val(u8);
impl fmt::Debug for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self.0 {
            0 => "0",
            1 => "1",
            2 => "2",
            _ => "3",
        })
    }
}

macro_rules! keys {
    ($($t:ident $u:ident [$($k:expr),*];)*) => { $(
        const $u: [$t; [$(stringify!($k)),*].len()] = { use $t::*; [$($k),*] };
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(match pos(&$u, *self) {
                    0 => "a",
                    1 => "b",
                    2 => "c",
                    3 => "d",
                    _ => "e",
                })
            }
        }
    )* };
}
#[derive(Key, Clone, Copy, PartialEq)]
pub enum F1 { V0 }
#[derive(Key, Clone, Copy, PartialEq)]
pub enum F2 { V0, V1 }
#[derive(Key, Clone, Copy, PartialEq)]
pub enum F3 { V0, V1, V2 }
#[derive(Key, Clone, Copy, PartialEq)]
#[key(bitset)]
pub enum G3 { V0, V1, V2 }
#[derive(Key, Clone, Copy, PartialEq)]
pub enum F4 { A, B(bool) }
#[derive(Key, Clone, Copy, PartialEq)]
pub enum F5 { A(Option<()>), B }
#[derive(Key, Clone, Copy, PartialEq)]
pub enum F6 { A(F7), B }
#[derive(Key, Clone, Copy, PartialEq)]
pub enum F7 { V0 }
keys! {
    F1 K_F1 [V0];
    F2 K_F2 [V0, V1];
    F3 K_F3 [V0, V1, V2];
    G3 K_G3 [V0, V1, V2];
    F4 K_F4 [A, B(true), B(false)];
    F5 K_F5 [A(Some(())), A(None), B];
    F6 K_F6 [A(F7::V0), B];
    F7 K_F7 [V0];
}

fn map<K: Key + PartialEq + fmt::Debug, const N: usize, const L: usize>(u: &[K; N]) {
    let mut m = Map::<K, Val>::new();
    let mut w = Want::<L> { b: [0; L], n: 0 };
    w.put(b'{');
    let mut any = false;
    un::<N>(|i| {
        if nd::flag() {
            let v = nd::below(4) as u8;
            m.insert(u[i], Val(v));
            if any {
                w.put(b',');
                w.put(b' ');
            }
            any = true;
            w.put(b'a' + i as u8);
            w.put(b':');
            w.put(b' ');
            w.put(b'0' + v);
        }
    });
    w.put(b'}');
    check(&w, format_args!("{:?}", m));
}
fn set<K: Key + PartialEq + fmt::Debug, const N: usize, const L: usize>(u: &[K; N]) {
    let (s, r) = any_set(u);
    let w = list::<N, L>(&r, b'{', b'}');
    check(&w, format_args!("{:?}", s));
}
fn common<K: Key + PartialEq + fmt::Debug, const N: usize, const L: usize>(u: &[K; N]) {
    let (a, ra) = any_set(u);
    let (b, rb) = any_set(u);
    let mut both = [false; N];
    un::<N>(|i| both[i] = ra[i] && rb[i]);
    let w = list::<N, L>(&both, b'[', b']');
    check(&w, format_args!("{:?}", a.intersection(&b)));
}
/// What an intersection would still yield is shown, and still yielded afterwards.
fn rest<K: Key + PartialEq + fmt::Debug, const N: usize, const L: usize>(u: &[K; N]) {
    let (a, ra) = any_set(u);
    let (b, rb) = any_set(u);
    let mut both = [false; N];
    un::<N>(|i| both[i] = ra[i] && rb[i]);
    let mut it = a.intersection(&b);
    if nd::flag() {
        fstep(&mut it, &mut both, &mut |_, _| ());
    }
    let w = list::<N, L>(&both, b'[', b']');
    check(&w, format_args!("{:?}", it));
    fstep(&mut it, &mut both, &mut |k, i| assert!(k == u[i], "formatting consumes nothing"));
}
fn list<const N: usize, const L: usize>(p: &[bool; N], open: u8, close: u8) -> Want<L> {
    let mut w = Want::<L> { b: [0; L], n: 0 };
    w.put(open);
    let mut any = false;
    un::<N>(|i| {
        if p[i] {
            if any {
                w.put(b',');
                w.put(b' ');
            }
            any = true;
            w.put(b'a' + i as u8);
        }
    });
    w.put(close);
    w
}
fn check<const L: usize>(w: &Want<L>, f: fmt::Arguments<'_>) {
    let mut s = Sink { want: &w.b, n: w.n, at: 0, fail_at: usize::MAX, calls: 0, ok: true };
    assert!(s.write_fmt(f).is_ok(), "formatting succeeds");
    assert!(s.ok && s.at == w.n, "exactly the contents are shown");
    nd::done();
}

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident: $($(#[$n:meta])* $k:ident)*; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            const N: usize = $u.len();
            crate::harnesses! {
                $( $(#[$n])* $k [$unw] => super::$k::<_, N, { 6 * N + 2 }>(&$u); )*
            }
        } )*
        crate::groups! { $( $(#[$m])* $s; )* }
    };
}
shapes! {
    f1 [4] K_F1: map set common rest;
    f2 [5] K_F2: map set common #[cfg(feature = "thorough")] rest;
    f3 [6] K_F3: map set #[cfg(feature = "thorough")] common #[cfg(feature = "thorough")] rest;
    g3 [6] K_G3: map set #[cfg(feature = "thorough")] common #[cfg(feature = "thorough")] rest;
    f4 [6] K_F4: map set common #[cfg(feature = "thorough")] rest;
    f5 [6] K_F5: map set #[cfg(feature = "thorough")] common #[cfg(feature = "thorough")] rest;
    f6 [5] K_F6: map set #[cfg(feature = "thorough")] common #[cfg(feature = "thorough")] rest;
}
