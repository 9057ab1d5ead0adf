//! C15: serialization round-trips and reports faithfully.
use crate::nd;
use crate::shapes::*;
use crate::util::*;
use core::fmt;
use fixed_map::{Key, Map, Set};
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// The error made by step `.0` of a stream (200: made by serde itself).
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct E(u8);
impl fmt::Display for E {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E(200)
    }
}
impl serde::de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E(200)
    }
}

// Keys of derived types are presented as their position.
macro_rules! coded {
    ($($t:ident $u:ident;)*) => { $(
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u8(pos(&$u, *self) as u8)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let c = u8::deserialize(d)? as usize;
                if c < $u.len() { Ok($u[c]) } else { Err(serde::de::Error::custom("no such key")) }
            }
        }
    )* };
}
coded! { U1 K_U1; U2 K_U2; U3 K_U3; D3 K_D3; B3 K_B3; B2 K_B2; Ca K_CA; Cu K_CU; Cs K_CS; Ck K_CK; Ci K_CI; Cb K_CB; }

macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $( fn $f(self, $(_: $t),*) -> Result<Self::Ok, E> { Err(E(99)) } )* };
}
macro_rules! none_else {
    () => {
        no! {
            serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64);
            serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]);
            serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
        }
        fn collect_str<T: ?Sized + fmt::Display>(self, _: &T) -> Result<Self::Ok, E> { Err(E(99)) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, E> { Err(E(99)) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, E> { Err(E(99)) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E(99)) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E(99)) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E(99)) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E(99)) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E(99)) }
        type SerializeTuple = Impossible<Self::Ok, E>;
        type SerializeTupleStruct = Impossible<Self::Ok, E>;
        type SerializeTupleVariant = Impossible<Self::Ok, E>;
        type SerializeStruct = Impossible<Self::Ok, E>;
        type SerializeStructVariant = Impossible<Self::Ok, E>;
    };
}

/// Reduces a key or a value to a code.
struct Code;
impl Serializer for Code {
    type Ok = u8;
    type Error = E;
    fn serialize_u8(self, v: u8) -> Result<u8, E> { Ok(v) }
    fn serialize_bool(self, v: bool) -> Result<u8, E> { Ok(!v as u8) }
    fn serialize_none(self) -> Result<u8, E> { Ok(9) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<u8, E> { v.serialize(Code) }
    fn serialize_unit(self) -> Result<u8, E> { Ok(7) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> { Err(E(99)) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E(99)) }
    type SerializeSeq = Impossible<u8, E>;
    type SerializeMap = Impossible<u8, E>;
    none_else!();
}

const CAP: usize = 6;

/// Records what a container presents and fails at one step.
struct Log {
    step: u8,
    fail_at: u8,
    failed: bool,
    announced: Option<usize>,
    keys: [u8; CAP],
    vals: [u8; CAP],
    n: usize,
    m: usize,
    map: bool,
}
impl Log {
    fn tick(&mut self) -> Result<(), E> {
        assert!(!self.failed, "nothing is presented after an error");
        let s = self.step;
        self.step += 1;
        if s == self.fail_at {
            self.failed = true;
            return Err(E(s));
        }
        Ok(())
    }
}
impl<'a> Serializer for &'a mut Log {
    type Ok = u8;
    type Error = E;
    no! { serialize_u8(u8); serialize_bool(bool); serialize_none(); serialize_unit(); }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<u8, E> { Err(E(99)) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self::SerializeSeq, E> {
        self.tick()?;
        self.announced = n;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self::SerializeMap, E> {
        self.tick()?;
        self.announced = n;
        self.map = true;
        Ok(self)
    }
    type SerializeSeq = &'a mut Log;
    type SerializeMap = &'a mut Log;
    none_else!();
}
impl SerializeMap for &mut Log {
    type Ok = u8;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> {
        self.tick()?;
        assert!(self.n == self.m && self.n < CAP, "a key follows a complete entry");
        self.keys[self.n] = k.serialize(Code)?;
        self.n += 1;
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.tick()?;
        assert!(self.n == self.m + 1, "a value follows its key");
        self.vals[self.m] = v.serialize(Code)?;
        self.m += 1;
        Ok(())
    }
    fn end(self) -> Result<u8, E> {
        self.tick()?;
        Ok(42)
    }
}
impl SerializeSeq for &mut Log {
    type Ok = u8;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.tick()?;
        assert!(self.n < CAP, "no more elements than there are");
        self.keys[self.n] = v.serialize(Code)?;
        self.n += 1;
        Ok(())
    }
    fn end(self) -> Result<u8, E> {
        self.tick()?;
        Ok(42)
    }
}
fn log(fail_at: u8) -> Log {
    Log { step: 0, fail_at, failed: false, announced: None, keys: [0; CAP], vals: [0; CAP], n: 0, m: 0, map: false }
}

fn map_out<K: Key + Serialize, const N: usize>(u: &[K; N], codes: &[u8; N]) {
    let (m, r) = any_map(u);
    let fail_at = nd::u8();
    let mut l = log(fail_at);
    let res = m.serialize(&mut l);
    let total = 2 + 2 * r.len();
    if (fail_at as usize) < total {
        assert!(res == Err(E(fail_at)), "the serializer's error is returned");
        assert!(l.step == fail_at + 1, "and stops it");
    } else {
        assert!(res == Ok(42), "the serializer's result is returned");
        assert!(l.map && l.announced == Some(r.len()), "the exact length is announced");
        assert!(l.n == r.len() && l.m == r.len(), "every entry once");
        let mut j = 0;
        un::<N>(|i| {
            if r.p[i] {
                assert!(l.keys[j] == codes[i] && l.vals[j] == r.v[i], "entries in iteration order");
                j += 1;
            }
        });
    }
    nd::done();
}

fn set_out<K: Key + Serialize, const N: usize>(u: &[K; N], codes: &[u8; N]) {
    let (s, r) = any_set(u);
    let fail_at = nd::u8();
    let mut l = log(fail_at);
    let res = s.serialize(&mut l);
    let total = 2 + count(&r);
    if (fail_at as usize) < total {
        assert!(res == Err(E(fail_at)), "the serializer's error is returned");
        assert!(l.step == fail_at + 1, "and stops it");
    } else {
        assert!(res == Ok(42), "the serializer's result is returned");
        assert!(!l.map && l.announced == Some(count(&r)), "the exact length is announced");
        assert!(l.n == count(&r), "every element once");
        let mut j = 0;
        un::<N>(|i| {
            if r[i] {
                assert!(l.keys[j] == codes[i], "elements in iteration order");
                j += 1;
            }
        });
    }
    nd::done();
}

/// Presents a code as the key or value it stands for.
struct FromCode(u8);
impl<'de> Deserializer<'de> for FromCode {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_u8(self.0)
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_bool(self.0 == 0)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.0 == 9 { v.visit_none() } else { v.visit_some(self) }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    serde::forward_to_deserialize_any! {
        i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// A stream of entries that fails at one step.
struct Stream<'a, const L: usize> {
    items: &'a [(u8, u8); L],
    n: usize,
    at: usize,
    step: &'a mut u8,
    fail_at: u8,
    over: bool,
    hint: Option<usize>,
    map: bool,
}
impl<const L: usize> Stream<'_, L> {
    fn tick(&mut self) -> Result<(), E> {
        assert!(!self.over, "nothing is asked for after the end or an error");
        let s = *self.step;
        *self.step += 1;
        if s == self.fail_at {
            self.over = true;
            return Err(E(s));
        }
        Ok(())
    }
}
impl<'de, const L: usize> MapAccess<'de> for Stream<'_, L> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, E> {
        self.tick()?;
        if self.at == self.n {
            self.over = true;
            return Ok(None);
        }
        seed.deserialize(FromCode(self.items[self.at].0)).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, E> {
        self.tick()?;
        self.at += 1;
        seed.deserialize(FromCode(self.items[self.at - 1].1))
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de, const L: usize> SeqAccess<'de> for Stream<'_, L> {
    type Error = E;
    fn next_element_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, E> {
        self.tick()?;
        if self.at == self.n {
            self.over = true;
            return Ok(None);
        }
        self.at += 1;
        seed.deserialize(FromCode(self.items[self.at - 1].0)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'de, const L: usize> Deserializer<'de> for Stream<'_, L> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.map { v.visit_map(self) } else { v.visit_unit() }
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.map { v.visit_unit() } else { v.visit_seq(self) }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct tuple tuple_struct struct enum identifier ignored_any
    }
}

/// `bad`: the stream may hold keys that cannot be deserialized.
fn map_in<K: Key + for<'a> Deserialize<'a>, const N: usize, const L: usize>(u: &[K; N], codes: &[u8; N], bad: bool) {
    let n = nd::below(L + 1);
    let fail_at = nd::u8();
    let hint = if nd::flag() { Some(nd::u8() as usize) } else { None };
    let mut items = [(0u8, 0u8); L];
    let mut r = Ref::<N>::new();
    let mut err = None;
    let mut step = 0u8;
    un::<L>(|j| {
        let i = nd::below(N + bad as usize);
        let v = nd::u8();
        items[j] = (if i < N { codes[i] } else { 100 }, v);
        if j < n && err.is_none() {
            if step == fail_at || step + 1 == fail_at {
                // A broken key is found before the value is asked for.
                err = Some(E(if i == N && step != fail_at { 200 } else { fail_at }));
            } else if i == N {
                err = Some(E(200));
            } else {
                r.put(i, v);
                step += 2;
            }
        }
    });
    if err.is_none() && step == fail_at {
        err = Some(E(step));
    }
    let mut steps = 0;
    let res = Map::<K, u8>::deserialize(Stream { items: &items, n, at: 0, step: &mut steps, fail_at, over: false, hint, map: true });
    match (err, res) {
        (Some(e), Err(f)) => assert!(e == f, "the first error of the stream is returned"),
        (None, Ok(mut m)) => {
            observe(&mut m, &r, u);
            assert!(m.len() == r.len(), "size");
            assert!(steps == step + 1, "the stream is read to its end");
        }
        (Some(_), Ok(_)) => assert!(false, "an error of the stream is lost"),
        (None, Err(_)) => assert!(false, "a good stream is refused"),
    }
    nd::done();
}

fn set_in<K: Key + for<'a> Deserialize<'a>, const N: usize, const L: usize>(u: &[K; N], codes: &[u8; N], bad: bool) {
    let n = nd::below(L + 1);
    let fail_at = nd::u8();
    let hint = if nd::flag() { Some(nd::u8() as usize) } else { None };
    let mut items = [(0u8, 0u8); L];
    let mut r = [false; N];
    let mut err = None;
    let mut step = 0u8;
    un::<L>(|j| {
        let i = nd::below(N + bad as usize);
        items[j] = (if i < N { codes[i] } else { 100 }, 0);
        if j < n && err.is_none() {
            if step == fail_at {
                err = Some(E(fail_at));
            } else if i == N {
                err = Some(E(200));
            } else {
                r[i] = true;
                step += 1;
            }
        }
    });
    if err.is_none() && step == fail_at {
        err = Some(E(step));
    }
    let mut steps = 0;
    let res = Set::<K>::deserialize(Stream { items: &items, n, at: 0, step: &mut steps, fail_at, over: false, hint, map: false });
    match (err, res) {
        (Some(e), Err(f)) => assert!(e == f, "the first error of the stream is returned"),
        (None, Ok(s)) => {
            sobserve(&s, &r, u);
            assert!(s.len() == count(&r), "size");
            assert!(steps == step + 1, "the stream is read to its end");
        }
        (Some(_), Ok(_)) => assert!(false, "an error of the stream is lost"),
        (None, Err(_)) => assert!(false, "a good stream is refused"),
    }
    nd::done();
}

/// What is neither a map nor a sequence is refused.
fn refused<K: Key + for<'a> Deserialize<'a>>() {
    let mut steps = 0;
    let items = [(0u8, 0u8); 1];
    let as_map = nd::flag();
    let s = Stream { items: &items, n: 1, at: 0, step: &mut steps, fail_at: 255, over: false, hint: None, map: !as_map };
    if as_map {
        assert!(Map::<K, u8>::deserialize(s).is_err(), "a unit is not a map");
    } else {
        assert!(Set::<K>::deserialize(s).is_err(), "a unit is not a sequence");
    }
    nd::done();
}

/// What is presented, read back, gives an equal container.
fn round<K: Key + Serialize + for<'a> Deserialize<'a>, const N: usize>(u: &[K; N]) {
    let (m, r) = any_map(u);
    let mut l = log(255);
    assert!(m.serialize(&mut l) == Ok(42), "serializes");
    let mut items = [(0u8, 0u8); CAP];
    un::<CAP>(|i| items[i] = (l.keys[i], l.vals[i]));
    let mut steps = 0;
    match Map::<K, u8>::deserialize(Stream { items: &items, n: l.n, at: 0, step: &mut steps, fail_at: 255, over: false, hint: l.announced, map: true }) {
        Ok(mut b) => observe(&mut b, &r, u),
        Err(_) => assert!(false, "what was presented is read back"),
    }
    nd::done();
}

macro_rules! shapes {
    ($( $(#[$m:meta])* $s:ident [$unw:literal] $u:ident $c:expr, $bad:literal; )*) => {
        $( $(#[$m])* pub mod $s {
            use super::*;
            const N: usize = $u.len();
            crate::harnesses! {
                map_out [$unw] => { super::map_out(&$u, &$c) };
                set_out [$unw] => { super::set_out(&$u, &$c) };
                map_in [5] => { super::map_in::<_, N, 3>(&$u, &$c, $bad) };
                set_in [5] => { super::set_in::<_, N, 3>(&$u, &$c, $bad) };
                #[cfg(feature = "thorough")] round [$unw] => { super::round(&$u) };
                #[cfg(feature = "thorough")] map_in_long [7] => { super::map_in::<_, N, 5>(&$u, &$c, $bad) };
                #[cfg(feature = "thorough")] set_in_long [7] => { super::set_in::<_, N, 5>(&$u, &$c, $bad) };
            }
        } )*
        crate::groups! { $( $(#[$m])* $s; )* wrong; }
    };
}
shapes! {
    u1 [4] K_U1 [0], true; u2 [5] K_U2 [0, 1], true; u3 [5] K_U3 [0, 1, 2], true; d3 [5] K_D3 [0, 1, 2], true; b3 [5] K_B3 [0, 1, 2], true;
    boolean [5] K_BOOL [0, 1], false; ob [5] K_OB [0, 1, 9], false; one [4] K_ONE [7], false; oone [5] K_OONE [7, 9], false;
    ci [5] K_CI [0, 1, 2], true; cu [4] K_CU [0, 1], true; cs [4] K_CS [0, 1], true; ck [5] K_CK [0, 1, 2], true;
    #[cfg(feature = "thorough")] ca [6] K_CA [0, 1, 2, 3], true;
    #[cfg(feature = "thorough")] cb [6] K_CB [0, 1, 2, 3], true;
    #[cfg(feature = "thorough")] b2 [5] K_B2 [0, 1], true;
}
pub mod wrong {
    use super::*;
    crate::harnesses! {
        u3 [4] => refused::<U3>();
        boolean [4] => refused::<bool>();
        ci [4] => refused::<Ci>();
    }
}
