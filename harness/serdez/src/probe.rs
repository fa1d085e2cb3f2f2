//! A type that records what the deserialiser reports, and one that drives the serialiser freely.
use crate::util::{showm, showv};
use engine::rng::Rng;
use engine::{check, lib, sub, Ctx, Sub, Tape, R};
use oasis_cbor::serde as s;
use refmodel::gen;
use refmodel::value::{from_value, to_value};
use refmodel::wire::{canonical, raw, M, NULL};
use serde::de::{self, Deserialize, Deserializer, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::cell::{Cell, RefCell};
use std::fmt;

thread_local! {
    static HINT: Cell<u64> = const { Cell::new(0) };
    static NAMES: RefCell<std::collections::HashMap<String, &'static str>> = Default::default();
}
fn name(s: &str) -> &'static str {
    NAMES.with(|n| *n.borrow_mut().entry(s.to_string()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str())))
}

/// What the visitor was shown, as an item. Undefined and null are both "nothing".
pub struct Any(pub M);
struct See;
impl<'de> Visitor<'de> for See {
    type Value = Any;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Any, E> {
        Ok(Any(M::S(20 + v as u8)))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Any, E> {
        Ok(Any(M::int(v as i128)))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Any, E> {
        Ok(Any(M::U(v)))
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<Any, E> {
        if v < -(1i128 << 64) || v >= 1i128 << 64 {
            return Ok(Any(M::t(&format!("out of range: {}", v))));
        }
        Ok(Any(M::int(v)))
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<Any, E> {
        let b = v.to_be_bytes();
        let z = b.iter().take_while(|x| **x == 0).count();
        Ok(Any(M::B(b[z..].to_vec())))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Any, E> {
        Ok(Any(M::T(format!("float {}", v))))
    }
    fn visit_char<E>(self, v: char) -> Result<Any, E> {
        Ok(Any(M::U(v as u64)))
    }
    fn visit_str<E>(self, v: &str) -> Result<Any, E> {
        Ok(Any(M::t(v)))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Any, E> {
        Ok(Any(M::B(v.to_vec())))
    }
    fn visit_none<E>(self) -> Result<Any, E> {
        Ok(Any(NULL))
    }
    fn visit_unit<E>(self) -> Result<Any, E> {
        Ok(Any(NULL))
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        Any::deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        Any::deserialize(d)
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = Vec::new();
        while let Some(Any(x)) = a.next_element()? {
            v.push(x);
        }
        Ok(Any(M::A(v)))
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = Vec::new();
        loop {
            if HINT.with(|h| h.get()) & 1 == 0 {
                match a.next_entry::<Any, Any>()? {
                    Some((k, x)) => v.push((k.0, x.0)),
                    None => break,
                }
            } else {
                match a.next_key::<Any>()? {
                    Some(k) => v.push((k.0, a.next_value::<Any>()?.0)),
                    None => break,
                }
            }
        }
        Ok(Any(M::Map(v)))
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Any, A::Error> {
        use de::VariantAccess;
        let (k, v) = a.variant::<Any>()?;
        let x = match HINT.with(|h| h.get()) % 4 {
            0 => v.newtype_variant::<Any>()?.0,
            1 => {
                v.unit_variant()?;
                NULL
            }
            2 => v.tuple_variant(2, See)?.0,
            _ => v.struct_variant(&["a", "b"], See)?.0,
        };
        Ok(Any(M::Map(vec![(k.0, x)])))
    }
}
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(See)
    }
}
const HINTS: u64 = 33;
/// The same through one of the typed requests.
struct Hinted(M);
impl<'de> Deserialize<'de> for Hinted {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Hinted(match HINT.with(|h| h.get()) % HINTS {
            0 => d.deserialize_any(See)?,
            1 => d.deserialize_bool(See)?,
            2 => d.deserialize_i8(See)?,
            3 => d.deserialize_i16(See)?,
            4 => d.deserialize_i32(See)?,
            5 => d.deserialize_i64(See)?,
            6 => d.deserialize_i128(See)?,
            7 => d.deserialize_u8(See)?,
            8 => d.deserialize_u16(See)?,
            9 => d.deserialize_u32(See)?,
            10 => d.deserialize_u64(See)?,
            11 => d.deserialize_u128(See)?,
            12 => d.deserialize_f32(See)?,
            13 => d.deserialize_f64(See)?,
            14 => d.deserialize_char(See)?,
            15 => d.deserialize_str(See)?,
            16 => d.deserialize_string(See)?,
            17 => d.deserialize_bytes(See)?,
            18 => d.deserialize_byte_buf(See)?,
            19 => d.deserialize_option(See)?,
            20 => d.deserialize_unit(See)?,
            21 => d.deserialize_unit_struct("U", See)?,
            22 => d.deserialize_newtype_struct("N", See)?,
            23 => d.deserialize_seq(See)?,
            24 => d.deserialize_tuple(2, See)?,
            25 => d.deserialize_tuple_struct("T", 2, See)?,
            26 => d.deserialize_map(See)?,
            27 => d.deserialize_struct("S", &["a", "b"], See)?,
            28 => d.deserialize_identifier(See)?,
            29 => d.deserialize_ignored_any(See)?,
            _ => d.deserialize_enum("E", &["A", "B"], See)?,
        }.0))
    }
}

/// `m` as a self-describing visitor sees it.
fn seen(m: &M) -> Option<M> {
    Some(match m {
        M::S(22 | 23) => NULL,
        M::A(v) => M::A(v.iter().map(seen).collect::<Option<_>>()?),
        M::Map(v) => M::Map(v.iter().map(|(k, x)| Some((seen(k)?, seen(x)?))).collect::<Option<_>>()?),
        M::Tag(..) => return None,
        o => o.clone(),
    })
}
fn see(t: &mut Tape, c: &mut Ctx) -> R {
    let m = if t.chance(1, 4) { gen::tree(t) } else { canonical(&gen::dedup(&gen::tree(t))).expect("distinct") };
    let h = t.below(HINTS);
    HINT.with(|x| x.set(h));
    let want = seen(&m);
    let got = lib("serde::from_value", || s::from_value::<Any>(to_value(&m)))?;
    check!(got.as_ref().ok().map(|x| &x.0) == want.as_ref(), "deserialising {} shows {:?}", showm(&m), got.map(|x| showm(&x.0)));
    if let Ok(c) = canonical(&m) {
        let b = raw(&c);
        let got = lib("serde::from_slice", || s::from_slice::<Any>(&b))?;
        let want = if c.depth() > 64 { None } else { seen(&c) };
        check!(got.as_ref().ok().map(|x| &x.0) == want.as_ref(), "deserialising the bytes of {} shows {:?}", showm(&c), got.map(|x| showm(&x.0)));
    }
    // A request for something in particular either fails or shows what is there.
    let got = lib("serde::from_value", || s::from_value::<Hinted>(to_value(&m)))?.ok().map(|x| x.0);
    if let Some(g) = &got {
        let is = match (h, &m) {
            (12 | 13, _) => false,
            // As a number: leading zeros do not count.
            (11, M::B(b)) => *g == M::B(b.iter().copied().skip_while(|x| *x == 0).collect()) && b.iter().skip_while(|x| **x == 0).count() <= 16,
            (30.., M::T(_)) => *g == M::Map(vec![(m.clone(), NULL)]),
            (30.., M::Map(v)) if v.len() == 1 && matches!(v[0].1, M::S(22 | 23)) => Some(g) == want.as_ref(),
            (30.., M::Map(v)) if v.len() == 1 => {
                Some(g) == want.as_ref()
                    && match h % 4 {
                        1 => false,
                        2 => matches!(v[0].1, M::A(_)),
                        3 => matches!(v[0].1, M::Map(_)),
                        _ => true,
                    }
            }
            (30.., _) => false,
            (23, o) => matches!(o, M::A(_)) && Some(g) == want.as_ref(),
            (26 | 27, o) => matches!(o, M::Map(_)) && Some(g) == want.as_ref(),
            (14, o) => matches!(o, M::U(n) if u32::try_from(*n).ok().and_then(char::from_u32).is_some()) && g == o,
            _ => Some(g) == want.as_ref(),
        };
        check!(is, "request {} on {} shows {}", h, showm(&m), showm(g));
    }
    let must = match (h, &m) {
        (_, m) if seen(m).is_none() => false,
        (0 | 19 | 22 | 29, _) => true,
        (1, M::S(20 | 21)) => true,
        (2, M::U(0..=127) | M::N(0..=127)) => true,
        (3, M::U(0..=32767) | M::N(0..=32767)) => true,
        (4, M::U(0..=0x7fff_ffff) | M::N(0..=0x7fff_ffff)) => true,
        (5, M::U(0..=0x7fff_ffff_ffff_ffff) | M::N(0..=0x7fff_ffff_ffff_ffff)) => true,
        (6, M::U(_) | M::N(_)) => true,
        (7, M::U(0..=255)) => true,
        (8, M::U(0..=65535)) => true,
        (9, M::U(0..=0xffff_ffff)) => true,
        (10, M::U(_)) => true,
        (11, M::B(b)) => b.len() <= 16,
        (14, M::U(n)) => u32::try_from(*n).ok().and_then(char::from_u32).is_some(),
        (15 | 16 | 28, M::T(_)) => true,
        (17 | 18, M::B(_)) => true,
        (20 | 21, M::S(22)) => true,
        (23, M::A(_)) => true,
        (24 | 25, M::A(v)) => v.len() == 2,
        (26, M::Map(_)) => true,
        (27, M::Map(_)) => true,
        (30.., M::T(_)) => h % 4 == 0 || h % 4 == 1,
        (30.., M::Map(v)) => v.len() == 1 && h % 4 == 0,
        _ => false,
    };
    check!(!must || got.is_some(), "request {} on {} is refused", h, showm(&m));
    c.class(match (want.is_some(), got.is_some()) {
        (false, _) => "has a tag",
        (_, true) => "request met",
        _ => "request refused",
    });
    if m.count() > 1 {
        c.nontrivial(engine::rng::mix(h) ^ engine::rng::hash_bytes(&raw(&m)));
        c.sample(|| format!("request {} on {}", h, showm(&m)));
    }
    Ok(())
}

/// Serialises `m`, choosing among the serialiser's methods at random.
pub struct Script<'a> {
    m: &'a M,
    seed: u64,
    poison: Option<u64>,
    at: std::rc::Rc<Cell<u64>>,
}
impl<'a> Script<'a> {
    pub fn new(m: &'a M, seed: u64) -> Self {
        Script { m, seed, poison: None, at: Default::default() }
    }
    fn sub<'b>(&self, m: &'b M, k: usize) -> Script<'b> {
        Script { m, seed: engine::rng::mix(self.seed ^ (k as u64).wrapping_mul(0x9e37_79b9)), poison: self.poison, at: self.at.clone() }
    }
}
/// Can the serialiser be made to produce it?
fn expressible(m: &M) -> bool {
    !m.any(&|m| matches!(m, M::Tag(..) | M::S(23)) || matches!(m, M::N(n) if *n > i64::MAX as u64))
}
struct Bytes<'a>(&'a [u8]);
impl Serialize for Bytes<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}
impl Serialize for Script<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
        let n = self.at.get();
        self.at.set(n + 1);
        if self.poison == Some(n) {
            return s.serialize_f64(1.0);
        }
        let mut r = Rng::new(self.seed);
        if r.below(8) == 0 {
            return s.serialize_some(&self.sub(self.m, 99));
        }
        if matches!(self.m, M::U(_) | M::N(_)) {
            let i = self.m.as_int().expect("integer");
            let (a, b) = (i >= 0, i <= i64::MAX as i128);
            for _ in 0..8 {
                match r.below(9) {
                    0 if (-128..=127).contains(&i) => return s.serialize_i8(i as i8),
                    1 if i16::try_from(i).is_ok() => return s.serialize_i16(i as i16),
                    2 if i32::try_from(i).is_ok() => return s.serialize_i32(i as i32),
                    3 if b => return s.serialize_i64(i as i64),
                    4 if a && i < 256 => return s.serialize_u8(i as u8),
                    5 if a && i < 65536 => return s.serialize_u16(i as u16),
                    6 if a && i < 1 << 32 => return s.serialize_u32(i as u32),
                    7 if a => return s.serialize_u64(i as u64),
                    8 => {
                        if let Some(ch) = u32::try_from(i).ok().and_then(char::from_u32) {
                            return s.serialize_char(ch);
                        }
                    }
                    _ => {}
                }
            }
            return if a { s.serialize_u64(i as u64) } else { s.serialize_i64(i as i64) };
        }
        match self.m {
            M::U(_) | M::N(_) | M::Tag(..) => unreachable!(),
            M::B(b) => {
                if b.len() <= 16 && b.first() != Some(&0) && r.below(2) == 0 {
                    return s.serialize_u128(b.iter().fold(0, |a, x| a << 8 | *x as u128));
                }
                s.serialize_bytes(b)
            }
            M::T(x) => match r.below(3) {
                0 => s.serialize_unit_variant("E", r.next() as u32, name(x)),
                1 => s.collect_str(x),
                _ => s.serialize_str(x),
            },
            M::S(20) => s.serialize_bool(false),
            M::S(21) => s.serialize_bool(true),
            M::S(_) => match r.below(3) {
                0 => s.serialize_none(),
                1 => s.serialize_unit(),
                _ => s.serialize_unit_struct("U"),
            },
            M::A(v) => {
                let it = || v.iter().enumerate().map(|(k, x)| self.sub(x, k));
                match r.below(6) {
                    0 if v.len() == 1 => s.serialize_newtype_struct("N", &self.sub(&v[0], 0)),
                    1 => {
                        let mut q = s.serialize_tuple(v.len())?;
                        for x in it() {
                            q.serialize_element(&x)?;
                        }
                        q.end()
                    }
                    2 => {
                        let mut q = s.serialize_tuple_struct("T", v.len())?;
                        for x in it() {
                            q.serialize_field(&x)?;
                        }
                        q.end()
                    }
                    3 => s.collect_seq(it()),
                    k => {
                        // The length is only a hint.
                        let mut q = s.serialize_seq(match k {
                            4 => None,
                            _ if r.below(4) == 0 => Some(r.below(5) as usize),
                            _ => Some(v.len()),
                        })?;
                        for x in it() {
                            q.serialize_element(&x)?;
                        }
                        q.end()
                    }
                }
            }
            M::Map(v) => {
                let k = r.below(5);
                if let [(M::T(n), x)] = &v[..] {
                    match (k, x) {
                        (0, M::A(a)) => {
                            let mut q = s.serialize_tuple_variant("E", r.next() as u32, name(n), a.len())?;
                            for (k, x) in a.iter().enumerate() {
                                q.serialize_field(&self.sub(x, k))?;
                            }
                            return q.end();
                        }
                        (0, M::Map(a)) if a.iter().all(|e| matches!(e.0, M::T(_))) => {
                            let mut q = s.serialize_struct_variant("E", r.next() as u32, name(n), a.len())?;
                            for (k, (f, x)) in a.iter().enumerate() {
                                let M::T(f) = f else { unreachable!() };
                                if r.below(5) == 0 {
                                    q.skip_field("skipped")?;
                                }
                                q.serialize_field(name(f), &self.sub(x, k))?;
                            }
                            return q.end();
                        }
                        (0 | 1, x) => return s.serialize_newtype_variant("E", r.next() as u32, name(n), &self.sub(x, 0)),
                        _ => {}
                    }
                }
                if k < 3 && v.iter().all(|e| matches!(e.0, M::T(_))) {
                    let mut q = s.serialize_struct("S", v.len())?;
                    for (k, (f, x)) in v.iter().enumerate() {
                        let M::T(f) = f else { unreachable!() };
                        if r.below(5) == 0 {
                            q.skip_field("skipped")?;
                        }
                        q.serialize_field(name(f), &self.sub(x, k))?;
                    }
                    return q.end();
                }
                let mut q = s.serialize_map(if k == 3 { None } else { Some(v.len()) })?;
                for (n, (a, b)) in v.iter().enumerate() {
                    if r.below(2) == 0 {
                        q.serialize_entry(&self.sub(a, 2 * n), &self.sub(b, 2 * n + 1))?;
                    } else {
                        q.serialize_key(&self.sub(a, 2 * n))?;
                        q.serialize_value(&self.sub(b, 2 * n + 1))?;
                    }
                }
                q.end()
            }
        }
    }
}
fn script(t: &mut Tape, c: &mut Ctx) -> R {
    let m = gen::tree(t);
    let m = if t.chance(1, 6) { m } else { gen::dedup(&m) };
    fn strip(m: &M) -> M {
        match m {
            M::Tag(_, x) => strip(x),
            M::S(23) => NULL,
            M::N(n) => M::N(*n & i64::MAX as u64),
            M::A(v) => M::A(v.iter().map(strip).collect()),
            M::Map(v) => M::Map(v.iter().map(|(k, x)| (strip(k), strip(x))).collect()),
            o => o.clone(),
        }
    }
    let m = strip(&m);
    debug_assert!(expressible(&m));
    let seed = t.int();
    let sc = Script::new(&m, seed);
    let v = lib("serde::to_value", || s::to_value(&sc))?;
    let got = v.as_ref().ok().and_then(from_value);
    check!(got.as_ref() == Some(&m), "serialising {} (methods {}) gives the in-memory value {}", showm(&m), seed, showv(&v));
    let b = lib("serde::to_vec", || s::to_vec(&sc))?;
    match canonical(&m) {
        Ok(k) if k.depth() <= 127 => {
            check!(b.as_ref().ok() == Some(&raw(&k)), "serialising {} (methods {}) gives {:?}", showm(&m), seed, b);
            c.class("serialised");
        }
        Ok(_) => {
            check!(b.is_err(), "serialising {}, which is too deep, gives {:?}", showm(&m), b);
            c.class("too deep");
        }
        Err(_) => {
            check!(b.is_err(), "serialising {}, which repeats a key, gives {:?}", showm(&m), b);
            c.class("repeated key");
        }
    }
    // An element that cannot be serialised fails the whole.
    let n = sc.at.get() / 2;
    if n > 0 && t.chance(1, 3) {
        let p = t.below(n);
        let bad = || Script { m: &m, seed, poison: Some(p), at: Default::default() };
        let r = lib("serde::to_value", || s::to_value(&bad()))?;
        check!(r.is_err(), "serialising {} with a float at place {} gives {:?}", showm(&m), p, r);
        let r = lib("serde::to_vec", || s::to_vec(&bad()))?;
        check!(r.is_err(), "serialising {} with a float at place {} gives {:?}", showm(&m), p, r);
    }
    if m.count() > 1 {
        c.nontrivial(engine::rng::mix(seed) ^ engine::rng::hash_bytes(&raw(&m)));
        c.sample(|| showm(&m));
    }
    Ok(())
}
/// Requests the format cannot meet fail.
fn unsupported(t: &mut Tape, c: &mut Ctx) -> R {
    let i = t.sint(i128::MIN / 2, i128::MAX / 2);
    struct W(i128);
    impl Serialize for W {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_i128(self.0)
        }
    }
    let r = lib("serde::to_value", || s::to_value(&W(i)))?;
    if let Ok(v) = &r {
        check!(from_value(v).and_then(|m| m.as_int()) == Some(i), "serialising {} as i128 gives {:?}", i, r);
    }
    let b = t.bytes(40);
    let r = lib("serde::to_vec", || s::to_vec(&Bytes(&b)))?;
    check!(r.as_ref().ok() == Some(&raw(&M::B(b.clone()))), "bytes {:?} serialise to {:?}", b, r);
    let back: Vec<u8> = match lib("serde::from_slice", || s::from_slice::<serde_bytes::ByteBuf>(&raw(&M::B(b.clone()))))? {
        Ok(x) => x.into_vec(),
        Err(e) => return Err(engine::Fail::new(format!("byte buffer of {:?} does not come back: {:?}", b, e))),
    };
    check!(back == b, "byte buffer {:?} comes back as {:?}", b, back);
    c.class("wide integers and buffers");
    c.nontrivial(engine::rng::mix(i as u64) ^ engine::rng::hash_bytes(&b));
    c.sample(|| format!("{}, {:?}", i, b));
    Ok(())
}

pub fn c15() -> Vec<Sub> {
    vec![sub("script", script, 40_000, 20_000), sub("unsupported", unsupported, 5_000, 0)]
}
pub fn c17() -> Vec<Sub> {
    vec![sub("see", see, 40_000, 30_000)]
}
