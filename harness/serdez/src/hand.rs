//! Standard-library types and serde attributes outside the generated grammar (C15).
use crate::util::{show, showm, showv};
use engine::{check, lib, sub, Ctx, Sub, Tape, R};
use oasis_cbor::serde as s;
use refmodel::value::from_value;
use refmodel::wire::{canonical, raw, M, NULL};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, LinkedList, VecDeque};
use std::fmt::Debug;

fn same<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Ctx, what: &str, x: &T, m: M) -> R {
    let k = canonical(&m).expect("distinct");
    let want = raw(&k);
    let b = lib("serde::to_vec", || s::to_vec(x))?;
    check!(b.as_ref().ok() == Some(&want), "{}: {:?} serialises to {:?}; its canonical form is {} = {}", what, x, b, show(&want), showm(&m));
    let v = lib("serde::to_value", || s::to_value(x))?;
    let got = v.as_ref().ok().and_then(from_value).and_then(|m| canonical(&m).ok());
    check!(got.as_ref() == Some(&k), "{}: {:?} becomes the in-memory value {}; it must be {}", what, x, showv(&v), showm(&m));
    let r = lib("serde::from_slice", || s::from_slice::<T>(&want))?;
    check!(r.as_ref().ok() == Some(x), "{}: {:?} encodes to {}, which decodes to {:?}", what, x, show(&want), r);
    let r = lib("serde::from_value", || s::from_value::<T>(v.expect("value")))?;
    check!(r.as_ref().ok() == Some(x), "{}: {:?} comes back from its in-memory value as {:?}", what, x, r);
    c.class(what);
    c.nontrivial(engine::rng::hash_bytes(&want) ^ engine::rng::hash_bytes(what.as_bytes()));
    c.sample(|| format!("{}: {:?} <-> {}", what, x, show(&want)));
    Ok(())
}
fn std_types(t: &mut Tape, c: &mut Ctx) -> R {
    let n = t.int();
    let w = t.string(12);
    let i = t.sint(i64::MIN as i128, i64::MAX as i128) as i64;
    let txt = |s: &str| M::t(s);
    match t.below(17) {
        0 => {
            let ns = t.below(1_000_000_000) as u32;
            same(c, "Duration", &std::time::Duration::new(n, ns), M::Map(vec![(txt("secs"), M::U(n)), (txt("nanos"), M::U(ns as u64))]))
        }
        1 => same(c, "Range", &(i..i.wrapping_add(9)), M::Map(vec![(txt("start"), M::int(i as i128)), (txt("end"), M::int(i.wrapping_add(9) as i128))])),
        2 => {
            let x: Result<u64, String> = if n & 1 == 0 { Ok(n) } else { Err(w.clone()) };
            let m = match &x {
                Ok(n) => M::Map(vec![(txt("Ok"), M::U(*n))]),
                Err(e) => M::Map(vec![(txt("Err"), txt(e))]),
            };
            same(c, "Result", &x, m)
        }
        3 => {
            use std::ops::Bound;
            let (x, m) = match n % 3 {
                0 => (Bound::Unbounded, txt("Unbounded")),
                1 => (Bound::Included(w.clone()), M::Map(vec![(txt("Included"), txt(&w))])),
                _ => (Bound::Excluded(w.clone()), M::Map(vec![(txt("Excluded"), txt(&w))])),
            };
            same(c, "Bound", &x, m)
        }
        4 => same(c, "Cow", &Cow::<str>::Owned(w.clone()), txt(&w)),
        5 => same(c, "VecDeque", &(0..n % 5).collect::<VecDeque<u64>>(), M::A((0..n % 5).map(M::U).collect())),
        6 => same(c, "LinkedList", &(0..n % 5).map(|x| -(x as i8)).collect::<LinkedList<i8>>(), M::A((0..n % 5).map(|x| M::int(-(x as i128))).collect())),
        7 => same(c, "Reverse", &std::cmp::Reverse(i), M::int(i as i128)),
        8 => same(c, "PhantomData", &(std::marker::PhantomData::<u8>, n), M::A(vec![NULL, M::U(n)])),
        9 => {
            let a = std::net::Ipv4Addr::from(n as u32);
            same(c, "Ipv4Addr", &a, M::T(a.to_string()))
        }
        10 => same(c, "Box<str>", &w.clone().into_boxed_str(), txt(&w)),
        11 => same(c, "Box<[T]>", &vec![i, 1].into_boxed_slice(), M::A(vec![M::int(i as i128), M::U(1)])),
        12 => same(c, "i128 in range is read", &(n as u128 as u64), M::U(n)),
        13 => same(c, "nested options", &vec![Some(Some(n)), None], M::A(vec![M::U(n), NULL])),
        14 => same(c, "12-tuple", &(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, i, w.clone()), M::A((1..=10).map(M::U).chain([M::int(i as i128), txt(&w)]).collect())),
        15 => same(c, "NonZero", &std::num::NonZeroU64::new(n | 1).expect("odd"), M::U(n | 1)),
        _ => same(c, "RangeInclusive", &(n.min(9)..=n), M::Map(vec![(txt("start"), M::U(n.min(9))), (txt("end"), M::U(n))])),
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "t")]
enum Internal {
    Unit,
    Fields { a: u8, b: Vec<i32>, c: Option<bool> },
    #[serde(rename = "new")]
    New(Inner),
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Inner {
    x: i64,
    y: BTreeMap<String, u16>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    Unit,
    New(u64),
    Tuple(u8, String),
    Fields { a: Option<i8> },
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(untagged)]
enum Loose {
    Number(i64),
    Text(String),
    List(Vec<u16>),
    Rec { id: u64, inner: Inner },
    Pair(bool, i8),
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct Flat {
    id: u64,
    #[serde(flatten)]
    inner: Inner,
    #[serde(flatten)]
    rest: BTreeMap<String, bool>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(rename_all = "camelCase")]
struct Renamed {
    first_name: String,
    #[serde(alias = "other")]
    second_name: u8,
    #[serde(with = "serde_bytes")]
    raw_bytes: Vec<u8>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug)]
#[serde(into = "String", try_from = "String")]
struct Hex(u32);
impl From<Hex> for String {
    fn from(x: Hex) -> String {
        format!("{:x}", x.0)
    }
}
impl Clone for Hex {
    fn clone(&self) -> Self {
        Hex(self.0)
    }
}
impl TryFrom<String> for Hex {
    type Error = std::num::ParseIntError;
    fn try_from(s: String) -> Result<Self, Self::Error> {
        u32::from_str_radix(&s, 16).map(Hex)
    }
}
fn attributes(t: &mut Tape, c: &mut Ctx) -> R {
    let n = t.int();
    let w = t.string(10);
    let i = t.sint(i64::MIN as i128, i64::MAX as i128) as i64;
    let txt = |s: &str| M::t(s);
    let ys: BTreeMap<String, u16> = (0..t.below(4)).map(|_| (t.string(6), t.int() as u16)).collect();
    let inner = Inner { x: i, y: ys.clone() };
    let my = M::Map(ys.iter().map(|(k, v)| (txt(k), M::U(*v as u64))).collect());
    let minner = M::Map(vec![(txt("x"), M::int(i as i128)), (txt("y"), my.clone())]);
    match t.below(14) {
        0 => same(c, "internally tagged, unit", &Internal::Unit, M::Map(vec![(txt("t"), txt("Unit"))])),
        1 => {
            let b: Vec<i32> = (0..t.below(4)).map(|_| t.sint(i32::MIN as i128, i32::MAX as i128) as i32).collect();
            let o = *t.pick(&[None, Some(true), Some(false)]);
            let m = M::Map(vec![
                (txt("t"), txt("Fields")),
                (txt("a"), M::U(n as u8 as u64)),
                (txt("b"), M::A(b.iter().map(|x| M::int(*x as i128)).collect())),
                (txt("c"), o.map_or(NULL, |x| M::S(20 + x as u8))),
            ]);
            same(c, "internally tagged, fields", &Internal::Fields { a: n as u8, b, c: o }, m)
        }
        2 => {
            let m = M::Map(vec![(txt("t"), txt("new")), (txt("x"), M::int(i as i128)), (txt("y"), my)]);
            same(c, "internally tagged, newtype", &Internal::New(inner), m)
        }
        3 => same(c, "adjacently tagged, unit", &Adjacent::Unit, M::Map(vec![(txt("t"), txt("Unit"))])),
        4 => same(c, "adjacently tagged, newtype", &Adjacent::New(n), M::Map(vec![(txt("t"), txt("New")), (txt("c"), M::U(n))])),
        5 => same(c, "adjacently tagged, tuple", &Adjacent::Tuple(n as u8, w.clone()), M::Map(vec![(txt("t"), txt("Tuple")), (txt("c"), M::A(vec![M::U(n as u8 as u64), txt(&w)]))])),
        6 => {
            let o = if n & 1 == 0 { None } else { Some(i as i8) };
            let m = M::Map(vec![(txt("t"), txt("Fields")), (txt("c"), M::Map(vec![(txt("a"), o.map_or(NULL, |x| M::int(x as i128)))]))]);
            same(c, "adjacently tagged, fields", &Adjacent::Fields { a: o }, m)
        }
        7 => same(c, "untagged, number", &Loose::Number(i), M::int(i as i128)),
        8 => same(c, "untagged, text", &Loose::Text(w.clone()), txt(&w)),
        9 => {
            let v: Vec<u16> = (0..t.below(5)).map(|_| t.int() as u16).collect();
            same(c, "untagged, list", &Loose::List(v.clone()), M::A(v.iter().map(|x| M::U(*x as u64)).collect()))
        }
        10 => same(c, "untagged, record", &Loose::Rec { id: n, inner }, M::Map(vec![(txt("id"), M::U(n)), (txt("inner"), minner)])),
        11 => {
            let rest: BTreeMap<String, bool> = (0..t.below(4)).map(|k| (format!("r{}{}", k, w), k & 1 == 0)).collect();
            let mut m = vec![(txt("id"), M::U(n)), (txt("x"), M::int(i as i128)), (txt("y"), my)];
            m.extend(rest.iter().map(|(k, v)| (txt(k), M::S(20 + *v as u8))));
            same(c, "flattened", &Flat { id: n, inner, rest }, M::Map(m))
        }
        12 => {
            let raw = t.bytes(20);
            let m = M::Map(vec![(txt("firstName"), txt(&w)), (txt("secondName"), M::U(n as u8 as u64)), (txt("rawBytes"), M::B(raw.clone()))]);
            same(c, "renamed", &Renamed { first_name: w.clone(), second_name: n as u8, raw_bytes: raw }, m)
        }
        _ => same(c, "through String", &vec![Hex(n as u32)], M::A(vec![M::T(format!("{:x}", n as u32))])),
    }
}

/// Keys that coincide once encoded are an error, not lost data.
fn coinciding(t: &mut Tape, c: &mut Ctx) -> R {
    #[derive(PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Clone)]
    struct Ci(String);
    impl Serialize for Ci {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_str(&self.0.to_ascii_lowercase())
        }
    }
    #[derive(Serialize)]
    struct Outer<'a> {
        first: u8,
        map: &'a BTreeMap<Ci, u8>,
    }
    #[derive(Serialize)]
    enum Wrap<'a> {
        New(&'a HashMap<Ci, u8>),
        Struct { m: &'a BTreeMap<Ci, u8> },
    }
    let keys: BTreeSet<String> = (0..1 + t.below(5))
        .map(|_| {
            let a = *t.pick(&["a", "A", "b", "B", "ab", "aB", "Ab", "c"]);
            a.to_string()
        })
        .collect();
    let map: BTreeMap<Ci, u8> = keys.iter().map(|k| (Ci(k.clone()), 1)).collect();
    let hm: HashMap<Ci, u8> = map.clone().into_iter().collect();
    let lower: BTreeSet<String> = keys.iter().map(|k| k.to_ascii_lowercase()).collect();
    let clash = lower.len() != keys.len();
    let r = match t.below(5) {
        0 => lib("serde::to_vec", || s::to_vec(&map))?,
        1 => lib("serde::to_vec", || s::to_vec(&vec![Some(&hm)]))?,
        2 => lib("serde::to_vec", || s::to_vec(&Outer { first: 1, map: &map }))?,
        3 => lib("serde::to_vec", || s::to_vec(&Wrap::New(&hm)))?,
        _ => lib("serde::to_vec", || s::to_vec(&Wrap::Struct { m: &map }))?,
    };
    check!(r.is_err() == clash, "a map with keys {:?} (equal when encoded: {}) serialises to {:?}", keys, clash, r);
    c.class(if clash { "repeated key" } else { "distinct keys" });
    c.nontrivial(engine::rng::hash_bytes(format!("{:?}", keys).as_bytes()));
    c.sample(|| format!("{:?}", keys));
    Ok(())
}

pub fn c15() -> Vec<Sub> {
    vec![sub("std_types", std_types, 10_000, 0), sub("attributes", attributes, 15_000, 5_000), sub("coinciding", coinciding, 3_000, 0)]
}
