//! Round trips (C09, C10) and independence of construction history (C14).
use crate::util::*;
use engine::{check, lib, sub, Ctx, Sub, Tape, R};
use oasis_cbor::{Encode, Value};
use refmodel::ty::*;
use refmodel::value::from_value;
use refmodel::wire::{canonical, raw, M};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use zoo::Info;

fn trip(t: &mut Tape, c: &mut Ctx, i: &'static Info) -> R {
    let v = gen_top(t, (i.ty)());
    let Some(e) = round_trip(i, &v)? else {
        c.discard();
        return Ok(());
    };
    c.class(if i.lossless { "must come back unchanged" } else { "as the declaration allows" });
    if e.want.count() > 1 {
        c.nontrivial(id(i, &e.bytes));
        c.sample(|| format!("{}: {} <-> {}", i.name, showv(&v), show(&e.bytes)));
    }
    Ok(())
}
fn builtin_trip(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, builtin());
    trip(t, c, i)
}
fn derived_trip(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, derived());
    trip(t, c, i)
}
/// Types declared in odd places or with odd names.
fn odd_trip(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, odd());
    for k in i.odd {
        c.class(k);
    }
    trip(t, c, i)
}
/// Every element of a large collection survives.
fn large(t: &mut Tape, c: &mut Ctx) -> R {
    let n = *t.pick(&[23usize, 24, 255, 256, 300, 65535, 65536, 1000]);
    let seed = t.int() as usize;
    let k = |i: usize| (i.wrapping_mul(2654435761) ^ seed) as u32;
    macro_rules! same {
        ($what:expr, $x:expr, $m:expr, $t:ty) => {{
            let x: $t = $x;
            let want = raw(&canonical(&$m).expect("distinct"));
            let y = x.clone();
            let b = lib("to_vec", || oasis_cbor::to_vec(y))?;
            check!(b == want, "{} of {} elements encodes to {} bytes {}, not {}", $what, n, b.len(), show(&b), show(&want));
            let r: Result<$t, _> = lib("from_slice", || oasis_cbor::from_slice(&b))?;
            check!(r.as_ref().ok() == Some(&x), "{} of {} elements does not come back", $what, n);
        }};
    }
    match t.below(10) {
        6 => {
            let s: HashSet<u32> = (0..n).map(k).collect();
            let mut m: Vec<M> = s.iter().map(|x| M::U(*x as u64)).collect();
            m.sort_by(refmodel::wire::canon_cmp);
            same!("HashSet<u32>", s, M::A(m), HashSet<u32>)
        }
        7 => same!("String", (0..n).map(|i| char::from(b'a' + (k(i) % 26) as u8)).collect(), M::T((0..n).map(|i| char::from(b'a' + (k(i) % 26) as u8)).collect()), String),
        8 => same!("Vec<Option<String>>", (0..n).map(|i| (k(i) % 3 > 0).then(|| k(i).to_string())).collect(), M::A((0..n).map(|i| if k(i) % 3 > 0 { M::T(k(i).to_string()) } else { refmodel::wire::NULL }).collect()), Vec<Option<String>>),
        9 => same!("BTreeMap<Vec<u8>, Vec<u8>>", (0..n).map(|i| (k(i).to_string().into_bytes(), vec![i as u8])).collect(), M::Map((0..n).map(|i| (M::B(k(i).to_string().into_bytes()), M::B(vec![i as u8]))).collect()), BTreeMap<Vec<u8>, Vec<u8>>),
        0 => same!("Vec<u32>", (0..n).map(k).collect(), M::A((0..n).map(|i| M::U(k(i) as u64)).collect()), Vec<u32>),
        1 => same!("Vec<u8>", (0..n).map(|i| k(i) as u8).collect(), M::B((0..n).map(|i| k(i) as u8).collect()), Vec<u8>),
        2 => same!("BTreeMap<u32, i32>", (0..n).map(|i| (k(i), i as i32)).collect(), M::Map((0..n).map(|i| (M::U(k(i) as u64), M::U(i as u64))).collect()), BTreeMap<u32, i32>),
        3 => same!("HashMap<String, u64>", (0..n).map(|i| (k(i).to_string(), i as u64)).collect(), M::Map((0..n).map(|i| (M::T(k(i).to_string()), M::U(i as u64))).collect()), HashMap<String, u64>),
        4 => same!("HashMap<(u8, u32), bool>", (0..n).map(|i| ((i as u8, k(i)), i & 1 == 1)).collect(), M::Map((0..n).map(|i| (M::A(vec![M::U(i as u8 as u64), M::U(k(i) as u64)]), M::S(20 + (i & 1) as u8))).collect()), HashMap<(u8, u32), bool>),
        _ => {
            let s: BTreeSet<u32> = (0..n).map(k).collect();
            let m = M::A(s.iter().map(|x| M::U(*x as u64)).collect());
            same!("BTreeSet<u32>", s, m, BTreeSet<u32>)
        }
    }
    c.class("large collection");
    c.nontrivial(engine::rng::mix(n as u64) ^ engine::rng::mix(seed as u64));
    c.sample(|| format!("{} elements", n));
    Ok(())
}

#[derive(oasis_cbor::Encode)]
struct Lent<'a> {
    s: &'a str,
    #[cbor(optional)]
    n: &'a u64,
    #[cbor(optional, rename = 3)]
    t: &'a str,
    #[cbor(optional)]
    big: &'a u128,
    list: Vec<&'a str>,
}
#[derive(oasis_cbor::Encode)]
enum LentEnum<'a> {
    Nothing,
    One(&'a str),
    Two(&'a i16, &'a str),
    Named {
        #[cbor(optional)]
        k: &'a i64,
    },
}
/// Borrowed scalars and text are written as what they borrow, wherever they stand.
pub fn borrowed(t: &mut Tape, c: &mut Ctx) -> R {
    fn one<T: Encode>(what: &str, m: &M, empty: bool, mut make: impl FnMut() -> T) -> R {
        let want = raw(&canonical(m).expect("distinct"));
        let x = make();
        let e = lib("is_empty", || x.is_empty())?;
        check!(e == empty, "is_empty of the borrowed {} {} is {}", what, showm(m), e);
        let b = lib("to_vec", || oasis_cbor::to_vec(x))?;
        check!(b == want, "the borrowed {} {} encodes to {}, not {}", what, showm(m), show(&b), show(&want));
        let x = make();
        let v = lib("to_value", || oasis_cbor::to_value(x))?;
        let g = from_value(&v).and_then(|m| canonical(&m).ok());
        check!(g == canonical(m).ok(), "the borrowed {} {} converts to {:?}", what, showm(m), v);
        let x = make();
        let o = lib("into_optional_cbor_value", || x.into_optional_cbor_value())?;
        check!(o.is_none() == empty, "the borrowed {} {} as an optional field is {:?}", what, showm(m), o);
        Ok(())
    }
    let zero = t.chance(1, 4);
    macro_rules! ints {
        ($($n:ident: $t:ty;)*) => { $(
            let $n: $t = if zero { 0 } else { t.sint(<$t>::MIN as i128, <$t>::MAX as i128) as $t };
            one(stringify!($t), &M::int($n as i128), $n == 0, || &$n)?;
        )* };
    }
    ints! { a: u8; b: u16; d: u32; e: u64; f: i8; g: i16; h: i32; i: i64; }
    let k = t.below(5);
    let u: u128 = if zero { 0 } else if k == 0 { e as u128 } else { (e as u128) << (16 * k) | d as u128 };
    let um = enc(Ty::U128, &MV::U128(u), Mode::Core);
    one("u128", &um, u == 0, || &u)?;
    let s = t.string(if zero { 1 } else { 40 });
    let r = t.string(8);
    one("str", &M::t(&s), s.is_empty(), || s.as_str())?;
    one("Option<&str>", &M::t(&s), false, || Some(s.as_str()))?;
    one("Vec<&str>", &M::A(vec![M::t(&s), M::t(&r)]), false, || vec![s.as_str(), r.as_str()])?;
    one("[&str; 2]", &M::A(vec![M::t(&r), M::t(&s)]), false, || [r.as_str(), s.as_str()])?;
    one("[&u8; 2]", &M::A(vec![M::U(a as u64), M::U(a as u64)]), false, || [&a, &a])?;
    one("Vec<&u8>", &M::A(vec![M::U(a as u64)]), false, || vec![&a])?;
    let m = M::A(vec![M::t(&s), M::int(i as i128), um.clone()]);
    one("(&str, &i64, &u128)", &m, s.is_empty() && i == 0 && u == 0, || (s.as_str(), &i, &u))?;
    let mut entries = vec![(M::t(&s), M::int(h as i128))];
    if s != r {
        entries.push((M::t(&r), M::int(h as i128)));
    }
    let m = M::Map(entries);
    one("BTreeMap<&str, &i32>", &m, false, || BTreeMap::from([(s.as_str(), &h), (r.as_str(), &h)]))?;
    one("HashMap<&str, &i32>", &m, false, || HashMap::from([(s.as_str(), &h), (r.as_str(), &h)]))?;
    let mut l = vec![M::t(&s), M::t(&r)];
    l.sort_by(refmodel::wire::canon_cmp);
    l.dedup();
    one("HashSet<&str>", &M::A(l), false, || HashSet::from([s.as_str(), r.as_str()]))?;
    let mut m = vec![(M::t("s"), M::t(&s)), (M::t("list"), M::A(vec![M::t(&r)]))];
    if e != 0 {
        m.push((M::t("n"), M::U(e)));
    }
    if !r.is_empty() {
        m.push((M::U(3), M::t(&r)));
    }
    if u != 0 {
        m.push((M::t("big"), um.clone()));
    }
    one("struct", &M::Map(m), false, || Lent { s: &s, n: &e, t: &r, big: &u, list: vec![&r] })?;
    one("unit variant", &M::t("Nothing"), false, || LentEnum::Nothing)?;
    one("newtype variant", &M::Map(vec![(M::t("One"), M::t(&s))]), false, || LentEnum::One(&s))?;
    one("tuple variant", &M::Map(vec![(M::t("Two"), M::A(vec![M::int(g as i128), M::t(&s)]))]), false, || LentEnum::Two(&g, &s))?;
    let inner = if i == 0 { vec![] } else { vec![(M::t("k"), M::int(i as i128))] };
    one("struct variant", &M::Map(vec![(M::t("Named"), M::Map(inner))]), false, || LentEnum::Named { k: &i })?;
    c.class("borrowed");
    c.nontrivial(engine::rng::hash_bytes(format!("{} {} {} {} {} {}", a, e, i, u, s, r).as_bytes()));
    c.sample(|| format!("{} {} {} {} {:?} {:?}", a, e, i, u, s, r));
    Ok(())
}

fn entries(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, as_maps());
    let v = gen_top(t, (i.ty)());
    let Some(want) = wire_of(i, &v) else {
        c.discard();
        return Ok(());
    };
    let (value, items) = (i.as_map.expect("as map"))(&v)?;
    let m = from_value(&value).and_then(|m| canonical(&m).ok());
    check!(m.as_ref() == Some(&want), "{}: as a map {} is {:?}; it must be {}", named(i), showv(&v), value, showm(&want));
    let m = from_value(&Value::Map(items.clone())).and_then(|m| canonical(&m).ok());
    check!(m.as_ref() == Some(&want), "{}: the entries of {} are {:?}; they must be {}", named(i), showv(&v), items, showm(&want));
    c.class("as map");
    if want.count() > 1 {
        c.nontrivial(id(i, &raw(&want)));
        c.sample(|| format!("{}: {}", i.name, showm(&want)));
    }
    Ok(())
}

fn history(t: &mut Tape, c: &mut Ctx) -> R {
    let i = if t.chance(1, 4) { pick(t, all()) } else { pick(t, hashed()) };
    let v = gen_top(t, (i.ty)());
    let Some(want) = wire_of(i, &v) else {
        c.discard();
        return Ok(());
    };
    let b = raw(&want);
    let one = (i.to_vec)(&v)?;
    for _ in 0..3 {
        let h = t.int();
        let (again, value) = with_history(h, || ((i.to_vec)(&v), (i.to_value)(&v)));
        let again = again?;
        check!(again == one, "{}: two equal values {} encode to {} and {}", named(i), showv(&v), show(&one), show(&again));
        let value = value?;
        let mut out = Vec::new();
        let r = lib("writer::write", || oasis_cbor::writer::write(value, &mut out))?;
        check!(r.is_ok() && out == one, "{}: two equal values {} encode to {} and, through the in-memory value, {} ({:?})", named(i), showv(&v), show(&one), show(&out), r);
    }
    check!(one == b, "{}: {} encodes to {}, canonical is {}", named(i), showv(&v), show(&one), show(&b));
    c.class("built four times");
    if want.any(&|m| matches!(m, M::Map(v) if v.len() > 1) || matches!(m, M::A(v) if v.len() > 1)) {
        c.nontrivial(id(i, &b));
        c.sample(|| format!("{}: {} always {}", i.name, showv(&v), show(&b)));
    }
    Ok(())
}

/// A sequence of operations on a hashed and an ordered map and set; the two must encode alike at the end.
fn operations(t: &mut Tape, c: &mut Ctx) -> R {
    fn go<K: Clone + Ord + std::hash::Hash + Eq + Encode + std::fmt::Debug>(t: &mut Tape, c: &mut Ctx, mut key: impl FnMut(&mut Tape) -> K) -> R {
        let mut a: HashMap<K, u16> = HashMap::new();
        let mut b: BTreeMap<K, u16> = BTreeMap::new();
        let mut s: HashSet<K> = HashSet::new();
        let n = t.below(40);
        let mut known: Vec<K> = Vec::new();
        let mut removed = 0;
        for _ in 0..n {
            let k = if !known.is_empty() && t.chance(1, 3) { t.pick(&known).clone() } else { key(t) };
            match t.below(6) {
                0..=2 => {
                    let x = t.int() as u16;
                    a.insert(k.clone(), x);
                    b.insert(k.clone(), x);
                    s.insert(k.clone());
                    known.push(k);
                }
                3 => {
                    a.remove(&k);
                    b.remove(&k);
                    s.remove(&k);
                    removed += 1;
                }
                4 => {
                    a.shrink_to_fit();
                    s.reserve(t.below(100) as usize);
                }
                _ => {
                    *a.entry(k.clone()).or_insert(1) ^= 1;
                    *b.entry(k.clone()).or_insert(1) ^= 1;
                    s.insert(k);
                }
            }
        }
        let fresh: HashMap<K, u16> = b.iter().rev().map(|(k, x)| (k.clone(), *x)).collect();
        let fs: HashSet<K> = b.keys().rev().cloned().collect();
        let len = a.len();
        check!(fresh == a && fs == s, "harness: contents differ");
        let (x, y, z) = (a.clone(), b.clone(), fresh);
        let (ba, bb, bf) = (
            lib("to_vec", || oasis_cbor::to_vec(x))?,
            lib("to_vec", || oasis_cbor::to_vec(y))?,
            lib("to_vec", || oasis_cbor::to_vec(z))?,
        );
        check!(ba == bf, "equal hash maps {:?} encode to {} and {}", b, show(&ba), show(&bf));
        check!(ba == bb, "hash map {:?} encodes to {}, the same ordered map to {}", b, show(&ba), show(&bb));
        let (x, y) = (s, fs);
        let (bs, bt) = (lib("to_vec", || oasis_cbor::to_vec(x))?, lib("to_vec", || oasis_cbor::to_vec(y))?);
        check!(bs == bt, "equal hash sets of {:?} encode to {} and {}", b.keys(), show(&bs), show(&bt));
        c.class(if removed > 0 { "with removals" } else { "insertions only" });
        if len > 1 {
            c.nontrivial_bytes(&ba);
            c.sample(|| format!("{:?}", b));
        }
        Ok(())
    }
    match t.below(6) {
        0 => go::<u64>(t, c, |t| t.int()),
        1 => go::<String>(t, c, |t| t.string(24)),
        2 => go::<i32>(t, c, |t| t.sint(i32::MIN as i128, i32::MAX as i128) as i32),
        3 => go::<Vec<u8>>(t, c, |t| t.bytes(24)),
        4 => go::<(i8, String)>(t, c, |t| (t.sint(-128, 127) as i8, t.string(4))),
        _ => go::<Option<BTreeMap<u8, i8>>>(t, c, |t| {
            t.chance(4, 5).then(|| (0..t.below(4)).map(|_| (t.int() as u8, t.int() as i8)).collect())
        }),
    }
}

pub fn c09() -> Vec<Sub> {
    vec![sub("builtin", builtin_trip, 60_000, 40_000), sub("large", large, 300, 0), sub("borrowed", borrowed, 6_000, 0)]
}
pub fn c10() -> Vec<Sub> {
    vec![sub("derived", derived_trip, 60_000, 40_000), sub("entries", entries, 20_000, 10_000)]
}
pub fn c20() -> Vec<Sub> {
    vec![sub("surroundings", odd_trip, 50_000, 30_000), sub("mutants", crate::shape::odd_mutants, 40_000, 30_000)]
}
pub fn c14() -> Vec<Sub> {
    vec![sub("history", history, 40_000, 0), sub("operations", operations, 60_000, 0)]
}
