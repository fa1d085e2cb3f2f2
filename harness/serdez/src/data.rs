//! What the serde layer does with data that does not fit (C17), with hostile data (C06) and at the limit (C07).
use crate::util::*;
use engine::alloc::peak_of;
use engine::{check, lib, sub, Ctx, Sub, Tape, R};
use oasis_cbor::serde as s;
use refmodel::gen;
use refmodel::sty::SWant;
use refmodel::ty::*;
use refmodel::value::to_value;
use refmodel::wire::{canonical, raw, M, NULL};
use szoo::SInfo;

fn mutated(t: &mut Tape, i: &SInfo, ops: &[Op], max: u64) -> Option<(M, M)> {
    let v = gen_top(t, (i.ty)());
    let good = wire_of(i, &v)?;
    let mut m = good.clone();
    let vocab = vocabulary((i.ty)());
    let n = 1 + t.below(max);
    for _ in 0..n {
        let op = *t.pick(ops);
        mutate(t, &mut m, op, &vocab);
    }
    if m.depth() > 200 {
        return None;
    }
    Some((good, m))
}
fn judged(t: &mut Tape, c: &mut Ctx, i: &'static SInfo, ops: &[Op], max: u64) -> R {
    let Some((good, m)) = mutated(t, i, ops, max) else {
        c.discard();
        return Ok(());
    };
    let w = judge(i, &m)?;
    outcome(c, &w);
    if m != good {
        c.nontrivial(id(i, &raw(&m)));
        c.sample(|| format!("{} from {}: {}", i.name, showm(&m), if matches!(w, SWant::Bad) { "refused" } else { "accepted or open" }));
    }
    Ok(())
}
fn mutants(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, every());
    judged(t, c, i, ALL, 3)
}
/// Only the number of elements and the names change.
fn lengths(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, every());
    judged(t, c, i, &[Op::Surplus, Op::Shorten, Op::Rekey, Op::Remove, Op::Repeat], 1)
}
/// A tag anywhere in a value that would otherwise decode.
fn tags(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, every());
    let v = gen_top(t, (i.ty)());
    let Some(good) = wire_of(i, &v) else {
        c.discard();
        return Ok(());
    };
    let mut m = good.clone();
    let n = count_nodes(&m, &|_| true);
    let mut k = t.below(n as u64) as usize;
    let x = node(&mut m, &|_| true, &mut k).expect("node");
    let y = x.clone();
    *x = M::Tag(t.int(), Box::new(y));
    let r = (i.from_value)(to_value(&m))?;
    check!(r.is_err(), "{}: serde::from_value of {} gives {}; tags are not supported", named(i), showm(&m), showv(&r));
    let b = raw(&m);
    let r = (i.from_slice)(&b)?;
    check!(r.is_err(), "{}: serde::from_slice of {} = {} gives {}; tags are not supported", named(i), show(&b), showm(&m), showv(&r));
    c.class("refused");
    c.nontrivial(id(i, &b));
    c.sample(|| format!("{}: {}", i.name, showm(&m)));
    Ok(())
}

fn edge(t: &mut Tape) -> i128 {
    let k = t.below(66);
    let base = if k == 65 { 0 } else { 1i128 << k };
    let d = t.below(7) as i128 - 3;
    let x = if t.chance(1, 2) { -(base + d) } else { base + d };
    if t.chance(1, 3) {
        return t.sint(-(1i128 << 64), (1i128 << 64) - 1);
    }
    x.clamp(-(1i128 << 64), (1i128 << 64) - 1)
}
/// The same integer in every place of every integer type.
fn integers(t: &mut Tape, c: &mut Ctx) -> R {
    use serde::{Deserialize, Serialize};
    use std::collections::{BTreeMap, BTreeSet};
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct New<T>(T);
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    struct Named<T> {
        n: T,
        o: Option<T>,
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug)]
    enum E<T> {
        A(T),
        B { x: T },
        C(T, T),
    }
    let x = edge(t);
    let m = M::int(x);
    let place = t.below(10);
    let text = |s: &str| M::t(s);
    let item = match place {
        0 => m.clone(),
        1 => M::A(vec![m.clone()]),
        2 => M::Map(vec![(text("n"), m.clone()), (text("o"), m.clone())]),
        3 => M::Map(vec![(text("A"), m.clone())]),
        4 => M::Map(vec![(text("B"), M::Map(vec![(text("x"), m.clone())]))]),
        5 => M::Map(vec![(text("C"), M::A(vec![m.clone(), m.clone()]))]),
        6 => M::Map(vec![(m.clone(), m.clone())]),
        7 => M::A(vec![m.clone(), M::U(0), m.clone()]),
        8 => M::A(vec![m.clone()]),
        _ => M::A(vec![m.clone()]),
    };
    let b = raw(&item);
    macro_rules! ints {
        ($($t:ty)*) => { $( {
            type N = $t;
            let fit = N::try_from(x).ok();
            macro_rules! at {
                ($ty:ty, $f:expr) => {{
                    let want: Option<$ty> = fit.map($f);
                    let got: Option<$ty> = lib("serde::from_slice", || s::from_slice::<$ty>(&b))?.ok();
                    check!(got == want, "serde::from_slice::<{}> of {} (the integer {}) gives {:?}, not {:?}", stringify!($ty).replace("N", stringify!($t)), show(&b), x, got, want);
                    let got: Option<$ty> = lib("serde::from_value", || s::from_value::<$ty>(to_value(&item)))?.ok();
                    check!(got == want, "serde::from_value::<{}> of {} (the integer {}) gives {:?}, not {:?}", stringify!($ty).replace("N", stringify!($t)), showm(&item), x, got, want);
                    if let (Some(w), true) = (&want, i64::try_from(x).is_ok() || u64::try_from(x).is_ok()) {
                        if std::mem::size_of::<N>() <= 8 {
                            let back = lib("serde::to_vec", || s::to_vec(w))?;
                            check!(back.as_ref().ok() == Some(&b), "serde::to_vec of {:?} as {} gives {:?}, not {}", w, stringify!($ty), back, show(&b));
                        }
                    }
                }};
            }
            match place {
                0 => { at!(N, |n| n); at!(Option<N>, Some); at!(std::num::Wrapping<N>, std::num::Wrapping); at!(Box<N>, Box::new); }
                1 => { at!(New<N>, New); at!((N,), |n| (n,)); at!([N; 1], |n| [n]); }
                2 => at!(Named<N>, |n| Named { n, o: Some(n) }),
                3 => at!(E<N>, E::A),
                4 => at!(E<N>, |x| E::B { x }),
                5 => at!(E<N>, |x| E::C(x, x)),
                6 => at!(BTreeMap<N, N>, |n| [(n, n)].into_iter().collect()),
                7 => at!((N, u8, N), |n| (n, 0, n)),
                8 => at!(Vec<N>, |n| vec![n]),
                _ => at!(BTreeSet<N>, |n| [n].into_iter().collect()),
            }
        } )* };
    }
    ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize i128);
    // Not an integer type, though close.
    if place == 0 {
        use std::num::*;
        let want = NonZeroU32::new(x as u32).filter(|_| x > 0 && x <= u32::MAX as i128);
        let got = lib("serde::from_slice", || s::from_slice::<NonZeroU32>(&b))?.ok();
        check!(got == want, "serde::from_slice::<NonZeroU32> of {} gives {:?}, not {:?}", x, got, want);
        let want = NonZeroI64::new(x as i64).filter(|n| n.get() as i128 == x);
        let got = lib("serde::from_slice", || s::from_slice::<NonZeroI64>(&b))?.ok();
        check!(got == want, "serde::from_slice::<NonZeroI64> of {} gives {:?}, not {:?}", x, got, want);
        let want = u32::try_from(x).ok().and_then(char::from_u32);
        let got = lib("serde::from_slice", || s::from_slice::<char>(&b))?.ok();
        check!(got == want, "serde::from_slice::<char> of {} gives {:?}, not {:?}", x, got, want);
        check!(lib("serde::from_slice", || s::from_slice::<bool>(&b))?.is_err(), "{} decodes as bool", x);
        check!(lib("serde::from_slice", || s::from_slice::<String>(&b))?.is_err(), "{} decodes as String", x);
        check!(lib("serde::from_slice", || s::from_slice::<f64>(&b))?.is_err(), "{} decodes as f64", x);
        check!(lib("serde::from_slice", || s::from_slice::<f32>(&b))?.is_err(), "{} decodes as f32", x);
    }
    c.class(match x {
        x if i64::try_from(x).is_ok() => "fits i64",
        x if x > 0 => "above i64",
        _ => "below i64",
    });
    c.nontrivial(engine::rng::mix(place) ^ engine::rng::hash_bytes(&b));
    c.sample(|| show(&b));
    Ok(())
}

/// Floats wherever they stand are an error, in both directions.
fn floats(t: &mut Tape, c: &mut Ctx) -> R {
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    struct F {
        a: u8,
        f: f64,
    }
    #[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
    enum G {
        N(f32),
        T(u8, f64),
        S { f: f32 },
    }
    let bits = t.int();
    let f = *t.pick(&[0.0f64, 1.0, -1.5, f64::NAN, f64::INFINITY, f64::from_bits(bits), bits as f64]);
    let g = f as f32;
    macro_rules! no {
        ($x:expr) => {{
            let x = $x;
            let r = lib("serde::to_vec", || s::to_vec(&x))?;
            check!(r.is_err(), "serde::to_vec of {:?} gives {:?}", x, r);
            let r = lib("serde::to_value", || s::to_value(&x))?;
            check!(r.is_err(), "serde::to_value of {:?} gives {:?}", x, r);
        }};
    }
    match t.below(9) {
        0 => no!(f),
        1 => no!(g),
        2 => no!(F { a: 1, f }),
        3 => no!(G::N(g)),
        4 => no!(G::T(1, f)),
        5 => no!(G::S { f: g }),
        6 => no!(vec![Some(f)]),
        7 => no!([(String::from("k"), f)].into_iter().collect::<BTreeMap<_, _>>()),
        _ => no!((1u8, g)),
    }
    // Into floats.
    t.set_budget();
    let m = gen::item(t, 2);
    macro_rules! never {
        ($($t:ty),*) => { $( {
            let r = lib("serde::from_value", || s::from_value::<$t>(to_value(&m)))?;
            check!(r.is_err(), "serde::from_value::<{}> of {} gives {:?}", stringify!($t), showm(&m), r);
        } )* };
    }
    never!(f32, f64, G, (f64,), (u8, f32));
    // Float bytes into anything.
    let n = *t.pick(&[(0xf9u8, 2usize), (0xfa, 4), (0xfb, 8)]);
    let mut fb = vec![n.0];
    fb.extend(t.fill(n.1));
    let i = pick(t, every());
    let v = gen_top(t, (i.ty)());
    if let Some(good) = wire_of(i, &v) {
        // In place of one item of a valid encoding.
        let k = count_nodes(&good, &|_| true);
        let mut at = t.below(k as u64) as usize;
        let mut m = good.clone();
        const MARK: u64 = 0x0123_4567_89ab_cdef;
        *node(&mut m, &|_| true, &mut at).expect("node") = M::U(MARK);
        let b = raw(&m);
        let mut mark = vec![0x1b];
        mark.extend(MARK.to_be_bytes());
        if let Some(p) = b.windows(9).position(|w| w == mark) {
            let mut b2 = b[..p].to_vec();
            b2.extend(&fb);
            b2.extend(&b[p + 9..]);
            let r = (i.from_slice)(&b2)?;
            check!(r.is_err(), "{}: serde::from_slice of {}, which holds a float, gives {}", named(i), show(&b2), showv(&r));
        }
    }
    c.class("refused");
    c.nontrivial(engine::rng::mix(f.to_bits()) ^ engine::rng::hash_bytes(&fb));
    c.sample(|| format!("{:?}, {}", f, showm(&m)));
    Ok(())
}

fn bytes(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, every());
    let b = if t.chance(2, 3) {
        let v = gen_top(t, (i.ty)());
        let Some(m) = wire_of(i, &v) else {
            c.discard();
            return Ok(());
        };
        let mut b = if t.chance(1, 2) { raw(&m) } else { gen::sloppy(t, &m) };
        let n = t.below(3);
        for _ in 0..n {
            gen::mutate_bytes(t, &mut b);
        }
        b
    } else {
        gen::noise(t)
    };
    let ok = judge_bytes(i, &b)?;
    c.class(if ok { "accepted" } else { "refused or open" });
    if b.len() > 1 {
        c.nontrivial(id(i, &b));
        c.sample(|| format!("{} from {}", i.name, show(&b)));
    }
    Ok(())
}

// ---- C06, C07 -----------------------------------------------------------------------------------------

fn hostile(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, every());
    let v = gen_top(t, (i.ty)());
    let mut b = match t.below(4) {
        0 => gen::noise(t),
        1 => {
            let n = *t.pick(&[60usize, 66, 128, 1000, 20000]);
            let unit: &[u8] = t.pick::<&[u8]>(&[&[0x81], &[0xa1, 0x61, b'v'], &[0xc1], &[0xa1], &[0x82, 0], &[0xa1, 0x64, b'L', b'i', b's', b't', 0x81], &[0xa1, 0x64, b'k', b'i', b'd', b's', 0x81]]);
            unit.iter().copied().cycle().take(n * unit.len()).collect()
        }
        2 => {
            let mut b = wire_of(i, &v).map(|m| raw(&m)).unwrap_or_default();
            let at = t.below(b.len() as u64 + 1) as usize;
            b.truncate(at);
            let major = 2 + t.below(4) as u8;
            let x = if t.chance(1, 2) { t.int() } else { 1u64 << t.below(64) };
            refmodel::wire::head(major, x, &mut b);
            let f = t.len(64);
            b.extend(t.fill(f));
            b
        }
        _ => wire_of(i, &v).map(|m| raw(&m)).unwrap_or_default(),
    };
    let n = t.below(4);
    for _ in 0..n {
        gen::mutate_bytes(t, &mut b);
    }
    let (r, p) = peak_of(|| lib("serde::from_slice", || (i.quiet_slice)(&b)));
    let ok = r?;
    let bound = 64 * 1024 + 8192 * b.len();
    check!(p <= bound, "{}: serde decoding of {} bytes ({}) allocated {} bytes, more than {}", named(i), b.len(), show(&b), p, bound);
    c.class(if ok { "accepted" } else { "refused" });
    if b.len() > 1 {
        c.nontrivial(id(i, &b));
        c.sample(|| format!("{} from {}", i.name, show(&b)));
    }
    Ok(())
}
fn values(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, every());
    let m = if t.chance(1, 2) {
        t.set_budget();
        let n = t.below(8) as usize;
        gen::item(t, n)
    } else {
        match mutated(t, i, ALL, 6) {
            Some((_, m)) => m,
            None => {
                c.discard();
                return Ok(());
            }
        }
    };
    let r = (i.from_value)(to_value(&m))?;
    c.class(if r.is_ok() { "converted" } else { "refused" });
    if m.count() > 1 {
        c.nontrivial(id(i, &raw(&m)));
        c.sample(|| format!("{} from {}", i.name, showm(&m)));
    }
    Ok(())
}
/// Exactly 64 levels when decoding, 127 when encoding.
fn limit(t: &mut Tape, c: &mut Ctx) -> R {
    use crate::probe::{Any, Script};
    let d = match t.below(5) {
        0 => t.below(60) as usize,
        1 | 2 => 60 + t.below(10) as usize,
        _ => 120 + t.below(12) as usize,
    };
    fn nest(t: &mut Tape, mut m: M, n: usize) -> M {
        for _ in 0..n {
            m = match t.below(4) {
                0 => M::Map(vec![(M::t("k"), m)]),
                1 if !matches!(m, M::Map(_)) => M::Map(vec![(m, NULL)]),
                2 => M::A(vec![M::U(0), m]),
                _ => M::A(vec![m]),
            };
        }
        m
    }
    let m = nest(t, NULL, d);
    let c2 = canonical(&m).expect("distinct");
    let b = raw(&c2);
    let r = lib("serde::from_slice", || s::from_slice::<Any>(&b))?;
    check!(r.is_ok() == (d <= LIMIT), "serde::from_slice of an item {} levels deep gives {}", d, if r.is_ok() { "a value" } else { "an error" });
    let r = lib("serde::from_slice", || s::from_slice::<serde::de::IgnoredAny>(&b))?;
    check!(r.is_ok() == (d <= LIMIT), "serde::from_slice ignoring an item {} levels deep gives {}", d, if r.is_ok() { "a value" } else { "an error" });
    let sc = Script::new(&m, t.int());
    let r = lib("serde::to_vec", || s::to_vec(&sc))?;
    if d <= 127 {
        check!(r.as_ref().ok() == Some(&b), "serde::to_vec of an item {} levels deep gives {:?}", d, r.map(|b| show(&b)));
    } else {
        check!(r.is_err(), "serde::to_vec of an item {} levels deep gives {:?}", d, r.map(|b| show(&b)));
    }
    c.class(match d {
        64 => "at the decoding limit",
        65 => "one too deep to decode",
        127 => "at the encoding limit",
        128 => "one too deep to encode",
        _ => "elsewhere",
    });
    c.nontrivial_bytes(&b);
    c.sample(|| format!("depth {}: {}", d, show(&b)));
    Ok(())
}

pub fn c06() -> Vec<Sub> {
    vec![sub("serde_hostile", hostile, 30_000, 30_000), sub("serde_values", values, 30_000, 30_000)]
}
pub fn c07() -> Vec<Sub> {
    vec![sub("serde_limit", limit, 6_000, 0)]
}
pub fn c17() -> Vec<Sub> {
    let mut v = vec![
        sub("integers", integers, 40_000, 10_000),
        sub("mutants", mutants, 40_000, 40_000),
        sub("lengths", lengths, 30_000, 0),
        sub("tags", tags, 20_000, 0),
        sub("floats", floats, 15_000, 0),
        sub("serde_bytes", bytes, 30_000, 30_000),
    ];
    v.extend(crate::probe::c17());
    v
}
