//! Scalars against scalar targets (C08).
use crate::util::*;
use engine::{check, sane, sub, Ctx, Fail, Sub, Tape, R};
use refmodel::ty::*;
use refmodel::value::to_value;
use refmodel::wire::{head_w, min_width, raw, M};
use zoo::Info;

/// Integers at the edges of every width.
fn edge(t: &mut Tape) -> i128 {
    let k = t.below(66);
    let base = if k == 65 { 0 } else { 1i128 << k };
    let d = t.below(7) as i128 - 3;
    let x = if t.chance(1, 2) { -(base + d) } else { base + d };
    x.clamp(-(1i128 << 64), (1i128 << 64) - 1)
}
fn scalar(t: &mut Tape) -> M {
    match t.weighted(&[8, 4, 3, 3, 2, 1, 1]) {
        0 => M::int(edge(t)),
        1 => M::int(t.sint(-(1i128 << 64), (1i128 << 64) - 1)),
        2 => {
            let n = t.below(40) as usize;
            let mut b = t.fill(n);
            if t.chance(1, 3) {
                let z = t.below(18) as usize;
                b.iter_mut().take(z).for_each(|x| *x = 0);
            }
            M::B(b)
        }
        3 => M::T(t.string(40)),
        4 => M::S(20 + t.below(4) as u8),
        5 => M::U(*t.pick(&[0xd7ffu64, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0xffff_ffff, 0x1_0000_0061, 0x1_0000_0000])),
        _ => match t.below(3) {
            0 => M::A(vec![]),
            1 => M::Map(vec![]),
            _ => M::Tag(t.below(4), Box::new(M::U(t.below(4)))),
        },
    }
}

/// The rule, spelt out per target independently of the typed model.
fn rule(ty: Ty, m: &M) -> Result<MV, Vec<EK>> {
    let t = || Err(vec![EK::Type]);
    match (ty, m) {
        (Ty::Int(w, signed), M::U(_) | M::N(_)) => {
            let i = m.as_int().expect("integer");
            let bits = w - signed as u32;
            let fits = if i >= 0 { i >> bits == 0 } else { signed && -(i + 1) >> bits == 0 };
            if fits {
                Ok(MV::Int(i))
            } else if i < 0 && !signed {
                Err(vec![EK::Type, EK::IntSize])
            } else {
                Err(vec![EK::IntSize])
            }
        }
        (Ty::U128, M::B(b)) => match b.len() {
            0..=16 => {
                let mut x = [0u8; 16];
                x[16 - b.len()..].copy_from_slice(b);
                Ok(MV::U128(u128::from_be_bytes(x)))
            }
            _ => Err(vec![EK::IntSize]),
        },
        (Ty::Bool, M::S(20)) => Ok(MV::Bool(false)),
        (Ty::Bool, M::S(21)) => Ok(MV::Bool(true)),
        (Ty::Char, M::U(n)) => match n {
            0..=0xd7ff | 0xe000..=0x10ffff => Ok(MV::Char(char::from_u32(*n as u32).expect("scalar value"))),
            _ => Err(vec![EK::Type, EK::IntSize]),
        },
        (Ty::Str, M::T(s)) => Ok(MV::Str(s.clone())),
        (Ty::Bytes, M::B(b)) => Ok(MV::Bytes(b.clone())),
        (Ty::ByteArr(n), M::B(b)) if b.len() == n => Ok(MV::Bytes(b.clone())),
        (Ty::ByteArr(_), M::B(_)) => Err(vec![EK::Type, EK::Missing, EK::Unknown, EK::IntSize]),
        (Ty::Unit, M::S(22 | 23)) => Ok(MV::Unit),
        _ => t(),
    }
}

fn decode(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, scalars());
    let m = scalar(t);
    check_one(c, i, &m)
}
fn check_one(c: &mut Ctx, i: &'static Info, m: &M) -> R {
    let ty = (i.ty)();
    let d = i.dec.as_ref().expect("decodable");
    let want = rule(ty, m);
    let b = raw(m);
    let mut sloppy = Vec::new();
    if let M::U(n) | M::N(n) = m {
        let w = min_width(*n).max(4);
        head_w(matches!(m, M::N(_)) as u8, *n, w, &mut sloppy);
    } else {
        sloppy = b.clone();
    }
    let mut got: Vec<(&str, Result<MV, EK>)> = vec![("as an element", (d.try_value)(to_value(m))?)];
    // At the top, null and undefined stand for the default (C12).
    if !m.is_nullish() {
        got.push(("from bytes", (d.from_slice)(&b)?));
        got.push(("from over-long bytes", (d.from_slice_non_strict)(&sloppy)?));
        got.push(("from the value", (d.from_value)(to_value(m))?));
    }
    for (how, g) in got {
        match (&want, &g) {
            (Ok(w), Ok(g)) if w == g => {}
            (Err(e), Err(g)) if e.contains(g) => {}
            _ => return Err(Fail::new(format!("{} decoded {} ({}) gives {:?}; it must be {:?}", i.name, how, showm(m), g, want))),
        }
    }
    sane!(want.is_ok() == dec(ty, m).is_ok(), "models disagree on {} from {}", i.name, showm(m));
    c.class(match &want {
        Ok(_) => "represented",
        Err(e) if e.contains(&EK::IntSize) => "out of range",
        Err(_) => "other kind",
    });
    let edgy = matches!(m, M::U(_) | M::N(_)) || want.is_ok();
    if edgy {
        c.nontrivial(id(i, &b));
        c.sample(|| format!("{} from {}: {:?}", i.name, showm(m), want));
    }
    Ok(())
}

/// All integers next to a power of two, for every target; all short byte strings' lengths.
fn edges(t: &mut Tape, c: &mut Ctx) -> R {
    let l = scalars();
    let total = 66 * 7 * 2;
    let k = t.draw(u64::MAX, |_, _| 0).wrapping_add(c.index);
    let i = l[(k / total) as usize % l.len()];
    let k = (k % total) as i128;
    let (e, d, neg) = (k / 14, k / 2 % 7 - 3, k & 1 == 1);
    let base = if e == 65 { 0 } else { 1i128 << e };
    let x = if neg { -(base + d) } else { base + d };
    check_one(c, i, &M::int(x.clamp(-(1i128 << 64), (1i128 << 64) - 1)))
}

fn encode_back(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, scalars());
    let ty = (i.ty)();
    let v = match ty {
        Ty::Int(w, s) => {
            let (lo, hi) = int_range(w, s);
            MV::Int(if t.chance(1, 2) { edge(t).clamp(lo, hi) } else { t.sint(lo, hi) })
        }
        Ty::U128 => match t.below(3) {
            0 => MV::U128(u128::MAX >> t.below(128)),
            1 => MV::U128(1u128 << t.below(128)),
            _ => MV::U128((t.int() as u128) << 64 | t.int() as u128),
        },
        _ => gen_top(t, ty),
    };
    let Some(e) = round_trip(i, &v)? else { return Err(Fail::internal("scalar without encoding")) };
    if !matches!(ty, Ty::Unit) {
        check!(
            rule(ty, &e.want) == Ok(v.clone()) || v == MV::Unit,
            "{}: the item {} written for {} denotes something else",
            i.name, showm(&e.want), showv(&v)
        );
    }
    c.class("encoded and back");
    c.nontrivial(id(i, &e.bytes));
    c.sample(|| format!("{}: {} <-> {}", i.name, showv(&v), show(&e.bytes)));
    Ok(())
}

pub fn c08() -> Vec<Sub> {
    vec![sub("decode", decode, 200_000, 100_000), sub("edges", edges, 24_000, 0), sub("encode", encode_back, 60_000, 0), sub("borrowed", crate::round::borrowed, 3_000, 0)]
}
