//! Work of reading, writing and comparing untyped items (C21).
use crate::read::show;
use engine::work::{self, judge};
use engine::{lib, sub, Ctx, Sub, Tape, R};
use oasis_cbor::{reader, writer, Value};
use refmodel::gen;
use refmodel::value::to_value;
use refmodel::wire::{self, canonical, raw, M};

fn decode(b: &[u8], depth: usize) -> Result<u64, engine::Fail> {
    let mut worst = 0;
    let mut see = |name: &str, f: &mut dyn FnMut()| -> R {
        let (r, w) = work::of(|| lib(name, f));
        r?;
        worst = worst.max(judge(&|| format!("{} of {}", name, show(b)), b.len(), depth, w)?);
        Ok(())
    };
    see("read", &mut || drop(reader::read(b)))?;
    see("read_nested", &mut || drop(reader::read_nested(b, Some(127))))?;
    see("read_nested_non_strict", &mut || drop(reader::read_nested_non_strict(b, Some(127))))?;
    see("from_slice::<Value>", &mut || drop(oasis_cbor::from_slice::<Value>(b)))?;
    see("cbor_from_slice", &mut || { crate::difffuzz::cbor_from_slice(b.as_ptr(), b.len()); })?;
    Ok(worst)
}
fn encode(m: &M, n: usize) -> Result<u64, engine::Fail> {
    let mut worst = 0;
    let d = m.depth();
    let what = |name: &'static str| move || format!("{} of an item of {} bytes, {} levels deep", name, n, d);
    let v = to_value(m);
    let (x, y, z) = (v.clone(), v.clone(), v.clone());
    let (r, w) = work::of(|| lib("write_nested", || writer::write_nested(x, &mut Vec::new(), None)));
    let _ = r?;
    worst = worst.max(judge(&what("write_nested"), n, d, w)?);
    let (r, w) = work::of(|| lib("to_vec", || oasis_cbor::to_vec(y)));
    r?;
    worst = worst.max(judge(&what("to_vec"), n, d, w)?);
    let (r, w) = work::of(|| lib("comparison", || v == z && v >= z));
    r?;
    worst = worst.max(judge(&what("comparison"), n, d, w)?);
    Ok(worst)
}
fn used(c: &mut Ctx, w: u64) {
    c.class(match w {
        0..=9 => "bound used under 1%",
        10..=49 => "bound used under 5%",
        50..=249 => "bound used under 25%",
        _ => "bound used 25% or more",
    });
}

/// Well-formed items with long parts, whole, cut, out of order, sloppy.
fn long(t: &mut Tape, c: &mut Ctx) -> R {
    let mut m = gen::tree(t);
    if !m.any(&|x| matches!(x, M::A(_) | M::Map(_))) {
        m = if t.chance(1, 2) { M::A(vec![m]) } else { M::Map(vec![(m, M::U(1))]) };
    }
    let n = [1000, 4000, 16_000, 60_000][t.weighted(&[5, 5, 3, 1])];
    let what = gen::inflate(t, &mut m, n);
    if t.chance(1, 4) && m.count() < 40_000 {
        gen::inflate(t, &mut m, 300);
    }
    let d = t.below(20) as usize;
    if d < 10 {
        m = gen::wrap_deep(t, m, d);
    }
    let Ok(m) = canonical(&m) else {
        c.discard();
        return Ok(());
    };
    let mut b = raw(&m);
    let mut w = encode(&m, b.len())?;
    let mixed = gen::shuffle(t, &m);
    w = w.max(encode(&mixed, b.len())?);
    let how = match t.below(5) {
        0 => {
            b = raw(&mixed);
            "entries out of order"
        }
        1 => {
            b = gen::sloppy(t, &mixed);
            "over-long heads"
        }
        2 => {
            let k = t.below(8) as usize;
            b.truncate(b.len().saturating_sub(k));
            "cut"
        }
        3 => {
            let f = t.len(60000);
            b.extend(vec![0x41; f]);
            "something after"
        }
        _ => "canonical",
    };
    w = w.max(decode(&b, m.depth())?);
    c.class(what);
    c.class(how);
    used(c, w);
    c.nontrivial_bytes(&b);
    c.sample(|| format!("{} bytes, {} levels, {}, {}: {} thousandths of the bound", b.len(), m.depth(), what, how, w));
    Ok(())
}
/// Deep nests, with something at every level.
fn deep(t: &mut Tape, c: &mut Ctx) -> R {
    let n = *t.pick(&[126usize, 60, 30, 100]);
    let side = t.below(6);
    let mut m = gen::item(t, 2);
    m = gen::dedup(&m);
    let seed = t.int();
    for i in 0..n {
        let fill = match side {
            0 => vec![],
            1 => vec![M::U(i as u64); 3],
            2 => vec![M::t("some text")],
            3 => vec![M::B(vec![i as u8; 200])],
            4 => vec![M::A(vec![]); 20],
            _ => vec![M::Map(vec![(M::U(1), M::U(2))])],
        };
        m = match if seed < 5 { seed } else { (seed >> (i % 29)) & 3 } {
            0 => M::A([fill, vec![m]].concat()),
            1 => M::Tag(1, Box::new(m)),
            2 => M::Map(vec![(m, M::A(fill))]),
            3 => M::Map(vec![(M::U(0), M::A(fill)), (M::U(1), m)]),
            _ => M::Map(vec![(m, M::U(0)), (M::A(fill), M::U(1))]),
        };
        if m.depth() >= 126 {
            break;
        }
    }
    let Ok(m) = canonical(&m) else {
        c.discard();
        return Ok(());
    };
    let b = raw(&m);
    let w = encode(&m, b.len())?.max(decode(&b, m.depth())?);
    c.class("deep");
    used(c, w);
    c.nontrivial_bytes(&b);
    c.sample(|| format!("{} bytes, {} levels: {} thousandths of the bound", b.len(), m.depth(), w));
    Ok(())
}
/// Hostile repetition.
fn repeat(t: &mut Tape, c: &mut Ctx) -> R {
    let n = *t.pick(&[1000usize, 10_000, 60_000]);
    let mut b: Vec<u8> = Vec::new();
    let head = t.below(4) as u8;
    if head > 0 {
        let len = if t.chance(1, 2) { n as u64 } else { t.int() };
        wire::head(3 + head, len, &mut b);
    }
    let unit = match t.below(8) {
        0 => vec![0x81],
        1 => vec![0xa1],
        2 => vec![0xc1],
        3 => vec![0xa1, 0x00],
        4 => vec![0x00],
        5 => vec![0x80],
        6 => vec![0x60],
        _ => t.bytes(8),
    };
    while b.len() < n && !unit.is_empty() {
        b.extend_from_slice(&unit);
    }
    let w = decode(&b, 127)?;
    c.class("repeated unit");
    used(c, w);
    c.nontrivial_bytes(&b);
    c.sample(|| format!("{} bytes of {}: {} thousandths of the bound", b.len(), show(&unit), w));
    Ok(())
}
fn noise(t: &mut Tape, c: &mut Ctx) -> R {
    let b = gen::noise(t);
    let w = decode(&b, 127)?;
    c.class("noise");
    used(c, w);
    if b.len() > 1 {
        c.nontrivial_bytes(&b);
        c.sample(|| format!("{}: {} thousandths of the bound", show(&b), w));
    }
    Ok(())
}

pub fn c21() -> Vec<Sub> {
    vec![sub("long", long, 1_500, 0), sub("deep", deep, 4_000, 0), sub("repeat", repeat, 1_500, 0), sub("noise", noise, 20_000, 20_000)]
}
