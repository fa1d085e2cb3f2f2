use crate::read::show;
use engine::alloc::peak_of;
use engine::{check, lib, sub, Ctx, Fail, Sub, Tape, R};
use oasis_cbor::reader;
use oasis_cbor::Value;
use refmodel::gen;
use refmodel::wire;

/// Allowed peak: generous per input byte, and a constant that any announced length can exceed.
pub fn bound(n: usize) -> usize {
    64 * 1024 + 8192 * n
}

pub fn every_mode(b: &[u8], lims: &[Option<i8>]) -> Result<usize, Fail> {
    let mut worst = 0;
    let mut see = |what: &str, peak: usize| -> R {
        check!(
            peak <= bound(b.len()),
            "{} of {} bytes ({}) allocated {} bytes, more than {} allow",
            what,
            b.len(),
            show(b),
            peak,
            bound(b.len())
        );
        worst = worst.max(peak);
        Ok(())
    };
    for lim in lims {
        let (r, p) = peak_of(|| lib("read_nested", || reader::read_nested(b, *lim).map(drop)));
        let _ = r?;
        see("strict decoding", p)?;
        let (r, p) = peak_of(|| lib("read_nested_non_strict", || reader::read_nested_non_strict(b, *lim).map(drop)));
        let _ = r?;
        see("non-strict decoding", p)?;
    }
    let (r, p) = peak_of(|| lib("read", || reader::read(b).map(drop)));
    let _ = r?;
    see("read", p)?;
    let (r, p) = peak_of(|| lib("cbor_from_slice", || crate::difffuzz::cbor_from_slice(b.as_ptr(), b.len())));
    let r = r?;
    see("cbor_from_slice", p)?;
    check!(r <= 1, "cbor_from_slice returned {}", r);
    let (r, p) = peak_of(|| lib("from_slice::<Value>", || oasis_cbor::from_slice::<Value>(b).map(drop)));
    let _ = r?;
    see("from_slice::<Value>", p)?;
    Ok(worst)
}

fn noise(t: &mut Tape, c: &mut Ctx) -> R {
    let b = gen::noise(t);
    let lim = t.draw(255, |r, _| r.below(256)) as u8 as i8;
    let two = [Some(lim), None];
    let lims = if b.len() < 800 { &two[..] } else { &two[..1] };
    every_mode(&b, lims)?;
    c.class(if wire::lenient(&b, Some(127)).is_ok() { "well-formed" } else { "malformed" });
    if b.len() > 1 {
        c.nontrivial_bytes(&b);
        c.sample(|| show(&b));
    }
    Ok(())
}

/// Announced lengths far beyond the data, nested.
fn announced(t: &mut Tape, c: &mut Ctx) -> R {
    let n = 1 + t.below(6);
    let mut b = Vec::new();
    for _ in 0..n {
        match t.below(4) {
            0 => wire::head(4, t.below(3), &mut b),
            1 => wire::head(6, t.below(3), &mut b),
            _ => {}
        }
        let major = 2 + t.below(4) as u8;
        let x = match t.below(3) {
            0 => t.int(),
            1 => 1u64 << t.below(64),
            _ => u64::MAX >> t.below(64),
        };
        wire::head(major, x, &mut b);
        if major == 5 {
            wire::head(0, t.below(3), &mut b);
        }
    }
    let f = t.len(64);
    b.extend(t.fill(f));
    let w = every_mode(&b, &[Some(127), Some(5), None])?;
    c.class(if w > 10_000 { "over 10 kB" } else { "small" });
    c.nontrivial_bytes(&b);
    c.sample(|| format!("{} peak {} bytes", show(&b), w));
    Ok(())
}

/// Long repetitive input: deep chains, long arrays, many entries.
fn repeat(t: &mut Tape, c: &mut Ctx) -> R {
    let n = *t.pick(&[100usize, 1000, 130, 66, 10_000, 60_000]);
    let unit: Vec<u8> = match t.below(9) {
        0 => vec![0x81],
        1 => vec![0xa1],
        2 => vec![0xc1],
        3 => vec![0xa1, 0x00],
        4 => vec![0x82, 0x00],
        5 => vec![0x9f],
        6 => vec![0xbf],
        7 => vec![0xd8, 0x20],
        _ => t.bytes(4),
    };
    let mut b: Vec<u8> = Vec::new();
    if t.chance(1, 3) {
        wire::head(4 + t.below(2) as u8, t.int(), &mut b);
    }
    while b.len() < n && !unit.is_empty() {
        b.extend_from_slice(&unit);
    }
    every_mode(&b, &[Some(127), Some(64), Some(0), Some(-1)])?;
    c.class("repeated unit");
    c.nontrivial_bytes(&b);
    c.sample(|| format!("{} bytes of {}", b.len(), show(&unit)));
    Ok(())
}

/// Large well-formed input stays linear.
fn large(t: &mut Tape, c: &mut Ctx) -> R {
    let n = 500 + t.below(8000) as usize;
    let m = match t.below(5) {
        0 => wire::M::A(vec![wire::M::U(0); n]),
        1 => wire::M::Map((0..n as u64).map(|i| (wire::M::U(i), wire::M::U(0))).collect()),
        2 => wire::M::A(vec![wire::M::A(vec![]); n]),
        3 => wire::M::B(vec![0; n * 8]),
        _ => wire::M::T("y".repeat(n * 8)),
    };
    let b = wire::raw(&m);
    let w = every_mode(&b, &[Some(127)])?;
    c.class("large");
    c.nontrivial_bytes(&b[..b.len().min(64)]);
    c.sample(|| format!("{} bytes of input, peak {} bytes", b.len(), w));
    Ok(())
}

pub fn c06() -> Vec<Sub> {
    vec![
        sub("noise", noise, 150_000, 300_000),
        sub("announced", announced, 60_000, 20_000),
        sub("repeat", repeat, 2_000, 0),
        sub("large", large, 400, 0),
    ]
}
