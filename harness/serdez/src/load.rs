//! Work of the serde layer (C21).
use crate::util::*;
use engine::work::judge;
use engine::{sub, Ctx, Sub, Tape, R};
use refmodel::gen;
use refmodel::ty::*;
use refmodel::wire::{canonical, raw};

/// An encoding of a type with parts blown up, into that type.
fn long(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, every());
    let v = gen_top(t, (i.ty)());
    let Some(mut m) = wire_of(i, &v) else {
        c.discard();
        return Ok(());
    };
    if t.chance(1, 4) {
        let vocab = vocabulary((i.ty)());
        let op = *t.pick(ALL);
        mutate(t, &mut m, op, &vocab);
    }
    let n = [1000, 4000, 12_000, 100_000][t.weighted(&[5, 5, 3, 1])];
    let what = gen::inflate(t, &mut m, n);
    if t.chance(1, 3) && m.count() < 20_000 {
        gen::inflate(t, &mut m, 300);
    }
    let Ok(m) = canonical(&m) else {
        c.discard();
        return Ok(());
    };
    let b = raw(&m);
    let ws = (i.work)(&b)?;
    let ok = ws.len() > 1;
    let mut worst = 0;
    for (k, w) in ws.into_iter().enumerate() {
        let step = ["serde::from_slice", "serde::to_vec of the result", "serde::to_value of the result", "serde::from_value of that"][k];
        worst = worst.max(judge(&|| format!("{}: {} of {}", named(i), step, show(&b)), b.len(), m.depth() + 4, w)?);
    }
    c.class(what);
    c.class(if ok { "decodes" } else { "refused" });
    c.class(match worst {
        0..=9 => "bound used under 1%",
        10..=49 => "bound used under 5%",
        50..=249 => "bound used under 25%",
        _ => "bound used 25% or more",
    });
    c.nontrivial(id(i, &b));
    c.sample(|| format!("{}: {} bytes, {}, {}: {} thousandths of the bound", i.name, b.len(), what, if ok { "decodes" } else { "refused" }, worst));
    Ok(())
}

pub fn c21() -> Vec<Sub> {
    vec![sub("serde_long", long, 2_500, 0)]
}
