//! Work of typed decoding and encoding (C21).
use crate::util::*;
use engine::work::judge;
use engine::{sub, Ctx, Sub, Tape, R};
use refmodel::gen;
use refmodel::ty::*;
use refmodel::wire::{canonical, raw, M};

/// An encoding of a type with parts blown up, into that type.
fn long(t: &mut Tape, c: &mut Ctx) -> R {
    let i = if t.chance(1, 2) { pick(t, builtin_dec()) } else { pick(t, decodable()) };
    let v = gen_top(t, (i.ty)());
    let Some(mut m) = wire_of(i, &v) else {
        c.discard();
        return Ok(());
    };
    if t.chance(1, 4) {
        let vocab = vocabulary((i.ty)());
        let op = *t.pick(ALL);
        mutate(t, &mut m, op, &vocab);
    }
    let n = [1000, 4000, 12_000, 100_000][t.weighted(&[5, 5, 3, 1])];
    let what = gen::inflate(t, &mut m, n);
    if t.chance(1, 3) && m.count() < 20_000 {
        gen::inflate(t, &mut m, 300);
    }
    let Ok(m) = canonical(&m) else {
        c.discard();
        return Ok(());
    };
    finish(c, i, what, &m)
}
fn finish(c: &mut Ctx, i: &'static zoo::Info, what: &str, m: &M) -> R {
    let b = raw(m);
    let d = i.dec.as_ref().expect("decodable");
    let mut worst = 0;
    let mut ok = false;
    for strict in [true, false] {
        let ws = (d.work)(&b, strict)?;
        ok |= ws.len() > 1;
        for (k, w) in ws.into_iter().enumerate() {
            let step = ["decoding", "decoding", "to_vec of the result", "to_value of the result"][k];
            worst = worst.max(judge(&|| format!("{}: {} of {}", named(i), step, show(&b)), b.len(), m.depth() + 4, w)?);
        }
    }
    c.class(what);
    c.class(if ok { "decodes" } else { "refused" });
    c.class(match worst {
        0..=9 => "bound used under 1%",
        10..=49 => "bound used under 5%",
        50..=249 => "bound used under 25%",
        _ => "bound used 25% or more",
    });
    c.nontrivial(id(i, &b));
    c.sample(|| format!("{}: {} bytes, {}, {}: {} thousandths of the bound", i.name, b.len(), what, if ok { "decodes" } else { "refused" }, worst));
    Ok(())
}
/// Recursive types, deep.
fn deep(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, recursive());
    let d = *t.pick(&[30usize, 20, 10]);
    let fill = t.below(30) as usize;
    let mut m = match i.name {
        "Expr" => M::t("Zero"),
        "Tree" | "Vec<Tree>" => M::Map(vec![(M::t("v"), M::U(1))]),
        _ => M::U(1),
    };
    for _ in 0..d {
        let x = m.clone();
        let small = x.count() < 2000;
        let copies = if small { 1 + fill % 3 } else { 1 };
        m = match i.name {
            "Expr" => M::Map(vec![(M::t("List"), M::A([vec![M::t("Zero"); fill], vec![x; copies]].concat()))]),
            "Tree" | "Vec<Tree>" => {
                if t.chance(1, 2) {
                    M::Map(vec![(M::t("kids"), M::A([vec![M::Map(vec![]); fill], vec![x; copies]].concat()))])
                } else {
                    M::Map(vec![(M::t("named"), M::Map((0..copies).map(|k| (M::t(&format!("n{}", k)), x.clone())).collect()))])
                }
            }
            _ => M::A([vec![M::U(1); fill], vec![x; copies]].concat()),
        };
    }
    if i.name.starts_with("Vec<") && !matches!(m, M::A(_)) {
        m = M::A(vec![m; 2]);
    }
    let Ok(m) = canonical(&m) else {
        c.discard();
        return Ok(());
    };
    finish(c, i, "deep", &m)
}

pub fn c21() -> Vec<Sub> {
    vec![sub("typed_long", long, 4_000, 0), sub("typed_deep", deep, 1_000, 0)]
}
