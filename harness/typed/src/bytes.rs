//! Typed decoding of arbitrary bytes: agreement of modes (C05), robustness (C06), nesting limit (C07).
use crate::util::*;
use engine::alloc::peak_of;
use engine::{check, lib, sane, sub, Ctx, Sub, Tape, R};
use refmodel::gen;
use refmodel::ty::*;
use refmodel::value::to_value;
use refmodel::wire::{canonical, head, raw, M, NULL};
use zoo::Info;

fn sloppy(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, decodable());
    let v = gen_top(t, (i.ty)());
    let Some(mut m) = wire_of(i, &v) else {
        c.discard();
        return Ok(());
    };
    let good = m.clone();
    let vocab = vocabulary((i.ty)());
    match t.below(4) {
        0 => {}
        1 => m = gen::shuffle(t, &m),
        2 => {
            mutate(t, &mut m, Op::Repeat, &vocab);
        }
        _ => {
            let op = *t.pick(ALL);
            mutate(t, &mut m, op, &vocab);
        }
    }
    let mut b = gen::sloppy(t, &m);
    // Some integers become floats or unknown simple values: these read as undefined.
    if t.chance(1, 6) && !b.is_empty() {
        let at = t.below(b.len() as u64) as usize;
        let f: &[u8] = t.pick::<&[u8]>(&[&[0xf9, 0, 0], &[0xfa, 0, 0, 0, 22], &[0xfb, 0, 0, 0, 0, 0, 0, 0, 21], &[0xf8, 21], &[0xf8, 200], &[0xe5], &[0xf9, 0x3c, 0]]);
        b.splice(at..at + 1, f.iter().copied());
    }
    if t.chance(1, 4) {
        b.extend(t.bytes(6));
    }
    let (s, l) = judge_bytes(i, &b)?;
    c.class(match (s, l) {
        (true, _) => "both accept",
        (false, true) => "only non-strict accepts",
        _ => "both refuse",
    });
    if l && b != raw(&good) || s {
        c.nontrivial(id(i, &b));
        c.sample(|| format!("{} from {}", i.name, show(&b)));
    }
    Ok(())
}
fn noisy(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, decodable());
    let b = gen::noise(t);
    let (s, l) = judge_bytes(i, &b)?;
    c.class(if s || l { "accepted" } else { "refused" });
    if b.len() > 1 {
        c.nontrivial(id(i, &b));
        c.sample(|| format!("{} from {}", i.name, show(&b)));
    }
    Ok(())
}

fn bound(n: usize) -> usize {
    64 * 1024 + 8192 * n
}
fn measured(i: &'static Info, b: &[u8]) -> Result<(usize, bool), engine::Fail> {
    let d = i.dec.as_ref().expect("decodable");
    let mut worst = 0;
    let mut any = false;
    for strict in [true, false] {
        let (r, p) = peak_of(|| lib("typed decoding", || (d.quiet_slice)(b, strict)));
        any |= r?;
        check!(p <= bound(b.len()), "{}: decoding {} bytes ({}) allocated {} bytes, more than {}", named(i), b.len(), show(b), p, bound(b.len()));
        worst = worst.max(p);
    }
    Ok((worst, any))
}
fn hostile(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, decodable());
    let v = gen_top(t, (i.ty)());
    let Some(m) = wire_of(i, &v) else {
        c.discard();
        return Ok(());
    };
    let mut b = match t.below(3) {
        0 => raw(&m),
        1 => gen::sloppy(t, &m),
        _ => gen::noise(t),
    };
    let n = 1 + t.below(4);
    for _ in 0..n {
        gen::mutate_bytes(t, &mut b);
    }
    let (_, any) = measured(i, &b)?;
    c.class(if any { "accepted" } else { "refused" });
    if b.len() > 1 {
        c.nontrivial(id(i, &b));
        c.sample(|| format!("{} from {}", i.name, show(&b)));
    }
    Ok(())
}
/// Any value into any type: an answer, never a panic.
fn values(t: &mut Tape, c: &mut Ctx) -> R {
    let l = match t.below(8) {
        0 => scalars(),
        1 => sized(),
        2 => builtin_dec(),
        _ => decodable(),
    };
    let i = pick(t, l);
    let d = i.dec.as_ref().expect("decodable");
    let m = if t.chance(1, 2) {
        t.set_budget();
        let n = t.below(8) as usize;
        gen::item(t, n)
    } else {
        match mutated(t, i, ALL, 6) {
            Some((_, m, _)) => m,
            None => {
                c.discard();
                return Ok(());
            }
        }
    };
    let v = to_value(&m);
    let ok = lib("from_value", || (d.quiet_value)(v))?;
    let _ = (d.try_value)(to_value(&m))?;
    let _ = (d.try_default)()?;
    c.class(if ok { "converted" } else { "refused" });
    if m.count() > 1 {
        c.nontrivial(id(i, &raw(&m)));
        c.sample(|| format!("{} from {}", i.name, showm(&m)));
    }
    Ok(())
}
/// Announced lengths in places where the target has collections.
fn announced(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, decodable());
    let mut b = Vec::new();
    let n = t.below(4);
    for _ in 0..n {
        match t.below(3) {
            0 => head(4, 1 + t.below(3), &mut b),
            1 => {
                head(5, 1, &mut b);
                let vocab = vocabulary((i.ty)());
                let k = some_key(t, &vocab, &[]);
                b.extend(canonical(&k).map(|k| raw(&k)).unwrap_or_default());
            }
            _ => {}
        }
    }
    let major = 2 + t.below(4) as u8;
    let x = match t.below(3) {
        0 => t.int(),
        1 => 1u64 << t.below(64),
        _ => u64::MAX >> t.below(64),
    };
    head(major, x, &mut b);
    let f = t.len(64);
    b.extend(t.fill(f));
    let (w, _) = measured(i, &b)?;
    c.class(if w > 10_000 { "over 10 kB" } else { "small" });
    c.nontrivial(id(i, &b));
    c.sample(|| format!("{} from {} peak {}", i.name, show(&b), w));
    Ok(())
}
/// Deep and long input for recursive and collection targets.
fn deep(t: &mut Tape, c: &mut Ctx) -> R {
    let i = if t.chance(1, 2) { pick(t, recursive()) } else { pick(t, decodable()) };
    let n = *t.pick(&[60usize, 64, 65, 66, 127, 128, 200, 1000, 20000]);
    let unit: &[u8] = t.pick::<&[u8]>(&[&[0x81], &[0xa1, 0x61, b'v'], &[0xc1], &[0xa1], &[0x82, 0], &[0xa1, 0x64, b'L', b'i', b's', b't', 0x81], &[0x9f], &[0xa1, 0x64, b'k', b'i', b'd', b's', 0x81]]);
    let mut b = Vec::new();
    while b.len() < n * unit.len() {
        b.extend_from_slice(unit);
    }
    if t.chance(1, 2) {
        b.push(0);
    }
    measured(i, &b)?;
    c.class("deep");
    c.nontrivial(id(i, &b));
    c.sample(|| format!("{} from {}", i.name, show(&b)));
    Ok(())
}

/// Exactly 64 levels for every typed entry point.
fn limit(t: &mut Tape, c: &mut Ctx) -> R {
    let d = match t.below(4) {
        0 => t.below(60) as usize,
        _ => 60 + t.below(10) as usize,
    };
    let i = pick(t, recursive());
    let m = match i.name {
        "Tree" | "Vec<Tree>" => {
            // Levels alternate between the map and the array or map inside.
            let mut m = M::Map(vec![]);
            let mut depth = 0;
            while depth + 2 <= d {
                m = if t.chance(1, 2) {
                    M::Map(vec![(M::t("kids"), M::A(vec![m]))])
                } else {
                    M::Map(vec![(M::t("named"), M::Map(vec![(M::t("n"), m)]))])
                };
                depth += 2;
            }
            if d % 2 == 1 {
                // An item one level below.
                fn bottom(m: &mut M) {
                    match m {
                        M::Map(v) if v.is_empty() => v.push((M::t("v"), M::U(1))),
                        M::Map(v) => bottom(&mut v[0].1),
                        M::A(v) => bottom(&mut v[0]),
                        _ => {}
                    }
                }
                bottom(&mut m);
            }
            if i.name == "Vec<Tree>" { M::A(vec![m]) } else { m }
        }
        "Expr" => {
            let mut m = M::t("Zero");
            let mut depth = 0;
            while depth + 2 <= d {
                m = M::Map(vec![(M::t("List"), M::A(vec![m]))]);
                depth += 2;
            }
            if d % 2 == 1 { M::Map(vec![(M::t("Lit"), M::A(vec![m]))]) } else { m }
        }
        "Vec<Value>" => M::A(vec![gen::wrap_deep(t, NULL, d.saturating_sub(1))]),
        _ => gen::wrap_deep(t, NULL, d),
    };
    let want = judge(i, &m)?;
    let depth = m.depth();
    c.class(match depth {
        64 => "at the limit",
        65 => "one too deep",
        0..=63 => "below",
        _ => "above",
    });
    sane!(depth > LIMIT || want.is_ok() || i.name == "Expr", "model refuses {}", showm(&m));
    // The limit is the only thing that stops the deeper ones.
    let x = i.dec.as_ref().expect("decodable");
    let b = raw(&canonical(&m).expect("distinct"));
    let (s, l) = ((x.from_slice)(&b)?, (x.from_slice_non_strict)(&b)?);
    for (what, g) in [("from_slice", s), ("from_slice_non_strict", l)] {
        check!((g == Err(EK::Parsing)) == (depth > LIMIT), "{}: {} of an item {} levels deep gives {}", i.name, what, depth, if g.is_ok() { "a value" } else { "an error" });
    }
    c.nontrivial(id(i, &b));
    c.sample(|| format!("{} at depth {}: {}", i.name, depth, show(&b)));
    Ok(())
}
/// Unknown or unused parts count as well.
fn limit_any(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, decodable());
    let v = gen_top(t, (i.ty)());
    let Some(mut m) = wire_of(i, &v) else {
        c.discard();
        return Ok(());
    };
    let d = 58 + t.below(10) as usize;
    let x = M::U(t.below(3));
    let deep = gen::wrap_deep(t, x, d);
    let vocab = vocabulary((i.ty)());
    match pick_node(t, &mut m, &|x| matches!(x, M::Map(_) | M::A(_))) {
        Some(M::Map(v)) => {
            let k = some_key(t, &vocab, v);
            v.push((k, deep));
        }
        Some(M::A(v)) => v.push(deep),
        _ => m = deep,
    }
    m = gen::dedup(&m);
    let _ = judge(i, &m)?;
    c.class(if m.depth() > LIMIT { "too deep" } else { "within" });
    c.nontrivial(id(i, &raw(&m)));
    c.sample(|| format!("{} at depth {}", i.name, m.depth()));
    Ok(())
}

pub fn c05() -> Vec<Sub> {
    vec![sub("typed_sloppy", sloppy, 50_000, 50_000), sub("typed_noise", noisy, 20_000, 30_000)]
}
pub fn c06() -> Vec<Sub> {
    vec![
        sub("typed_hostile", hostile, 40_000, 40_000),
        sub("typed_values", values, 40_000, 40_000),
        sub("typed_announced", announced, 30_000, 0),
        sub("typed_deep", deep, 2_000, 0),
    ]
}
pub fn c07() -> Vec<Sub> {
    vec![sub("typed_limit", limit, 20_000, 0), sub("typed_limit_any", limit_any, 20_000, 0)]
}
