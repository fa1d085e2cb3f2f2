//! Rejection of foreign data (C11) and dispatch of enum variants (C13).
use crate::util::*;
use engine::{check, sub, Ctx, Sub, Tape, R};
use refmodel::gen;
use refmodel::ty::*;
use refmodel::value::to_value;
use refmodel::wire::{canonical, raw, M, NULL, UNDEF};
use zoo::Info;

fn judged(t: &mut Tape, c: &mut Ctx, i: &'static Info, ops: &[Op], max: u64) -> R {
    let Some((good, m, done)) = mutated(t, i, ops, max) else {
        c.discard();
        return Ok(());
    };
    let w = judge(i, &m)?;
    outcome(c, &w);
    if done > 0 && m != good {
        c.nontrivial(id(i, &raw(&m)));
        c.sample(|| format!("{} from {}", i.name, showm(&m)));
    }
    Ok(())
}
fn mutants(t: &mut Tape, c: &mut Ctx) -> R {
    let i = if t.chance(2, 3) { pick(t, structs()) } else { pick(t, decodable()) };
    judged(t, c, i, STRUCTURAL, 3)
}

pub fn odd_mutants(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, odd_dec());
    for k in i.odd {
        c.class(k);
    }
    judged(t, c, i, STRUCTURAL, 3)
}

/// One entry more, under a key the struct does not have.
fn unknown_key(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, map_structs());
    let Ty::Struct(s) = (i.ty)() else { unreachable!() };
    let v = gen_top(t, (i.ty)());
    let Some(M::Map(good)) = wire_of(i, &v) else {
        c.discard();
        return Ok(());
    };
    let vocab: Vec<M> = s.fields.iter().flat_map(|f| [f.key.clone(), M::t(f.name)]).collect();
    let k = some_key(t, &vocab, &good);
    let taken = s.fields.iter().any(|f| !f.skip && f.key == k);
    if taken || canonical(&k).is_err() {
        c.discard();
        return Ok(());
    }
    let x = small_item(t, &vocab);
    let d = i.dec.as_ref().expect("decodable");
    let mut m = good.clone();
    let at = t.below(m.len() as u64 + 1) as usize;
    m.insert(at, (k.clone(), x));
    if t.chance(1, 5) {
        // Many of them.
        let n = 1 + t.below_any(&[3, 20, 300]);
        let (start, step, text) = (t.int(), 1 + t.below(70000), t.chance(1, 3));
        for j in 0..n {
            let u = start.wrapping_add(j.wrapping_mul(step));
            let k = if text { M::T(format!("k{}", u % 10_000)) } else { M::U(u) };
            if !m.iter().any(|e| e.0 == k) && !s.fields.iter().any(|f| f.key == k) {
                m.push((k, M::U(j)));
            }
        }
        c.class("many unknown keys");
    }
    let without = (d.from_value)(to_value(&M::Map(good.clone())))?;
    let mut got = vec![("from_value", (d.from_value)(to_value(&M::Map(m.clone())))?)];
    if let Ok(cm) = canonical(&M::Map(m.clone())) {
        let b = raw(&cm);
        got.push(("from_slice", (d.from_slice)(&b)?));
        got.push(("from_slice_non_strict", (d.from_slice_non_strict)(&b)?));
    }
    for (what, g) in got {
        if s.allow_unknown {
            check!(g == without, "{}: with the unknown entry {} {} of {} gives {:?}, without it {:?}", named(i), showm(&k), what, showm(&M::Map(m.clone())), g, without);
        } else if without.is_ok() {
            check!(g == Err(EK::Unknown), "{}: {} of {} with the unknown key {} gives {:?}", named(i), what, showm(&M::Map(m.clone())), showm(&k), g);
        } else {
            check!(g.is_err(), "{}: {} of {} with the unknown key {} gives {:?}", named(i), what, showm(&M::Map(m.clone())), showm(&k), g);
        }
    }
    c.class(if s.allow_unknown { "tolerated" } else { "refused" });
    c.nontrivial(id(i, &raw(&M::Map(m.clone()))));
    c.sample(|| format!("{} with {} added: {}", i.name, showm(&k), showm(&M::Map(m))));
    Ok(())
}

/// Arrays of another length than the target's.
fn lengths(t: &mut Tape, c: &mut Ctx) -> R {
    let i = if t.chance(1, 2) { pick(t, sized()) } else { pick(t, structs()) };
    let ty = (i.ty)();
    let v = gen_top(t, ty);
    let good = wire_of(i, &v);
    let Some(M::A(good)) = good else {
        return units(t, c, i);
    };
    let d = i.dec.as_ref().expect("decodable");
    let mut m = good.clone();
    let more = t.chance(1, 2) || m.is_empty();
    if more {
        let n = 1 + if t.chance(1, 8) { t.below_any(&[20, 300]) } else { t.below(3) };
        for _ in 0..n {
            let x = if n > 20 { NULL } else if !m.is_empty() && t.chance(1, 2) { m[m.len() - 1].clone() } else { small_item(t, &[]) };
            m.push(x);
        }
    } else {
        let n = 1 + t.below(m.len() as u64) as usize;
        m.truncate(m.len() - n);
    }
    let before = (d.from_value)(to_value(&M::A(good)))?;
    let m = M::A(m);
    let got = (d.from_value)(to_value(&m))?;
    let same: Option<Result<MV, EK>> = match ty {
        Ty::Struct(s) if s.shape == Shape::Array && more && s.allow_unknown => Some(before.clone()),
        Ty::Struct(Struct { shape: Shape::Array, .. }) | Ty::Tup(_) => {
            before.is_ok().then_some(Err(if more { EK::Unknown } else { EK::Missing }))
        }
        _ => None,
    };
    if let Some(w) = same {
        check!(got == w, "{}: from_value of {} gives {:?}; it must be {:?}", named(i), showm(&m), got, w);
    }
    if let Ty::Arr(..) | Ty::ByteArr(_) = ty {
        check!(got.is_err(), "{}: from_value of {} gives {:?}", named(i), showm(&m), got);
    }
    let w = judge(i, &m)?;
    c.class(if more { "longer" } else { "shorter" });
    let _ = w;
    c.nontrivial(id(i, &raw(&m)));
    c.sample(|| format!("{} from {}", i.name, showm(&m)));
    Ok(())
}
/// Unit types and fixed byte arrays with something in them.
fn units(t: &mut Tape, c: &mut Ctx, i: &'static Info) -> R {
    let m = match (i.ty)() {
        Ty::ByteArr(n) => {
            let k = t.below(2 * n as u64 + 3) as usize;
            M::B(t.fill(k))
        }
        _ => {
            let vocab = vocabulary((i.ty)());
            small_item(t, &vocab)
        }
    };
    let w = judge(i, &m)?;
    outcome(c, &w);
    c.nontrivial(id(i, &raw(&m)));
    c.sample(|| format!("{} from {}", i.name, showm(&m)));
    Ok(())
}
/// The order of entries in memory does not matter.
fn order(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, derived_decodable());
    let ops = [Op::Add, Op::Remove, Op::Nullify, Op::Replace];
    let m = if t.chance(1, 2) {
        let v = gen_top(t, (i.ty)());
        wire_of(i, &v)
    } else {
        mutated(t, i, &ops, 2).map(|x| x.1)
    };
    let Some(Ok(m)) = m.map(|m| canonical(&m)) else {
        c.discard();
        return Ok(());
    };
    let n = gen::shuffle(t, &m);
    let d = i.dec.as_ref().expect("decodable");
    let (a, b) = ((d.from_value)(to_value(&m))?.map(canon_mv), (d.from_value)(to_value(&n))?.map(canon_mv));
    // Of several entries whose keys decode to one key of a map, the last prevails.
    let last = || matches!((dec_d((i.ty)(), &m), dec_d((i.ty)(), &n)), (Ok(x), Ok(y)) if canon_mv((i.norm)(&x)) != canon_mv((i.norm)(&y)));
    if a != b && a.is_ok() && b.is_ok() && last() {
        c.class("several entries for one key");
        let _ = judge(i, &n)?;
        return Ok(());
    }
    check!(a.is_ok() == b.is_ok() && (a.is_err() || a == b), "{}: {} gives {:?}, in another order {} gives {:?}", named(i), showm(&m), a, showm(&n), b);
    let _ = judge(i, &n)?;
    c.class(if a.is_ok() { "decodes" } else { "refused" });
    if m != n {
        c.nontrivial(id(i, &raw(&n)));
        c.sample(|| format!("{} from {}", i.name, showm(&n)));
    }
    Ok(())
}

fn variants(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, enums_enc());
    let Ty::Enum(e) = (i.ty)() else { unreachable!() };
    let v = gen_top(t, (i.ty)());
    let MV::Enum(n, f) = &v else { unreachable!() };
    let var = &e.variants[*n];
    let Some(x) = round_trip(i, &v)? else {
        c.discard();
        return Ok(());
    };
    // The documented shapes, spelt out.
    let w = &x.want;
    let ok = if var.skip {
        *w == UNDEF
    } else if var.embed {
        Some(w) == canonical(&enc((var.fields[0].ty)(), &f[0], Mode::Core)).ok().as_ref()
    } else if let (Some(tag), false) = (&e.tag, e.untagged) {
        match w {
            M::Map(m) => m.iter().filter(|x| x.0 == *tag).map(|x| x.1.clone()).collect::<Vec<_>>() == if var.missing { vec![] } else { vec![var.key.clone()] },
            _ => false,
        }
    } else if e.untagged {
        true
    } else if var.kind == VKind::Unit {
        *w == var.key
    } else {
        matches!(w, M::Map(m) if m.len() == 1 && m[0].0 == var.key)
    };
    engine::sane!(ok, "model of {}: {} for {}", i.name, showm(w), showv(&v));
    c.class(match var {
        Variant { skip: true, .. } => "skipped",
        Variant { embed: true, .. } => "embedded",
        Variant { missing: true, .. } => "without tag",
        _ if e.tag.is_some() => "tagged",
        _ if e.untagged => "untagged",
        Variant { kind: VKind::Unit, .. } => "unit",
        _ => "one-entry map",
    });
    c.nontrivial(id(i, &x.bytes));
    c.sample(|| format!("{}: {} <-> {}", i.name, showv(&v), showm(w)));
    Ok(())
}
fn enum_mutants(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, enums());
    judged(t, c, i, ALL, 3)
}
/// Keys, shapes and tags that fit or nearly fit some variant.
fn keys(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, enums());
    let Ty::Enum(e) = (i.ty)() else { unreachable!() };
    let vocab = vocabulary((i.ty)());
    let n = t.below(e.variants.len() as u64) as usize;
    let var = &e.variants[n];
    // The payload of some variant, also of another one.
    let v = gen_top(t, (i.ty)());
    let payload = match wire_of(i, &v) {
        Some(m) => m,
        None => NULL,
    };
    let inner = match (&payload, &e.tag) {
        (M::Map(v), None) if v.len() == 1 => v[0].1.clone(),
        (m, _) => m.clone(),
    };
    let key = match t.weighted(&[4, 3, 2]) {
        0 => var.key.clone(),
        1 => some_key(t, &vocab, &[(var.key.clone(), NULL)]),
        _ => gen::near(t, &var.key),
    };
    let m = if let Some(tag) = &e.tag {
        // A skipped variant is no map.
        let mut v = if let M::Map(v) = payload { v } else { vec![] };
        let at = v.iter().position(|x| x.0 == *tag);
        match t.below(5) {
            0 => {
                if let Some(at) = at {
                    v.remove(at);
                }
            }
            1 => {
                // The tag's value under a key next to the tag.
                if let Some(at) = at {
                    v[at].0 = gen::near(t, tag);
                }
            }
            2 => {
                if let Some(at) = at {
                    v[at].1 = if t.chance(1, 2) { NULL } else { UNDEF };
                } else {
                    v.push((tag.clone(), UNDEF));
                }
            }
            3 => {
                if let Some(at) = at {
                    v.remove(at);
                }
                let k = some_key(t, &vocab, &v);
                v.push((k, key));
            }
            _ => {
                if let Some(at) = at {
                    v[at].1 = key;
                } else {
                    v.push((tag.clone(), key));
                }
            }
        }
        M::Map(v)
    } else {
        match t.below(8) {
            0 | 1 => M::Map(vec![(key, inner)]),
            2 | 3 => key,
            4 => M::Map(vec![(key, small_item(t, &vocab))]),
            5 => M::Map(vec![(key, NULL)]),
            6 => {
                let k = t.pick(&e.variants).key.clone();
                M::Map(vec![(key, inner), (k, small_item(t, &vocab))])
            }
            _ => t.pick(&[M::Map(vec![]), M::A(vec![]), NULL, UNDEF]).clone(),
        }
    };
    let w = judge(i, &m)?;
    outcome(c, &w);
    c.nontrivial(id(i, &raw(&m)));
    c.sample(|| format!("{} from {}: {:?}", i.name, showm(&m), w.map(|v| showv(&v))));
    Ok(())
}

fn derived_decodable() -> &'static List {
    static L: std::sync::OnceLock<List> = std::sync::OnceLock::new();
    L.get_or_init(|| derived().iter().filter(|i| i.dec.is_some()).copied().collect())
}

pub fn c11() -> Vec<Sub> {
    vec![
        sub("mutants", mutants, 50_000, 50_000),
        sub("unknown_key", unknown_key, 40_000, 20_000),
        sub("lengths", lengths, 30_000, 10_000),
        sub("order", order, 20_000, 0),
    ]
}
pub fn c13() -> Vec<Sub> {
    vec![sub("variants", variants, 40_000, 20_000), sub("keys", keys, 50_000, 30_000), sub("mutants", enum_mutants, 30_000, 40_000)]
}
