//! Missing, null and undefined fields; omission (C12).
use crate::util::*;
use engine::{check, sub, Ctx, Sub, Tape, R};
use refmodel::gen;
use refmodel::ty::*;
use refmodel::value::to_value;
use refmodel::wire::{canonical, raw, M, NULL, UNDEF};
use zoo::Info;

/// Each field kept, left out, null or undefined.
fn subsets(t: &mut Tape, c: &mut Ctx) -> R {
    let variants = t.chance(1, 3);
    let i = if variants { pick(t, enums()) } else { pick(t, map_structs()) };
    let ty = (i.ty)();
    let v = gen_top(t, ty);
    let (fields, vals, key, tag): (&[Field], &[MV], Option<M>, Option<(M, Option<M>)>) = match (ty, &v) {
        (Ty::Struct(s), MV::Struct(f)) => (&s.fields, f, None, None),
        (Ty::Enum(e), MV::Enum(n, f)) => {
            let var = &e.variants[*n];
            if var.kind != VKind::Map || var.skip {
                c.discard();
                return Ok(());
            }
            match &e.tag {
                Some(tag) => (&var.fields, f, None, Some((tag.clone(), (!var.missing).then(|| var.key.clone())))),
                None => (&var.fields, f, Some(var.key.clone()), None),
            }
        }
        _ => unreachable!(),
    };
    let all = enc_map(fields, vals, Mode::Core, true);
    let mut kept = Vec::new();
    let mut gone = Vec::new();
    for (k, x) in all {
        let Ok(x) = canonical(&x) else {
            c.discard();
            return Ok(());
        };
        if t.chance(1, 2) {
            gone.push(k);
        } else {
            kept.push((k, x));
        }
    }
    let whole = |m: Vec<(M, M)>| -> M {
        let mut m = m;
        if let Some((k, Some(x))) = &tag {
            m.push((k.clone(), x.clone()));
        }
        match &key {
            Some(k) => M::Map(vec![(k.clone(), M::Map(m))]),
            None => M::Map(m),
        }
    };
    let bare = whole(kept.clone());
    let mut forms = vec![bare.clone()];
    for _ in 0..2 {
        let mut m = kept.clone();
        for k in &gone {
            match t.below(3) {
                0 => m.push((k.clone(), NULL)),
                1 => m.push((k.clone(), UNDEF)),
                _ => {}
            }
        }
        let m = whole(m);
        let m = if t.chance(1, 2) { gen::shuffle(t, &m) } else { m };
        forms.push(m);
    }
    let d = i.dec.as_ref().expect("decodable");
    let first = (d.from_value)(to_value(&bare))?;
    for m in &forms {
        let _ = judge(i, m)?;
        let b = raw(&canonical(m).expect("distinct keys"));
        for (what, g) in [("from_value", (d.from_value)(to_value(m))?), ("from_slice", (d.from_slice)(&b)?), ("from_slice_non_strict", (d.from_slice_non_strict)(&b)?)] {
            let (f, g) = (first.clone().map(canon_mv), g.map(canon_mv));
            // Where something else is wrong as well, either may be named.
            check!(f == g || f.is_err() && g.is_err() && f != Err(EK::Missing), "{}: {} of {} gives {:?}, of {} {:?}", named(i), what, showm(m), g, showm(&bare), f);
        }
    }
    let required = gone.iter().any(|k| fields.iter().any(|f| f.key == *k && !f.skip && default(f.wire_ty()).is_err() && f.codec.is_none()));
    if required {
        check!(first.is_err(), "{}: {} lacks a field without default, yet gives {:?}", named(i), showm(&bare), first);
    }
    c.class(if first.is_ok() { "defaults fill in" } else if required { "missing field" } else { "refused" });
    if !gone.is_empty() {
        c.nontrivial(id(i, &raw(forms.last().expect("forms"))));
        c.sample(|| format!("{} from {}: {:?}", i.name, showm(&forms[1]), first.map(|v| showv(&v))));
    }
    Ok(())
}

/// Null and undefined at the top.
fn top(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, decodable());
    let d = i.dec.as_ref().expect("decodable");
    let ty = (i.ty)();
    let want = default(ty).map(|v| (i.norm)(&v));
    let x = if t.chance(1, 2) { NULL } else { UNDEF };
    let b = raw(&x);
    let tail = t.below(2) as usize;
    let mut sloppy = b.clone();
    sloppy.extend(vec![0; tail]);
    for (what, g) in [
        ("try_default", (d.try_default)()?),
        ("from_value", (d.from_value)(to_value(&x))?),
        ("from_slice", (d.from_slice)(&b)?),
        ("from_slice_non_strict", (d.from_slice_non_strict)(&sloppy)?),
        ("from_slice_non_strict of a float", (d.from_slice_non_strict)(&[0xf9, 0, 22])?),
    ] {
        match (&want, &g) {
            (Ok(w), Ok(g)) if w == g => {}
            (Err(_), Err(EK::Missing)) => {}
            _ => return Err(engine::Fail::new(format!("{}: {} of {} gives {:?}; the default is {:?}", named(i), what, showm(&x), g, want))),
        }
    }
    c.class(if want.is_ok() { "default" } else { "no default" });
    c.nontrivial(id(i, &b));
    c.sample(|| format!("{} from {}: {:?}", i.name, showm(&x), want));
    Ok(())
}

/// Presence of each optional field in the encoding, and its restoration.
fn optional(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, optionals());
    let Ty::Struct(s) = (i.ty)() else { unreachable!() };
    let v = gen_top(t, (i.ty)());
    let Some(e) = round_trip(i, &v)? else {
        c.discard();
        return Ok(());
    };
    let MV::Struct(vals) = &v else { unreachable!() };
    let m = oasis_cbor::reader::read(&e.bytes).ok().and_then(|v| refmodel::value::from_value(&v));
    let Some(M::Map(m)) = m else { return Err(engine::Fail::new(format!("{}: not a map: {}", named(i), show(&e.bytes)))) };
    let mut left = 0;
    for (f, x) in s.fields.iter().zip(vals) {
        let present = m.iter().any(|e| e.0 == f.key);
        if f.skip {
            // Another field may have its key.
            continue;
        }
        if !f.optional {
            check!(present, "{}: {} has no entry for field {} in {}", named(i), showv(&v), f.name, show(&e.bytes));
        } else if !present {
            left += 1;
            if f.skip_if.is_none() && f.codec.is_none() {
                if let Some(d) = f.default {
                    // Nothing but the empty value of built-in types is left out.
                    let ty = (f.ty)();
                    if !uses(ty, 3, &|t| matches!(t, Ty::Struct(_) | Ty::Enum(_) | Ty::Value)) {
                        check!(*x == d(), "{}: field {} of {} is left out of {}", named(i), f.name, showv(&v), show(&e.bytes));
                    }
                }
            }
        }
    }
    c.class(if left > 0 { "something left out" } else { "all written" });
    c.nontrivial(id(i, &e.bytes));
    c.sample(|| format!("{}: {} <-> {}", i.name, showv(&v), show(&e.bytes)));
    Ok(())
}
fn optionals() -> &'static List {
    static L: std::sync::OnceLock<List> = std::sync::OnceLock::new();
    L.get_or_init(|| {
        let l: List = map_structs_enc()
            .iter()
            .filter(|i| matches!((i.ty)(), Ty::Struct(s) if s.fields.iter().any(|f| f.optional)))
            .copied()
            .collect();
        if l.is_empty() { map_structs_enc().clone() } else { l }
    })
}
fn nested(t: &mut Tape, c: &mut Ctx) -> R {
    let i: &'static Info = pick(t, decodable());
    let Some((good, m, done)) = mutated(t, i, &[Op::Nullify, Op::Remove, Op::Nullify], 4) else {
        c.discard();
        return Ok(());
    };
    let w = judge(i, &m)?;
    outcome(c, &w);
    if done > 0 && m != good {
        c.nontrivial(id(i, &raw(&m)));
        c.sample(|| format!("{} from {}", i.name, showm(&m)));
    }
    Ok(())
}

/// Whether a value of any type is left out of an optional field, and that only what decoding restores is.
fn defined(v: MV) -> MV {
    match v {
        MV::Val(m) if m.is_nullish() => MV::Val(NULL),
        MV::Seq(v) => MV::Seq(v.into_iter().map(defined).collect()),
        o => o,
    }
}
fn empty(t: &mut Tape, c: &mut Ctx) -> R {
    let i = match t.below(3) {
        0 => pick(t, builtin()),
        1 => pick(t, derived()),
        _ => pick(t, builtin_dec()),
    };
    let v = gen_top(t, (i.ty)());
    // Compares the answers of is_empty and into_optional_cbor_value with the model.
    let Some(e) = encode(i, &v)? else {
        c.discard();
        return Ok(());
    };
    let (_, opt) = (i.to_optional)(&v)?;
    let ty = (i.ty)();
    c.class(if opt.is_none() { "left out" } else { "written" });
    if let (None, Some(d)) = (&opt, &i.dec) {
        let nested = uses(ty, 3, &|t| matches!(t, Ty::Struct(_) | Ty::Enum(_)));
        if !nested {
            let got = (d.try_default)()?;
            // A raw undefined is empty as well, and reads as null.
            let w = defined(canon_mv((i.norm)(&v)));
            check!(got.clone().map(canon_mv) == Ok(w.clone()), "{}: {} is left out of an optional field, a missing field reads as {:?}", named(i), showv(&v), got);
        }
    }
    c.nontrivial(id(i, &e.bytes));
    c.sample(|| format!("{}: {} is {}", i.name, showv(&v), if opt.is_none() { "left out" } else { "written" }));
    Ok(())
}

pub fn c12() -> Vec<Sub> {
    vec![
        sub("subsets", subsets, 40_000, 20_000),
        sub("top", top, 10_000, 0),
        sub("optional", optional, 40_000, 20_000),
        sub("empty", empty, 40_000, 20_000),
        sub("nested", nested, 40_000, 20_000),
    ]
}
