//! Round trips through serde (C15), agreement of the two layers (C16), independence of history (C14).
use crate::util::*;
use engine::{check, lib, sane, sub, Ctx, Sub, Tape, R};
use refmodel::sty::{sdec, SWant};
use refmodel::ty::*;
use refmodel::value::from_value;
use refmodel::wire::{canonical, raw, strict, M};
use szoo::SInfo;

pub fn round_trip(i: &SInfo, v: &MV) -> Result<Option<(M, Vec<u8>)>, engine::Fail> {
    let Some(want) = wire_of(i, v) else { return Ok(None) };
    let ty = (i.ty)();
    let hs = has_hashed_set(i);
    let bytes = match (i.to_vec)(v)? {
        Ok(b) => b,
        Err(e) => return Err(engine::Fail::new(format!("{}: {} does not serialise: {:?}", named(i), showv(v), e))),
    };
    if hs {
        check!(strict(&bytes, None).is_ok(), "{}: {} serialises to {}, which is not canonical", named(i), showv(v), show(&bytes));
    } else {
        check!(bytes == raw(&want), "{}: {} serialises to {}; its canonical form is {} = {}", named(i), showv(v), show(&bytes), show(&raw(&want)), showm(&want));
    }
    let value = match (i.to_value)(v)? {
        Ok(x) => x,
        Err(e) => return Err(engine::Fail::new(format!("{}: {} has no in-memory value: {:?}", named(i), showv(v), e))),
    };
    if !hs {
        let m = from_value(&value).and_then(|m| canonical(&m).ok());
        check!(m.as_ref() == Some(&want), "{}: {} serialises to the in-memory value {:?}; it must be {}", named(i), showv(v), value, showm(&want));
        let w = value.clone();
        let mut out = Vec::new();
        let r = lib("writer::write", || oasis_cbor::writer::write(w, &mut out))?;
        check!(r.is_ok() && out == bytes, "{}: writing the in-memory value of {} gives {} ({:?}), to_vec gives {}", named(i), showv(v), show(&out), r, show(&bytes));
    }
    if want.depth() > LIMIT {
        return Ok(Some((want, bytes)));
    }
    let input = || format!("{} (encoding of {})", show(&bytes), showv(v));
    if i.lossless {
        if let Some(w) = without_skipped(ty, v) {
            let w = (i.norm)(&w);
            let s = sdec(i.core.is_some(), ty, &want);
            sane!(matches!(&s, SWant::Open) || matches!(&s, SWant::Is(x) if (i.norm)(x) == w), "{}: the model loses {} ({:?} from {})", named(i), showv(v), s, showm(&want));
            compare(i, "serde::from_slice", &input, &SWant::Is(w.clone()), (i.from_slice)(&bytes))?;
            compare(i, "serde::from_value", &input, &SWant::Is(w), (i.from_value)(value))?;
            return Ok(Some((want, bytes)));
        }
    }
    let w = sdec(i.core.is_some(), ty, &want);
    compare(i, "serde::from_slice", &input, &w, (i.from_slice)(&bytes))?;
    compare(i, "serde::from_value", &input, &w, (i.from_value)(value))?;
    Ok(Some((want, bytes)))
}
fn trip(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, every());
    let v = gen_top(t, (i.ty)());
    let Some((want, b)) = round_trip(i, &v)? else {
        c.discard();
        return Ok(());
    };
    c.class(if i.lossless { "must come back unchanged" } else { "as the declaration allows" });
    if want.count() > 1 {
        c.nontrivial(id(i, &b));
        c.sample(|| format!("{}: {} <-> {}", i.name, showv(&v), show(&b)));
    }
    Ok(())
}
fn variants(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, enums());
    let v = gen_top(t, (i.ty)());
    let Some((want, b)) = round_trip(i, &v)? else {
        c.discard();
        return Ok(());
    };
    c.class(match &want {
        M::T(_) => "bare name",
        M::Map(_) => "one-entry map",
        _ => "inside another type",
    });
    c.nontrivial(id(i, &b));
    c.sample(|| format!("{}: {} <-> {}", i.name, showv(&v), show(&b)));
    Ok(())
}

fn agree(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, both());
    let core = i.core.as_ref().expect("both");
    let v = gen_top(t, (i.ty)());
    let Some(want) = wire_of(i, &v) else {
        c.discard();
        return Ok(());
    };
    let a = (core.to_vec)(&v)?;
    let b = (i.to_vec)(&v)?;
    check!(b.as_ref() == Ok(&a), "{}: {} encodes to {}, through serde to {:?}", named(i), showv(&v), show(&a), b.map(|b| show(&b)));
    check!(a == raw(&want), "{}: both layers encode {} to {}; its canonical form is {}", named(i), showv(&v), show(&a), show(&raw(&want)));
    let va = (core.to_value)(&v)?;
    let vb = match (i.to_value)(&v)? {
        Ok(x) => x,
        Err(e) => return Err(engine::Fail::new(format!("{}: {} has no in-memory value through serde: {:?}", named(i), showv(&v), e))),
    };
    let canon = |x| from_value(x).and_then(|m| canonical(&m).ok());
    check!(canon(&va) == canon(&vb) && canon(&va).is_some(), "{}: {} is the in-memory value {:?}, through serde {:?}", named(i), showv(&v), va, vb);
    if !uses((i.ty)(), 6, &|t| matches!(t, Ty::Map(..))) {
        // Nothing hashed: the very same value, entry order included.
        check!(from_value(&va) == from_value(&vb), "{}: {} is the in-memory value {:?}, through serde {:?}", named(i), showv(&v), va, vb);
    }
    if want.depth() <= LIMIT {
        let x = (core.from_slice)(&a)?;
        let y = (i.from_slice)(&a)?;
        let vx = (core.from_value)(vb)?;
        let vy = (i.from_value)(va)?;
        let w = (i.norm)(&v);
        for (what, r) in [("core decoding of bytes", x.ok()), ("serde decoding of bytes", y.ok()), ("core conversion of serde's value", vx.ok()), ("serde conversion of core's value", vy.ok())] {
            if i.lossless {
                check!(r.as_ref() == Some(&w), "{}: {} encodes to {}; {} gives {}", named(i), showv(&v), show(&a), what, showv(&r));
            } else {
                let s = sdec(i.core.is_some(), (i.ty)(), &want);
                check!(!matches!(&s, SWant::Is(x) if r.as_ref() != Some(&(i.norm)(x))), "{}: {} encodes to {}; {} gives {}; it denotes {:?}", named(i), showv(&v), show(&a), what, showv(&r), s);
            }
        }
    }
    c.class(if i.lossless { "must come back unchanged" } else { "as the declaration allows" });
    if want.count() > 1 {
        c.nontrivial(id(i, &a));
        c.sample(|| format!("{}: {} <-> {}", i.name, showv(&v), show(&a)));
    }
    Ok(())
}

fn history(t: &mut Tape, c: &mut Ctx) -> R {
    let i = pick(t, hashed());
    let v = gen_top(t, (i.ty)());
    let Some(want) = wire_of(i, &v) else {
        c.discard();
        return Ok(());
    };
    let one = (i.to_vec)(&v)?;
    for _ in 0..3 {
        let h = t.int();
        let (again, value) = with_history(h, || ((i.to_vec)(&v), (i.to_value)(&v)));
        let again = again?;
        check!(again == one, "{}: two equal values {} serialise to {:?} and {:?}", named(i), showv(&v), one, again);
        let mut out = Vec::new();
        if let Ok(x) = value? {
            let r = lib("writer::write", || oasis_cbor::writer::write(x, &mut out))?;
            check!(r.is_ok() && Ok(&out) == one.as_ref(), "{}: two equal values {} serialise to {:?} and, through the in-memory value, {}", named(i), showv(&v), one, show(&out));
        }
    }
    c.class("serde, built four times");
    if want.any(&|m| matches!(m, M::Map(v) if v.len() > 1)) {
        c.nontrivial(id(i, &raw(&want)));
        c.sample(|| format!("{}: {} always {}", i.name, showv(&v), show(&raw(&want))));
    }
    Ok(())
}

pub fn c14() -> Vec<Sub> {
    vec![sub("serde_history", history, 30_000, 0)]
}
pub fn c15() -> Vec<Sub> {
    let mut v = vec![sub("trip", trip, 50_000, 30_000), sub("variants", variants, 20_000, 10_000)];
    v.extend(crate::probe::c15());
    v.extend(crate::hand::c15());
    v
}
pub fn c16() -> Vec<Sub> {
    vec![sub("agree", agree, 60_000, 40_000)]
}
