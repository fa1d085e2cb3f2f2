//! Judging serde decoding and encoding against the model.
use engine::json::hex;
use engine::rng::hash_bytes;
use engine::{check, Ctx, Fail, Tape, R};
pub use refmodel::mutate::*;
use refmodel::sty::{sdec, SWant};
use refmodel::ty::*;
use refmodel::value::to_value;
use refmodel::wire::{self, canonical, raw, M};
use std::sync::OnceLock;
use szoo::{types, Res, SInfo};

pub const LIMIT: usize = 64;

pub fn show(b: &[u8]) -> String {
    if b.len() > 160 {
        format!("{}...({} bytes)", hex(&b[..160]), b.len())
    } else {
        hex(b)
    }
}
fn cut(s: String) -> String {
    if s.len() > 500 {
        let mut n = 500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}
pub fn showm(m: &M) -> String {
    cut(format!("{:?}", m))
}
pub fn showv<T: std::fmt::Debug>(v: &T) -> String {
    cut(format!("{:?}", v))
}
pub fn named(i: &SInfo) -> String {
    if i.def.is_empty() {
        i.name.to_string()
    } else {
        format!("{} [{}]", i.name, i.def.replace('\n', " ").replace("  ", " "))
    }
}

pub type List = Vec<&'static SInfo>;
macro_rules! lists {
    ($($n:ident |$i:ident| $e:expr;)*) => { $(
        pub fn $n() -> &'static List {
            static L: OnceLock<List> = OnceLock::new();
            L.get_or_init(|| types().iter().filter(|$i| $e).collect())
        }
    )* };
}
lists! {
    every |_i| true;
    both |i| i.core.is_some();
    hashed |i| uses((i.ty)(), 4, &|t| matches!(t, Ty::Map(..))) && !has_hashed_set(i);
    enums |i| uses((i.ty)(), 2, &|t| matches!(t, Ty::Enum(_)));
}
/// serde presents a hashed set as a sequence in arbitrary order.
pub fn has_hashed_set(i: &SInfo) -> bool {
    uses((i.ty)(), 6, &|t| matches!(t, Ty::Set(_, true)))
}
pub fn pick(t: &mut Tape, l: &'static List) -> &'static SInfo {
    l[t.below(l.len() as u64) as usize]
}
pub fn id(i: &SInfo, b: &[u8]) -> u64 {
    engine::rng::mix(hash_bytes(i.name.as_bytes()) ^ hash_bytes(b) ^ i.core.is_some() as u64)
}
pub fn wire_of(i: &SInfo, v: &MV) -> Option<M> {
    let m = canonical(&enc((i.ty)(), v, Mode::Serde)).ok()?;
    if m.depth() > 120 {
        return None;
    }
    Some(m)
}

pub fn compare(i: &SInfo, what: &str, input: &dyn Fn() -> String, want: &SWant, got: Res<MV>) -> R {
    let got = got?;
    match want {
        SWant::Is(w) => {
            let w = (i.norm)(w);
            check!(got.as_ref() == Ok(&w), "{}: {} of {} gives {}; it denotes {}", named(i), what, input(), showv(&got), showv(&w));
        }
        SWant::Bad => {
            check!(got.is_err(), "{}: {} of {} gives {}; it must be refused", named(i), what, input(), showv(&got));
        }
        SWant::Open => {}
    }
    Ok(())
}

/// An item as in-memory value and as bytes.
pub fn judge(i: &SInfo, m: &M) -> Result<SWant, Fail> {
    let ty = (i.ty)();
    let want = sdec(i.core.is_some(), ty, m);
    let input = || showm(m);
    compare(i, "serde::from_value", &input, &want, (i.from_value)(to_value(m)))?;
    match canonical(m) {
        Ok(c) => {
            let b = raw(&c);
            let input = || format!("{} = {}", show(&b), showm(&c));
            let got = (i.from_slice)(&b)?;
            if c.depth() > LIMIT {
                check!(got.is_err(), "{}: serde::from_slice of {}, {} levels deep, gives {}", named(i), input(), c.depth(), showv(&got));
            } else {
                let w = if c == *m { want.clone() } else { sdec(i.core.is_some(), ty, &c) };
                let direct = (i.from_value)(to_value(&c))?;
                check!(got.is_ok() == direct.is_ok() && (got.is_err() || got == direct), "{}: serde::from_slice of {} gives {}, from_value of the same item {}", named(i), input(), showv(&got), showv(&direct));
                compare(i, "serde::from_slice", &input, &w, Ok(got))?;
            }
        }
        Err(_) => {
            let b = raw(m);
            let got = (i.from_slice)(&b)?;
            check!(got.is_err(), "{}: serde::from_slice of {} = {}, which repeats a key, gives {}", named(i), show(&b), showm(m), showv(&got));
        }
    }
    Ok(want)
}
pub fn judge_bytes(i: &SInfo, b: &[u8]) -> Result<bool, Fail> {
    let got = (i.from_slice)(b)?;
    let input = || show(b);
    match wire::strict(b, Some(LIMIT as i8)) {
        Ok(m) => {
            let w = sdec(i.core.is_some(), (i.ty)(), &m);
            compare(i, "serde::from_slice", &input, &w, Ok(got))?;
            Ok(matches!(w, SWant::Is(_)))
        }
        Err(_) => {
            check!(got.is_err(), "{}: serde::from_slice of {}, which is not canonical, gives {}", named(i), show(b), showv(&got));
            Ok(false)
        }
    }
}
pub fn outcome(c: &mut Ctx, w: &SWant) {
    c.class(match w {
        SWant::Is(_) => "decodes",
        SWant::Bad => "refused",
        SWant::Open => "open",
    });
}
