//! Selection of types, judging of encodings and decodings against the model, structural mutation.
use engine::json::hex;
use engine::rng::hash_bytes;
use engine::{check, lib, sane, Ctx, Fail, Tape, R};
pub use refmodel::mutate::*;
use refmodel::ty::*;
use refmodel::value::{from_value, to_value};
use refmodel::wire::{self, canonical, raw, M};
use std::sync::OnceLock;
use zoo::{types, Info};

pub const LIMIT: usize = 64;

pub fn show(b: &[u8]) -> String {
    if b.len() > 160 {
        format!("{}...({} bytes)", hex(&b[..160]), b.len())
    } else {
        hex(b)
    }
}
pub fn showm(m: &M) -> String {
    let s = format!("{:?}", m);
    if s.len() > 500 {
        let mut n = 500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}
pub fn showv(v: &MV) -> String {
    showm(&M::T(format!("{:?}", v)))
}
pub fn named(i: &Info) -> String {
    if i.def.is_empty() {
        i.name.to_string()
    } else {
        format!("{} [{}]", i.name, i.def.replace('\n', " ").replace("  ", " "))
    }
}

pub type List = Vec<&'static Info>;
macro_rules! lists {
    ($($n:ident |$i:ident| $e:expr;)*) => { $(
        pub fn $n() -> &'static List {
            static L: OnceLock<List> = OnceLock::new();
            L.get_or_init(|| types().iter().filter(|$i| $e).collect())
        }
    )* };
}
fn is_map_struct(i: &Info) -> bool {
    matches!((i.ty)(), Ty::Struct(s) if s.shape == Shape::Map)
}
lists! {
    all |i| { let _ = i; true };
    decodable |i| i.dec.is_some();
    builtin |i| !i.derived;
    builtin_dec |i| !i.derived && i.dec.is_some();
    derived |i| i.derived;
    odd |i| !i.odd.is_empty();
    odd_dec |i| !i.odd.is_empty() && i.dec.is_some();
    map_structs |i| i.dec.is_some() && is_map_struct(i);
    map_structs_enc |i| is_map_struct(i);
    structs |i| i.dec.is_some() && matches!((i.ty)(), Ty::Struct(_));
    enums |i| i.dec.is_some() && matches!((i.ty)(), Ty::Enum(_));
    enums_enc |i| matches!((i.ty)(), Ty::Enum(_));
    sized |i| i.dec.is_some() && matches!((i.ty)(), Ty::Tup(_) | Ty::Arr(..) | Ty::ByteArr(_) | Ty::Unit);
    as_maps |i| i.as_map.is_some();
    hashed |i| uses((i.ty)(), 4, &|t| matches!(t, Ty::Map(..) | Ty::Set(..)));
    scalars |i| !i.derived && i.dec.is_some()
        && matches!((i.ty)(), Ty::Int(..) | Ty::U128 | Ty::Bool | Ty::Char | Ty::Str | Ty::Bytes | Ty::ByteArr(_) | Ty::Unit);
    recursive |i| matches!(i.name, "Value" | "Tree" | "Expr" | "Vec<Value>" | "Vec<Tree>");
}
pub fn pick(t: &mut Tape, l: &'static List) -> &'static Info {
    l[t.below(l.len() as u64) as usize]
}
pub fn id(i: &Info, b: &[u8]) -> u64 {
    engine::rng::mix(hash_bytes(i.name.as_bytes()) ^ hash_bytes(b))
}

/// Raw values inside, in canonical order where there is one.
pub fn canon_mv(v: MV) -> MV {
    match v {
        MV::Val(m) => MV::Val(canonical(&m).unwrap_or(m)),
        MV::Opt(Some(x)) => MV::Opt(Some(Box::new(canon_mv(*x)))),
        MV::Seq(v) => MV::Seq(v.into_iter().map(canon_mv).collect()),
        MV::Struct(v) => MV::Struct(v.into_iter().map(canon_mv).collect()),
        MV::Enum(i, v) => MV::Enum(i, v.into_iter().map(canon_mv).collect()),
        MV::Map(v) => MV::Map(v.into_iter().map(|(k, x)| (canon_mv(k), canon_mv(x))).collect()),
        o => o,
    }
}

/// The wire form the model prescribes; nothing when the value has none (keys that coincide, too deep).
pub fn wire_of(i: &Info, v: &MV) -> Option<M> {
    let m = canonical(&enc((i.ty)(), v, Mode::Core)).ok()?;
    if m.depth() > 120 {
        return None;
    }
    Some(m)
}

pub struct Encoded {
    pub want: M,
    pub bytes: Vec<u8>,
    pub value: oasis_cbor::Value,
}

/// Encodes through every entry point and compares with the model.
pub fn encode(i: &Info, v: &MV) -> Result<Option<Encoded>, Fail> {
    let Some(want) = wire_of(i, v) else { return Ok(None) };
    // How the value came about (capacities, insertion orders, removals) must not matter.
    let h = hash_bytes(&raw(&want));
    let bytes = if h & 1 == 0 { (i.to_vec)(v)? } else { with_history(h, || (i.to_vec)(v))? };
    check!(
        bytes == raw(&want),
        "{}: {} encodes to {}; its canonical form is {} = {}",
        named(i), showv(v), show(&bytes), show(&raw(&want)), showm(&want)
    );
    let value = if h & 2 == 0 { (i.to_value)(v)? } else { with_history(h, || (i.to_value)(v))? };
    let m = from_value(&value);
    check!(
        m.as_ref().and_then(|m| canonical(m).ok()).as_ref() == Some(&want),
        "{}: {} converts to the in-memory value {:?}; it must be {}",
        named(i), showv(v), value, showm(&want)
    );
    let mut out = Vec::new();
    let w = value.clone();
    let r = lib("writer::write", || oasis_cbor::writer::write(w, &mut out))?;
    check!(r.is_ok() && out == bytes, "{}: writing the in-memory value of {} gives {} ({:?}), to_vec gives {}", named(i), showv(v), show(&out), r, show(&bytes));
    let ty = (i.ty)();
    let (empty, opt) = if h & 4 == 0 { (i.to_optional)(v)? } else { with_history(h, || (i.to_optional)(v))? };
    if !matches!(ty, Ty::Struct(_) | Ty::Enum(_)) && !uses(ty, 3, &|t| matches!(t, Ty::Struct(_) | Ty::Enum(_))) {
        check!(empty == is_empty(ty, v), "{}: is_empty of {} is {}", named(i), showv(v), empty);
    }
    let om = omitted(ty, v, Mode::Core);
    check!(opt.is_none() == om, "{}: as an optional field, {} is {}, it must be {}", named(i), showv(v), if opt.is_none() { "left out" } else { "written" }, if om { "left out" } else { "written" });
    if let Some(o) = opt {
        let m = from_value(&o).and_then(|m| canonical(&m).ok());
        check!(m.as_ref() == Some(&want), "{}: as an optional field, {} is written as {:?}; it must be {}", named(i), showv(v), o, showm(&want));
    }
    Ok(Some(Encoded { want, bytes, value }))
}

pub type Want = Result<MV, Faults>;

pub fn compare(i: &Info, what: &str, input: &dyn Fn() -> String, want: &Want, got: Result<MV, EK>) -> R {
    match (want, got) {
        (Ok(w), Ok(g)) => {
            let w = (i.norm)(w);
            check!(g == w, "{}: {} of {} gives {}; it denotes {}", named(i), what, input(), showv(&g), showv(&w));
        }
        (Ok(w), Err(e)) => {
            return Err(Fail::new(format!("{}: {} of {} is refused ({:?}); it denotes {}", named(i), what, input(), e, showv(w))))
        }
        (Err(f), Ok(g)) => {
            return Err(Fail::new(format!("{}: {} of {} gives {}; it must be refused ({:?})", named(i), what, input(), showv(&g), f)))
        }
        (Err(f), Err(e)) => {
            check!(f.contains(&e), "{}: {} of {} reports {:?}; what is wrong with it is {:?}", named(i), what, input(), e, f);
        }
    }
    Ok(())
}
fn parsing() -> Want {
    Err([EK::Parsing].into_iter().collect())
}

/// Decodes an item as in-memory value and, where it has an encoding, as bytes in both modes.
pub fn judge(i: &Info, m: &M) -> Result<Want, Fail> {
    let d = i.dec.as_ref().expect("decodable");
    let ty = (i.ty)();
    let want = dec_d(ty, m);
    let input = || showm(m);
    compare(i, "from_value", &input, &want, (d.from_value)(to_value(m))?)?;
    if let Ok(c) = canonical(m) {
        let b = raw(&c);
        let wb = if c.depth() > LIMIT { parsing() } else if c == *m { want.clone() } else { dec_d(ty, &c) };
        let input = || format!("{} = {}", show(&b), showm(&c));
        compare(i, "from_slice", &input, &wb, (d.from_slice)(&b)?)?;
        compare(i, "from_slice_non_strict", &input, &wb, (d.from_slice_non_strict)(&b)?)?;
    } else {
        let b = raw(m);
        let wb = if m.depth() > LIMIT { parsing() } else { want.clone() };
        let input = || format!("{} = {}", show(&b), showm(m));
        compare(i, "from_slice", &input, &parsing(), (d.from_slice)(&b)?)?;
        compare(i, "from_slice_non_strict", &input, &wb, (d.from_slice_non_strict)(&b)?)?;
    }
    Ok(want)
}

/// Decodes bytes in both modes.
pub fn judge_bytes(i: &Info, b: &[u8]) -> Result<(bool, bool), Fail> {
    let d = i.dec.as_ref().expect("decodable");
    let ty = (i.ty)();
    let s = match wire::strict(b, Some(LIMIT as i8)) {
        Ok(m) => dec_d(ty, &m),
        Err(_) => parsing(),
    };
    let l = match wire::lenient(b, Some(LIMIT as i8)) {
        Ok((m, _)) => dec_d(ty, &m),
        Err(_) => parsing(),
    };
    let input = || show(b);
    let gs = (d.from_slice)(b)?;
    let gl = (d.from_slice_non_strict)(b)?;
    if let Ok(x) = &gs {
        check!(gl.as_ref() == Ok(x), "{}: strict decoding of {} gives {}, non-strict gives {:?}", named(i), show(b), showv(x), gl);
    }
    compare(i, "from_slice", &input, &s, gs)?;
    compare(i, "from_slice_non_strict", &input, &l, gl)?;
    Ok((s.is_ok(), l.is_ok()))
}

/// The round trip of one value.
pub fn round_trip(i: &Info, v: &MV) -> Result<Option<Encoded>, Fail> {
    let Some(e) = encode(i, v)? else { return Ok(None) };
    let Some(d) = &i.dec else { return Ok(Some(e)) };
    if e.want.depth() > LIMIT {
        return Ok(Some(e));
    }
    let ty = (i.ty)();
    let want = dec_d(ty, &e.want);
    if i.lossless {
        if let Some(w) = without_skipped(ty, v) {
            let w = canon_mv((i.norm)(&w));
            sane!(want.clone().map(|x| canon_mv((i.norm)(&x))) == Ok(w.clone()), "{}: the model loses {} ({:?} from {})", named(i), showv(v), want, showm(&e.want));
            let got = (d.from_slice)(&e.bytes)?;
            check!(got.clone().map(canon_mv) == Ok(w.clone()), "{}: {} encodes to {}, which decodes to {:?}", named(i), showv(v), show(&e.bytes), got);
        }
    }
    let input = || format!("{} (encoding of {})", show(&e.bytes), showv(v));
    compare(i, "from_slice", &input, &want, (d.from_slice)(&e.bytes)?)?;
    compare(i, "from_slice_non_strict", &input, &want, (d.from_slice_non_strict)(&e.bytes)?)?;
    // Raw values inside keep the order their maps have in memory.
    let got = (d.from_value)(e.value.clone())?.map(canon_mv);
    let wv = want.clone().map(|w| canon_mv((i.norm)(&w)));
    compare(i, "from_value", &input, &wv, got)?;
    Ok(Some(e))
}

/// An encoding of a generated value, mutated a few times.
pub fn mutated(t: &mut Tape, i: &Info, ops: &[Op], max: u64) -> Option<(M, M, usize)> {
    let v = gen_top(t, (i.ty)());
    let good = wire_of(i, &v)?;
    let mut m = good.clone();
    let vocab = vocabulary((i.ty)());
    let n = 1 + t.below(max);
    let mut done = 0;
    for _ in 0..n {
        let op = *t.pick(ops);
        done += mutate(t, &mut m, op, &vocab) as usize;
    }
    if m.depth() > 200 {
        return None;
    }
    Some((good, m, done))
}

pub fn outcome(c: &mut Ctx, w: &Want) {
    c.class(match w {
        Ok(_) => "decodes",
        Err(f) if f.contains(&EK::Unknown) => "refused: unknown field",
        Err(f) if f.contains(&EK::Missing) => "refused: missing field",
        Err(f) if f.contains(&EK::Parsing) => "refused: parsing",
        Err(_) => "refused: type or size",
    });
}
