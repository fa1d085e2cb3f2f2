use engine::json::hex;
use engine::{check, lib, sane, sub, Ctx, Sub, Tape, R};
use oasis_cbor::reader::{self, DecoderError};
use oasis_cbor::Value;
use refmodel::gen;
use refmodel::value::{from_value, to_value};
use refmodel::wire::{self, DefectEnc, DefectKind, M};

pub fn show(b: &[u8]) -> String {
    if b.len() > 200 {
        format!("{}...({} bytes)", hex(&b[..200]), b.len())
    } else {
        hex(b)
    }
}

type Dec = Result<Value, DecoderError>;

/// Limit, bytes -> strict decoding by one of the entry points that allow it.
fn lib_strict(t: &mut Tape, b: &[u8], limit: Option<i8>) -> Result<Dec, engine::Fail> {
    if limit == Some(127) && t.chance(1, 2) {
        lib("reader::read", || reader::read(b))
    } else {
        lib("reader::read_nested", || reader::read_nested(b, limit))
    }
}

fn limit(t: &mut Tape) -> Option<i8> {
    match t.weighted(&[6, 2, 1, 1]) {
        0 => Some(127),
        1 => Some(64),
        2 => None,
        _ => Some(t.draw(255, |r, _| r.below(8)) as u8 as i8),
    }
}

/// Compares strict decoding with the reference decoder.
fn agree_strict(t: &mut Tape, b: &[u8], lim: Option<i8>) -> Result<Option<M>, engine::Fail> {
    let want = wire::strict(b, lim);
    let got = lib_strict(t, b, lim)?;
    match (want, got) {
        (Ok(m), Ok(v)) => {
            let g = from_value(&v);
            check!(g.as_ref() == Some(&m), "strict decoding of {} gives {:?}, the bytes denote {:?}", show(b), v, m);
            Ok(Some(m))
        }
        (Ok(m), Err(e)) => Err(engine::Fail::new(format!(
            "strict decoding (limit {:?}) refuses {} with {:?}; it is the canonical encoding of {:?}",
            lim, show(b), e, m
        ))),
        (Err(e), Ok(v)) => Err(engine::Fail::new(format!(
            "strict decoding (limit {:?}) accepts {} as {:?}; it must be refused ({:?})",
            lim, show(b), v, e
        ))),
        (Err(_), Err(_)) => Ok(None),
    }
}

fn accept(t: &mut Tape, c: &mut Ctx) -> R {
    let m = gen::canonical_tree(t);
    let b = wire::raw(&m);
    let lim = limit(t);
    let fits = lim.map_or(true, |n| m.depth() as i64 <= n as i64);
    sane!(wire::strict(&b, lim).is_ok() == fits, "reference decoder disagrees with depth");
    let r = agree_strict(t, &b, lim)?;
    if r.is_some() && m.count() > 2 {
        c.class("accepted tree");
        c.nontrivial_bytes(&b);
        c.sample(|| format!("accepts {} as {:?}", show(&b), m));
    }
    Ok(())
}

fn single_defect(t: &mut Tape, c: &mut Ctx) -> R {
    let m = gen::canonical_tree(t);
    let good = wire::raw(&m);
    let kind = t.below(10);
    let (bytes, want, name): (Vec<u8>, Vec<DecoderError>, &str) = match kind {
        7 => {
            // Any proper prefix.
            let n = t.below(good.len() as u64) as usize;
            (good[..n].to_vec(), vec![DecoderError::IncompleteCborData], "prefix")
        }
        8 => {
            let mut b = good.clone();
            let extra = t.fill(3);
            let n = 1 + t.below(3) as usize;
            b.extend_from_slice(&extra[..n]);
            (b, vec![DecoderError::ExtraneousData], "trailing")
        }
        9 => {
            // The outermost announced length is larger than what follows.
            let (major, n) = match &m {
                M::B(x) => (2, x.len() as u64),
                M::T(x) => (3, x.len() as u64),
                M::A(x) => (4, x.len() as u64),
                M::Map(x) => (5, x.len() as u64),
                _ => {
                    c.discard();
                    return Ok(());
                }
            };
            let more = n.saturating_add(1).saturating_add(t.int());
            let hl = 1 + wire::min_width(n) as usize;
            let mut b = Vec::new();
            wire::head(major, more, &mut b);
            b.extend_from_slice(&good[hl..]);
            (b, vec![DecoderError::IncompleteCborData], "length")
        }
        k => {
            use DefectKind::*;
            let kind = [Overlong, Utf8, Swap, Dup, Reserved, Simple, Float][k as usize];
            let mut e = DefectEnc { kind, target: usize::MAX, seen: 0, done: false, choose: &mut |_| 0 };
            e.go(&m, &mut Vec::new());
            let places = e.seen;
            if places == 0 {
                c.discard();
                return Ok(());
            }
            let target = t.below(places as u64) as usize;
            let mut b = Vec::new();
            let mut choose = |n: u64| if n == u64::MAX { t.int() } else { t.below(n) };
            let mut e = DefectEnc { kind, target, seen: 0, done: false, choose: &mut choose };
            e.go(&m, &mut b);
            sane!(e.done, "defect not placed");
            let (want, name) = match kind {
                Overlong => (vec![DecoderError::NonMinimalCborEncoding], "over-long head"),
                Utf8 => (vec![DecoderError::InvalidUtf8], "utf-8"),
                Swap => (vec![DecoderError::OutOfOrderKey], "key order"),
                Dup => (vec![DecoderError::OutOfOrderKey], "repeated key"),
                Reserved => (vec![DecoderError::UnknownAdditionalInfo], "reserved head"),
                Simple => (vec![DecoderError::UnsupportedSimpleValue], "simple value"),
                Float => (
                    vec![DecoderError::UnsupportedFloatingPointValue, DecoderError::NonMinimalCborEncoding],
                    "float",
                ),
            };
            (b, want, name)
        }
    };
    sane!(wire::strict(&bytes, Some(127)).is_err(), "reference decoder accepts a defect: {} {}", name, show(&bytes));
    let got = lib_strict(t, &bytes, Some(127))?;
    match got {
        Ok(v) => Err(engine::Fail::new(format!(
            "strict decoding accepts {} as {:?}, although it has a defect ({}) in an encoding of {:?}",
            show(&bytes),
            v,
            name,
            m
        ))),
        Err(e) => {
            check!(
                want.contains(&e),
                "strict decoding of {} reports {:?}; its only defect ({}) calls for {:?}",
                show(&bytes),
                e,
                name,
                want
            );
            c.class(name);
            if m.count() > 1 {
                c.nontrivial_bytes(&bytes);
                c.sample(|| format!("refuses {} with {:?} ({} injected into {:?})", show(&bytes), e, name, m));
            }
            Ok(())
        }
    }
}

fn too_deep(t: &mut Tape, c: &mut Ctx) -> R {
    let n = t.below(127) as usize;
    let m = M::U(t.below(3));
    let extra = 1 + t.below(4) as usize;
    let m = gen::wrap_deep(t, m, n + extra);
    let b = wire::raw(&m);
    let got = lib("reader::read_nested", || reader::read_nested(&b, Some(n as i8)))?;
    check!(
        got == Err(DecoderError::TooMuchNesting),
        "depth {} under limit {}: {} gives {:?}",
        n + extra,
        n,
        show(&b),
        got
    );
    c.class("nesting");
    c.nontrivial_bytes(&b);
    Ok(())
}

fn noise_strict(t: &mut Tape, c: &mut Ctx) -> R {
    let b = gen::noise(t);
    let lim = if t.chance(1, 4) { limit(t) } else { Some(127) };
    let lim = if b.len() > 1500 && lim.is_none() { Some(100) } else { lim };
    match agree_strict(t, &b, lim)? {
        Some(m) => {
            c.class("accepted");
            if m.count() > 1 {
                c.nontrivial_bytes(&b);
            }
        }
        None => {
            c.class("refused");
            if b.len() > 1 {
                c.nontrivial_bytes(&b);
                c.sample(|| format!("both refuse {}", show(&b)));
            }
        }
    }
    Ok(())
}

/// All inputs of up to three bytes, and four bytes with a chosen last one.
fn exhaustive(t: &mut Tape, c: &mut Ctx) -> R {
    let i = c.index;
    let p = t.draw(65535, |_, _| i & 65535);
    let a = [(p >> 8) as u8, p as u8];
    agree_strict(t, &a[..1], Some(127))?;
    agree_strict(t, &a, Some(127))?;
    if p == 0 {
        agree_strict(t, &[], Some(127))?;
    }
    for z in 0..=255u8 {
        agree_strict(t, &[a[0], a[1], z], Some(127))?;
        agree_strict(t, &[a[0], a[1], z, 0], Some(127))?;
        agree_strict(t, &[a[0], a[1], z, 0xff], Some(127))?;
    }
    c.nontrivial(p);
    c.sample(|| format!("all 3-byte inputs starting {}", hex(&a)));
    Ok(())
}

/// Two-entry maps over a pool of short keys: every ordered pair, accepted iff ascending.
fn key_pairs(t: &mut Tape, c: &mut Ctx) -> R {
    t.budget = 6;
    let a = gen::item(t, 3);
    let a = wire::canonical(&gen::dedup(&a)).unwrap();
    let mut b = gen::near(t, &a);
    if t.chance(1, 2) {
        b = gen::near(t, &b);
    }
    let b = wire::canonical(&gen::dedup(&b)).unwrap();
    let (x, y) = if t.chance(1, 2) { (a, b) } else { (b, a) };
    let m = M::Map(vec![(x.clone(), M::U(1)), (y.clone(), M::U(2))]);
    let bytes = wire::raw(&m);
    let want = wire::raw(&x) < wire::raw(&y);
    let got = lib_strict(t, &bytes, Some(127))?;
    match got {
        Ok(v) => {
            check!(want, "map with keys out of order accepted: {} as {:?}", show(&bytes), v);
            check!(from_value(&v) == Some(m.clone()), "{} decodes to {:?}", show(&bytes), v);
        }
        Err(e) => {
            check!(!want, "map with ascending keys refused: {} with {:?}", show(&bytes), e);
            check!(e == DecoderError::OutOfOrderKey, "{} refused with {:?}", show(&bytes), e);
        }
    }
    c.class(if want { "ascending" } else { "not ascending" });
    c.nontrivial_bytes(&bytes);
    c.sample(|| format!("key pair {}", show(&bytes)));
    Ok(())
}

pub fn c01() -> Vec<Sub> {
    vec![
        sub("accept", accept, 120_000, 40_000),
        sub("single_defect", single_defect, 300_000, 60_000),
        sub("too_deep", too_deep, 10_000, 0),
        sub("key_pairs", key_pairs, 150_000, 20_000),
        sub("noise", noise_strict, 250_000, 400_000),
        sub("exhaustive", exhaustive, 65_536, 0),
    ]
}

fn reencode(b: &[u8], lim: Option<i8>) -> Result<Option<Value>, engine::Fail> {
    let v = match lib("reader::read_nested", || reader::read_nested(b, lim))? {
        Ok(v) => v,
        Err(_) => return Ok(None),
    };
    let mut out = Vec::new();
    let r = lib("writer::write_nested", || oasis_cbor::writer::write_nested(v.clone(), &mut out, lim))?;
    check!(r.is_ok(), "strict decoding accepts {} but encoding the result fails: {:?}", show(b), r);
    check!(out == b, "strict decoding accepts {} but encoding the result gives {}", show(b), show(&out));
    if lim == Some(127) {
        let mut out = Vec::new();
        let r = lib("writer::write", || oasis_cbor::writer::write(v.clone(), &mut out))?;
        check!(r.is_ok() && out == b, "read accepts {} but write gives {:?} {}", show(b), r, show(&out));
    }
    Ok(Some(v))
}

fn c02_tree(t: &mut Tape, c: &mut Ctx) -> R {
    let m = gen::canonical_tree(t);
    let b = wire::raw(&m);
    let lim = limit(t);
    if reencode(&b, lim)?.is_some() && m.count() > 1 {
        c.class("accepted");
        c.nontrivial_bytes(&b);
        c.sample(|| format!("{} re-encodes to itself", show(&b)));
    } else {
        c.class("refused or trivial");
    }
    Ok(())
}
fn c02_noise(t: &mut Tape, c: &mut Ctx) -> R {
    let b = gen::noise(t);
    let lim = if b.len() > 1000 { Some(127) } else { limit(t) };
    if reencode(&b, lim)?.is_some() {
        c.class("accepted");
        if b.len() > 1 {
            c.nontrivial_bytes(&b);
            c.sample(|| format!("{} re-encodes to itself", show(&b)));
        }
    } else {
        c.class("refused");
    }
    Ok(())
}
/// Whatever variation of an encoding is accepted must mean something else.
fn c02_pair(t: &mut Tape, c: &mut Ctx) -> R {
    let m = gen::canonical_tree(t);
    let b1 = wire::raw(&m);
    let mut b2 = b1.clone();
    match t.below(3) {
        0 => {
            let m2 = gen::near(t, &m);
            b2 = gen::sloppy(t, &m2);
        }
        1 => b2 = gen::sloppy(t, &m),
        _ => {}
    }
    let n = t.below(3);
    for _ in 0..n {
        gen::mutate_bytes(t, &mut b2);
    }
    let v1 = reencode(&b1, Some(127))?;
    let v2 = reencode(&b2, Some(127))?;
    if let (Some(v1), Some(v2)) = (v1, v2) {
        let eq = lib("Value::eq", || v1 == v2)?;
        check!(
            eq == (b1 == b2),
            "{} and {} both decode; values compare equal: {} ({:?} / {:?})",
            show(&b1),
            show(&b2),
            eq,
            v1,
            v2
        );
        c.class(if eq { "same bytes" } else { "different bytes" });
        if !eq {
            c.nontrivial_bytes(&b2);
            c.sample(|| format!("{} and {} decode to different values", show(&b1), show(&b2)));
        }
    } else {
        c.class("refused");
    }
    Ok(())
}
fn c02_exhaustive(t: &mut Tape, c: &mut Ctx) -> R {
    let i = c.index;
    let p = t.draw(65535, |_, _| i & 65535);
    let a = [(p >> 8) as u8, p as u8];
    reencode(&a[..1], Some(127))?;
    reencode(&a, Some(127))?;
    for z in 0..=255u8 {
        reencode(&[a[0], a[1], z], Some(127))?;
    }
    c.nontrivial(p);
    Ok(())
}
/// Map inputs whose keys are built to be close: what is accepted must re-encode identically.
fn c02_maps(t: &mut Tape, c: &mut Ctx) -> R {
    t.budget = 10;
    let n = 1 + t.below(5);
    let mut keys: Vec<M> = Vec::new();
    for _ in 0..n {
        let k = if !keys.is_empty() && t.chance(2, 3) {
            let i = t.below(keys.len() as u64) as usize;
            let k = keys[i].clone();
            gen::near(t, &k)
        } else {
            gen::item(t, 2)
        };
        keys.push(wire::canonical(&gen::dedup(&k)).unwrap());
    }
    if t.chance(3, 4) {
        keys.sort_by(wire::canon_cmp);
    }
    let m = M::Map(keys.into_iter().map(|k| (k, wire::NULL)).collect());
    let b = gen::sloppy(t, &m);
    if reencode(&b, Some(127))?.is_some() {
        c.class("accepted");
        c.nontrivial_bytes(&b);
        c.sample(|| show(&b));
    } else {
        c.class("refused");
    }
    Ok(())
}

pub fn c02() -> Vec<Sub> {
    vec![
        sub("tree", c02_tree, 120_000, 40_000),
        sub("noise", c02_noise, 250_000, 300_000),
        sub("pair", c02_pair, 200_000, 80_000),
        sub("maps", c02_maps, 150_000, 60_000),
        sub("exhaustive", c02_exhaustive, 65_536, 0),
    ]
}

fn lenient_check(b: &[u8], lim: Option<i8>) -> Result<Option<(M, usize)>, engine::Fail> {
    let want = wire::lenient(b, lim);
    let got = lib("read_nested_non_strict", || reader::read_nested_non_strict(b, lim))?;
    match (&want, &got) {
        (Ok((m, _)), Ok(v)) => check!(
            from_value(v).as_ref() == Some(m),
            "non-strict decoding of {} gives {:?}, expected {:?}",
            show(b),
            v,
            m
        ),
        (Ok((m, _)), Err(e)) => check!(
            false,
            "non-strict decoding (limit {:?}) refuses {} with {:?}; it is well-formed: {:?}",
            lim,
            show(b),
            e,
            m
        ),
        (Err(e), Ok(v)) => check!(
            false,
            "non-strict decoding (limit {:?}) accepts {} as {:?}; expected a refusal ({:?})",
            lim,
            show(b),
            v,
            e
        ),
        _ => {}
    }
    let strict = lib("read_nested", || reader::read_nested(b, lim))?;
    if let Ok(s) = strict {
        match got {
            Ok(v) => check!(
                from_value(&s) == from_value(&v),
                "{}: strict gives {:?}, non-strict {:?}",
                show(b),
                s,
                v
            ),
            Err(e) => check!(false, "{}: strict gives {:?}, non-strict refuses with {:?}", show(b), s, e),
        }
    }
    // The C entry point, limit 64.
    let ffi = lib("cbor_from_slice", || crate::difffuzz::cbor_from_slice(b.as_ptr(), b.len()))?;
    let want64 = wire::lenient(b, Some(64)).is_ok();
    check!((ffi == 0) == want64, "cbor_from_slice({}) returns {}, well-formed within 64 levels: {}", show(b), ffi, want64);
    let typed = lib("from_slice_non_strict::<Value>", || oasis_cbor::from_slice_non_strict::<Value>(b))?;
    match (wire::lenient(b, Some(64)), typed) {
        (Ok((m, _)), Ok(v)) => {
            let m = if m.is_nullish() { wire::NULL } else { m };
            check!(from_value(&v) == Some(m), "from_slice_non_strict({}) gives {:?}", show(b), v)
        }
        (Err(_), Err(_)) => {}
        (w, g) => check!(false, "from_slice_non_strict({}) gives {:?}, expected {:?}", show(b), g, w),
    }
    Ok(want.ok())
}

/// Well-formed input in all the forms non-strict mode is for.
fn c05_sloppy(t: &mut Tape, c: &mut Ctx) -> R {
    t.set_budget();
    let d = 1 + t.below(4) as usize;
    let m = gen::item(t, d);
    let m = gen::shuffle(t, &m);
    // Unusual items are put in by way of the head writer: see `sloppy`; floats and simples here.
    let mut b = gen::sloppy(t, &m);
    let odd = t.below(3);
    if odd > 0 {
        let mut items: Vec<Vec<u8>> = vec![b];
        let n = 1 + t.below(4);
        for _ in 0..n {
            let x = match t.below(5) {
                0 => {
                    let n = t.int();
                    let mut v = vec![0xf9];
                    v.extend_from_slice(&n.to_be_bytes()[6..]);
                    v
                }
                1 => {
                    let n = t.int();
                    let mut v = vec![0xfa];
                    v.extend_from_slice(&n.to_be_bytes()[4..]);
                    v
                }
                2 => {
                    let n = t.int();
                    let mut v = vec![0xfb];
                    v.extend_from_slice(&n.to_be_bytes());
                    v
                }
                3 => vec![0xf8, t.int_max(255) as u8],
                _ => vec![0xe0 | t.int_max(23) as u8],
            };
            let at = t.below(items.len() as u64 + 1) as usize;
            items.insert(at, x);
        }
        let mut o = Vec::new();
        if odd == 1 {
            wire::head(4, items.len() as u64, &mut o);
        } else {
            if items.len() % 2 == 1 {
                items.push(vec![0]);
            }
            wire::head(5, items.len() as u64 / 2, &mut o);
        }
        for i in &items {
            o.extend_from_slice(i);
        }
        b = o;
    }
    if t.chance(1, 3) {
        let x = t.bytes(20);
        b.extend_from_slice(&x);
        c.class("trailing bytes");
    }
    let lim = limit(t);
    let r = lenient_check(&b, lim)?;
    sane!(r.is_some() || lim.is_some(), "model refuses its own sloppy encoding {}", show(&b));
    if let Some((m, used)) = r {
        c.class("accepted");
        if wire::strict(&b[..used], lim).is_err() {
            c.class("only non-strict");
            c.nontrivial_bytes(&b);
            c.sample(|| format!("{} is {:?}", show(&b), m));
        }
    }
    Ok(())
}
fn c05_noise(t: &mut Tape, c: &mut Ctx) -> R {
    let b = gen::noise(t);
    let lim = if b.len() > 1000 { Some(127) } else { limit(t) };
    match lenient_check(&b, lim)? {
        Some((m, _)) => {
            c.class("accepted");
            if m.count() > 1 {
                c.nontrivial_bytes(&b);
            }
        }
        None => {
            c.class("refused");
            if b.len() > 1 {
                c.nontrivial_bytes(&b);
                c.sample(|| format!("both refuse {}", show(&b)));
            }
        }
    }
    Ok(())
}
fn c05_strict(t: &mut Tape, c: &mut Ctx) -> R {
    let m = gen::canonical_tree(t);
    let b = wire::raw(&m);
    let lim = limit(t);
    lenient_check(&b, lim)?;
    c.nontrivial_bytes(&b);
    Ok(())
}
/// Defects non-strict mode must still refuse.
fn c05_defect(t: &mut Tape, c: &mut Ctx) -> R {
    let m = gen::canonical_tree(t);
    use DefectKind::*;
    let kind = [Utf8, Reserved][t.below(2) as usize];
    let mut e = DefectEnc { kind, target: usize::MAX, seen: 0, done: false, choose: &mut |_| 0 };
    e.go(&m, &mut Vec::new());
    let places = e.seen;
    let mut b = Vec::new();
    if places == 0 {
        b = wire::raw(&m);
        let n = t.below(b.len() as u64) as usize;
        b.truncate(n);
        c.class("prefix");
    } else {
        let target = t.below(places as u64) as usize;
        let mut choose = |n: u64| if n == u64::MAX { t.int() } else { t.below(n) };
        DefectEnc { kind, target, seen: 0, done: false, choose: &mut choose }.go(&m, &mut b);
        c.class(if kind == Utf8 { "utf-8" } else { "reserved head" });
    }
    let r = lenient_check(&b, Some(127))?;
    sane!(r.is_none(), "reference lenient decoder accepts {}", show(&b));
    c.nontrivial_bytes(&b);
    c.sample(|| format!("non-strict refuses {}", show(&b)));
    Ok(())
}
fn c05_exhaustive(t: &mut Tape, c: &mut Ctx) -> R {
    let i = c.index;
    let p = t.draw(65535, |_, _| i & 65535);
    let a = [(p >> 8) as u8, p as u8];
    lenient_check(&a[..1], Some(127))?;
    lenient_check(&a, Some(127))?;
    for z in 0..=255u8 {
        lenient_check(&[a[0], a[1], z], Some(127))?;
    }
    c.nontrivial(p);
    Ok(())
}
/// Items at and around the limits of the entry points: 64 levels, 127 levels, none.
fn c05_deep(t: &mut Tape, c: &mut Ctx) -> R {
    t.budget = 8;
    let d = t.below(2) as usize;
    let m = gen::item(t, d);
    let n = match t.below(4) {
        0 => 60 + t.below(10),
        1 => 122 + t.below(10),
        2 => 62 + t.below(70),
        _ => t.below(60),
    } as usize;
    let m = gen::wrap_deep(t, m, n);
    let m = if t.chance(1, 4) { M::A(vec![M::U(0), m, wire::NULL]) } else { m };
    let mut b = gen::sloppy(t, &m);
    if t.chance(1, 4) {
        b.push(0);
    }
    let lim = if t.chance(1, 2) { limit(t) } else { Some((m.depth() as i64 - 2 + t.below(4) as i64).clamp(0, 127) as i8) };
    let r = lenient_check(&b, lim)?;
    c.class(match m.depth() {
        0..=64 => "within 64 levels",
        65..=127 => "within 127 levels",
        _ => "deeper",
    });
    c.class(if r.is_some() { "accepted" } else { "refused" });
    c.nontrivial_bytes(&b);
    c.sample(|| format!("limit {:?}, {} levels: {}", lim, m.depth(), show(&b)));
    Ok(())
}
pub fn c05() -> Vec<Sub> {
    vec![
        sub("sloppy", c05_sloppy, 150_000, 60_000),
        sub("noise", c05_noise, 150_000, 200_000),
        sub("strict", c05_strict, 60_000, 0),
        sub("defect", c05_defect, 80_000, 0),
        sub("deep", c05_deep, 20_000, 10_000),
        sub("exhaustive", c05_exhaustive, 65_536, 0),
    ]
}

pub fn value_of(m: &M) -> Value {
    to_value(m)
}
