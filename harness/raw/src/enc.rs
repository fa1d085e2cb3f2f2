use crate::read::{show, value_of};
use engine::{check, lib, sane, sub, Ctx, Sub, Tape, R};
use oasis_cbor::reader::{self, DecoderError};
use oasis_cbor::writer::{self, EncoderError};
use refmodel::gen;
use refmodel::value::from_value;
use refmodel::wire::{self, M};

fn encode(t: &mut Tape, m: &M) -> Result<(Result<(), EncoderError>, Vec<u8>, Vec<u8>), engine::Fail> {
    let prefix = if t.chance(1, 3) { t.bytes(20) } else { Vec::new() };
    let mut out = prefix.clone();
    let v = value_of(m);
    let r = match t.below(3) {
        0 => lib("writer::write", || writer::write(v, &mut out))?,
        1 => lib("write_nested", || writer::write_nested(v, &mut out, Some(127)))?,
        _ => lib("write_nested", || writer::write_nested(v, &mut out, None))?,
    };
    Ok((r, prefix, out))
}

fn c03_tree(t: &mut Tape, c: &mut Ctx) -> R {
    let m = gen::tree(t);
    let m = gen::shuffle(t, &m);
    let canon = wire::canonical(&m).map_err(|_| engine::Fail::internal("dedup left duplicates"))?;
    let want = wire::raw(&canon);
    let (r, prefix, out) = encode(t, &m)?;
    check!(r.is_ok(), "encoding {:?} fails with {:?}", m, r);
    check!(
        out.len() >= prefix.len() && out[..prefix.len()] == prefix[..],
        "encoding {:?} overwrote the buffer: had {}, now {}",
        m,
        show(&prefix),
        show(&out)
    );
    let got = &out[prefix.len()..];
    check!(got == &want[..], "encoding {:?} gives {}, canonical is {}", m, show(got), show(&want));
    let back = lib("read_nested", || reader::read_nested(got, Some(127)))?;
    match back {
        Ok(v) => {
            check!(from_value(&v) == Some(canon.clone()), "{} decodes to {:?}, encoded was {:?}", show(got), v, m);
        }
        Err(e) => check!(false, "encoding of {:?} ({}) is not decodable: {:?}", m, show(got), e),
    }
    if canon != m {
        c.class("not canonical order");
    }
    if m.count() > 2 {
        c.nontrivial_bytes(&wire::raw(&m));
        c.sample(|| format!("{:?} encodes to {}", m, show(&want)));
    }
    Ok(())
}

/// Every order of the entries of a map gives the same bytes.
fn c03_orders(t: &mut Tape, c: &mut Ctx) -> R {
    let m = gen::tree(t);
    let a = gen::shuffle(t, &m);
    let b = gen::shuffle(t, &m);
    let (r1, p1, o1) = encode(t, &a)?;
    let (r2, p2, o2) = encode(t, &b)?;
    check!(r1.is_ok() && r2.is_ok(), "encoding fails: {:?} {:?} for {:?}", r1, r2, a);
    check!(o1[p1.len()..] == o2[p2.len()..], "{:?} and {:?} encode differently: {} / {}", a, b, show(&o1), show(&o2));
    if a != b {
        c.class("different orders");
        c.nontrivial_bytes(&wire::raw(&a));
        c.sample(|| format!("{:?} and {:?} encode alike", a, b));
    }
    Ok(())
}

/// A repeated key anywhere is refused.
fn c03_dup(t: &mut Tape, c: &mut Ctx) -> R {
    let m = gen::tree(t);
    fn maps(m: &M) -> usize {
        match m {
            M::A(v) => v.iter().map(maps).sum(),
            M::Tag(_, x) => maps(x),
            M::Map(v) => (!v.is_empty()) as usize + v.iter().map(|(k, x)| maps(k) + maps(x)).sum::<usize>(),
            _ => 0,
        }
    }
    fn dup(t: &mut Tape, m: &M, n: &mut i64) -> M {
        match m {
            M::A(v) => M::A(v.iter().map(|x| dup(t, x, n)).collect()),
            M::Tag(g, x) => M::Tag(*g, Box::new(dup(t, x, n))),
            M::Map(v) => {
                let here = if v.is_empty() {
                    false
                } else {
                    *n -= 1;
                    *n == -1
                };
                let mut o: Vec<(M, M)> = v.iter().map(|(k, x)| (dup(t, k, n), dup(t, x, n))).collect();
                if here {
                    let i = t.below(o.len() as u64) as usize;
                    let k = o[i].0.clone();
                    // The same key, possibly written in another order inside.
                    let k = gen::shuffle(t, &k);
                    let j = t.below(o.len() as u64 + 1) as usize;
                    let x = if t.chance(1, 2) { o[i].1.clone() } else { M::U(7) };
                    o.insert(j, (k, x));
                }
                M::Map(o)
            }
            o => o.clone(),
        }
    }
    let n = maps(&m);
    if n == 0 {
        c.discard();
        return Ok(());
    }
    let mut at = t.below(n as u64) as i64;
    let d = dup(t, &m, &mut at);
    sane!(wire::canonical(&d).is_err(), "no duplicate placed");
    let (r, _, out) = encode(t, &d)?;
    check!(
        r == Err(EncoderError::DuplicateMapKey),
        "value with a repeated map key {:?}: result {:?}, bytes {}",
        d,
        r,
        show(&out)
    );
    c.nontrivial_bytes(&wire::raw(&d));
    c.sample(|| format!("refused as duplicate: {:?}", d));
    Ok(())
}

/// Maps over close keys: encodes iff the keys differ.
fn c03_keys(t: &mut Tape, c: &mut Ctx) -> R {
    t.budget = 8;
    let n = 2 + t.below(4);
    let mut keys: Vec<M> = vec![gen::dedup(&gen::item(t, 2))];
    for _ in 1..n {
        let i = t.below(keys.len() as u64) as usize;
        let k = keys[i].clone();
        let k = gen::near(t, &k);
        keys.push(gen::dedup(&k));
    }
    let m = M::Map(keys.into_iter().enumerate().map(|(i, k)| (k, M::U(i as u64))).collect());
    let m = gen::shuffle(t, &m);
    let (r, p, out) = encode(t, &m)?;
    match wire::canon_bytes(&m) {
        Ok(w) => {
            check!(r.is_ok(), "encoding {:?} fails with {:?}", m, r);
            check!(out[p.len()..] == w[..], "encoding {:?} gives {}, canonical is {}", m, show(&out[p.len()..]), show(&w));
            c.class("distinct");
        }
        Err(()) => {
            check!(r == Err(EncoderError::DuplicateMapKey), "{:?} has a repeated key, result {:?}", m, r);
            c.class("repeated");
        }
    }
    c.nontrivial_bytes(&wire::raw(&m));
    c.sample(|| format!("{:?}", m));
    Ok(())
}

/// Integers and lengths around every head width.
fn c03_heads(t: &mut Tape, c: &mut Ctx) -> R {
    let n = t.int();
    let m = match t.below(7) {
        0 => M::U(n),
        1 => M::N(n),
        2 => M::Tag(n, Box::new(M::U(0))),
        3 => M::B(vec![0x55; (n % 70_000) as usize]),
        4 => M::T("x".repeat((n % 70_000) as usize)),
        5 => M::A(vec![M::U(1); (n % 66_000) as usize]),
        _ => M::Map((0..n % 66_000).map(|i| (M::U(i), M::U(0))).collect()),
    };
    let (r, p, out) = encode(t, &m)?;
    check!(r.is_ok(), "encoding an item with argument {} fails: {:?}", n, r);
    let w = wire::raw(&m);
    check!(out[p.len()..] == w[..], "head of argument {}: got {}, want {}", n, show(&out[p.len()..]), show(&w));
    c.nontrivial_bytes(&w[..w.len().min(12)]);
    c.sample(|| show(&w));
    Ok(())
}

pub fn c03() -> Vec<Sub> {
    vec![
        sub("tree", c03_tree, 150_000, 60_000),
        sub("orders", c03_orders, 60_000, 20_000),
        sub("dup", c03_dup, 100_000, 20_000),
        sub("keys", c03_keys, 200_000, 60_000),
        sub("heads", c03_heads, 30_000, 0),
    ]
}

fn all(m: &M, lim: Option<i8>, want: bool) -> R {
    let canon = wire::canonical(m).map_err(|_| engine::Fail::internal("duplicates"))?;
    let b = wire::raw(&canon);
    let r = lib("read_nested", || reader::read_nested(&b, lim))?;
    let d = m.depth();
    check!(
        match &r {
            Ok(_) => want,
            Err(e) => !want && *e == DecoderError::TooMuchNesting,
        },
        "strict decoding with limit {:?} of depth {} ({}) gives {:?}",
        lim,
        d,
        show(&b),
        r.map(|_| ())
    );
    let r = lib("read_nested_non_strict", || reader::read_nested_non_strict(&b, lim))?;
    check!(
        match &r {
            Ok(_) => want,
            Err(e) => !want && *e == DecoderError::TooMuchNesting,
        },
        "non-strict decoding with limit {:?} of depth {} ({}) gives {:?}",
        lim,
        d,
        show(&b),
        r.map(|_| ())
    );
    let mut out = Vec::new();
    let v = value_of(m);
    let r = lib("write_nested", || writer::write_nested(v, &mut out, lim))?;
    check!(
        match &r {
            Ok(_) => want,
            Err(e) => !want && *e == EncoderError::TooMuchNesting,
        },
        "encoding with limit {:?} of depth {} ({}) gives {:?}",
        lim,
        d,
        show(&b),
        r
    );
    Ok(())
}

/// A chain of the exact depth around a limit.
fn c07_chain(t: &mut Tape, c: &mut Ctx) -> R {
    let lim = t.draw(255, |r, _| r.below(256)) as u8 as i8;
    let delta = t.below(5) as i64 - 2;
    let d = (lim as i64 + delta).max(0) as usize;
    let leaf = match t.below(4) {
        0 => M::U(1),
        1 => M::A(vec![]),
        2 => M::Map(vec![]),
        _ => wire::NULL,
    };
    let m = gen::wrap_deep(t, leaf, d);
    sane!(m.depth() == d, "depth");
    let want = d as i64 <= lim as i64;
    all(&m, Some(lim), want)?;
    all(&m, None, true)?;
    // Fixed default limits.
    let b = wire::raw(&m);
    let r = lib("read", || reader::read(&b))?;
    check!(r.is_ok() == (d <= 127), "read of depth {} gives {:?}", d, r.map(|_| ()));
    let mut out = Vec::new();
    let r = lib("write", || writer::write(value_of(&m), &mut out))?;
    check!(r.is_ok() == (d <= 127), "write of depth {} gives {:?}", d, r);
    let r = lib("from_slice", || oasis_cbor::from_slice::<oasis_cbor::Value>(&b))?;
    check!(r.is_ok() == (d <= 64), "from_slice::<Value> of depth {} gives {:?}", d, r.map(|_| ()));
    let r = lib("from_slice_non_strict", || oasis_cbor::from_slice_non_strict::<oasis_cbor::Value>(&b))?;
    check!(r.is_ok() == (d <= 64), "from_slice_non_strict::<Value> of depth {} gives {:?}", d, r.map(|_| ()));
    let r = lib("cbor_from_slice", || crate::difffuzz::cbor_from_slice(b.as_ptr(), b.len()))?;
    check!((r == 0) == (d <= 64), "cbor_from_slice of depth {} gives {}", d, r);
    c.class(if want { "within" } else { "beyond" });
    c.nontrivial_bytes(&[&b[..], &[lim as u8]].concat());
    c.sample(|| format!("depth {} under limit {}: {}", d, lim, show(&b)));
    Ok(())
}

/// Branching trees with limits around their depth.
fn c07_tree(t: &mut Tape, c: &mut Ctx) -> R {
    let m = gen::tree(t);
    let m = if t.chance(1, 2) { gen::shuffle(t, &m) } else { m };
    let d = m.depth() as i64;
    let lim = (d + t.below(5) as i64 - 2).clamp(-128, 127);
    all(&m, Some(lim as i8), d <= lim)?;
    all(&m, None, true)?;
    c.class(if d <= lim { "within" } else { "beyond" });
    if d > 0 {
        c.nontrivial_bytes(&[&wire::raw(&m)[..], &[lim as i8 as u8]].concat());
        c.sample(|| format!("depth {} under limit {}: {:?}", d, lim, m));
    }
    Ok(())
}

/// Far beyond any limit, without a limit.
fn c07_unlimited(t: &mut Tape, c: &mut Ctx) -> R {
    let d = 128 + t.below(700) as usize;
    let m = gen::wrap_deep(t, M::U(0), d);
    all(&m, None, true)?;
    all(&m, Some(127), false)?;
    all(&m, Some(-1), false)?;
    c.class("unlimited");
    c.nontrivial_bytes(&wire::raw(&m));
    Ok(())
}

pub fn c07() -> Vec<Sub> {
    vec![
        sub("chain", c07_chain, 12_000, 0),
        sub("tree", c07_tree, 60_000, 20_000),
        sub("unlimited", c07_unlimited, 500, 0),
    ]
}
