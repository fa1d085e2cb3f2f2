use crate::read::value_of;
use engine::{check, lib, sub, Ctx, Sub, Tape, R};
use refmodel::gen;
use refmodel::wire::{self, M};
use std::cmp::Ordering;

fn related(t: &mut Tape, n: usize, canon: bool) -> Vec<M> {
    t.budget = *t.pick(&[6i64, 20, 60]);
    let d = t.below(4) as usize;
    let fix = |m: M| if canon { wire::canonical(&gen::dedup(&m)).unwrap() } else { m };
    let mut v = vec![fix(gen::item(t, d))];
    while v.len() < n {
        let i = t.below(v.len() as u64) as usize;
        let m = match t.weighted(&[6, 2, 1]) {
            0 => {
                let b = v[i].clone();
                gen::near(t, &b)
            }
            1 => {
                t.budget = 8;
                gen::item(t, 2)
            }
            _ => v[i].clone(),
        };
        v.push(fix(m));
    }
    v
}

fn pairs(t: &mut Tape, c: &mut Ctx) -> R {
    let v = related(t, 2, true);
    let (a, b) = (&v[0], &v[1]);
    let want = wire::canon_cmp(a, b);
    let (x, y) = (value_of(a), value_of(b));
    let got = lib("Value::cmp", || x.cmp(&y))?;
    check!(got == want, "{:?} vs {:?}: cmp is {:?}, encodings compare {:?}", a, b, got, want);
    let got = lib("Value::cmp", || y.cmp(&x))?;
    check!(got == want.reverse(), "{:?} vs {:?}: reversed cmp is {:?}, expected {:?}", b, a, got, want.reverse());
    let eq = lib("Value::eq", || x == y)?;
    check!(eq == (want == Ordering::Equal), "{:?} == {:?} is {}", a, b, eq);
    let ne = lib("Value::ne", || x != y)?;
    check!(ne != eq, "{:?} != {:?} is {} but == is {}", a, b, ne, eq);
    let p = lib("Value::partial_cmp", || x.partial_cmp(&y))?;
    check!(p == Some(want), "{:?} vs {:?}: partial_cmp is {:?}, expected {:?}", a, b, p, want);
    let ops = lib("operators", || (x < y, x <= y, x > y, x >= y))?;
    let w = (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge());
    check!(ops == w, "{:?} vs {:?}: < <= > >= give {:?}, expected {:?}", a, b, ops, w);
    c.class(match want {
        Ordering::Less => "less",
        Ordering::Greater => "greater",
        Ordering::Equal => "equal",
    });
    if want != Ordering::Equal {
        let mut k = wire::raw(a);
        k.extend(wire::raw(b));
        c.nontrivial_bytes(&k);
        c.sample(|| format!("{:?} {:?} {:?}", a, want, b));
    }
    Ok(())
}

/// Axioms of a total order for any values, canonical maps or not.
fn axioms(t: &mut Tape, c: &mut Ctx) -> R {
    let v = related(t, 3, false);
    let x: Vec<_> = v.iter().map(value_of).collect();
    for i in 0..3 {
        let s = lib("Value::cmp", || x[i].cmp(&x[i].clone()))?;
        check!(s == Ordering::Equal, "{:?} does not equal itself: {:?}", v[i], s);
        for j in 0..3 {
            let (a, b) = lib("Value::cmp", || (x[i].cmp(&x[j]), x[j].cmp(&x[i])))?;
            check!(a == b.reverse(), "{:?} vs {:?}: {:?} one way, {:?} the other", v[i], v[j], a, b);
            let (e, p) = lib("Value::eq", || (x[i] == x[j], x[i].partial_cmp(&x[j])))?;
            check!(e == (a == Ordering::Equal), "{:?} vs {:?}: cmp {:?}, == {}", v[i], v[j], a, e);
            check!(p == Some(a), "{:?} vs {:?}: cmp {:?}, partial_cmp {:?}", v[i], v[j], a, p);
            for k in 0..3 {
                let (bc, ac) = lib("Value::cmp", || (x[j].cmp(&x[k]), x[i].cmp(&x[k])))?;
                if a.is_le() && bc.is_le() {
                    check!(ac.is_le(), "not transitive: {:?} <= {:?} <= {:?} but {:?}", v[i], v[j], v[k], ac);
                    if a.is_lt() || bc.is_lt() {
                        check!(ac.is_lt(), "not transitive: {:?} , {:?} , {:?}", v[i], v[j], v[k]);
                    }
                }
            }
        }
    }
    let k: Vec<u8> = v.iter().flat_map(wire::raw).collect();
    c.nontrivial_bytes(&k);
    c.sample(|| format!("{:?}", v));
    Ok(())
}

fn sorting(t: &mut Tape, c: &mut Ctx) -> R {
    let n = 2 + t.below(14) as usize;
    let v = related(t, n, true);
    let mut enc: Vec<(Vec<u8>, &M)> = v.iter().map(|m| (wire::raw(m), m)).collect();
    enc.sort_by(|a, b| a.0.cmp(&b.0));
    let mut x: Vec<_> = v.iter().map(value_of).collect();
    lib("sort", || x.sort())?;
    for (i, (_, m)) in enc.iter().enumerate() {
        check!(
            refmodel::value::from_value(&x[i]).as_ref() == Some(*m),
            "sorted position {} holds {:?}, canonical order has {:?} there",
            i,
            x[i],
            m
        );
    }
    for m in &v {
        let y = value_of(m);
        let f = lib("binary_search", || x.binary_search(&y))?;
        check!(f.is_ok(), "{:?} not found in the sorted list", m);
    }
    enc.dedup_by(|a, b| a.0 == b.0);
    let set: std::collections::BTreeSet<_> = lib("BTreeSet", || x.into_iter().collect())?;
    check!(set.len() == enc.len(), "{} distinct values, {} distinct encodings", set.len(), enc.len());
    let k: Vec<u8> = v.iter().flat_map(wire::raw).collect();
    c.nontrivial_bytes(&k);
    c.sample(|| format!("{} items sort canonically, e.g. {:?}", v.len(), v[0]));
    Ok(())
}

/// Scalars around the widths of the wire form, where numeric and byte order could part.
fn scalars(t: &mut Tape, c: &mut Ctx) -> R {
    let one = |t: &mut Tape| match t.below(5) {
        0 => M::U(t.int()),
        1 => M::N(t.int()),
        2 => {
            let n = t.int_max(300) as usize;
            let x = t.below(3) as u8;
            M::B(vec![x; n])
        }
        3 => {
            let n = t.int_max(300) as usize;
            let s: String = std::iter::repeat(*t.pick(&['a', 'b', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}'])).take(n).collect();
            M::T(s)
        }
        _ => M::S(20 + t.below(4) as u8),
    };
    let (a, b) = (one(t), one(t));
    let (x, y) = (value_of(&a), value_of(&b));
    let got = lib("Value::cmp", || x.cmp(&y))?;
    let want = wire::canon_cmp(&a, &b);
    check!(got == want, "{:?} vs {:?}: cmp is {:?}, encodings compare {:?}", a, b, got, want);
    let mut k = wire::raw(&a);
    k.extend(wire::raw(&b));
    c.nontrivial_bytes(&k);
    c.sample(|| format!("{:?} {:?} {:?}", a, want, b));
    Ok(())
}

pub fn c04() -> Vec<Sub> {
    vec![
        sub("pairs", pairs, 400_000, 100_000),
        sub("axioms", axioms, 80_000, 20_000),
        sub("sorting", sorting, 40_000, 0),
        sub("scalars", scalars, 200_000, 40_000),
    ]
}
