use crate::read::value_of;
use engine::{check, lib, sub, Ctx, Fail, Sub, Tape, R};
use oasis_cbor::values::{IntoCborValue, IntoCborValueOption};
use oasis_cbor::{
    assert_sorted_keys, cbor_array, cbor_array_vec, cbor_bool, cbor_bytes, cbor_bytes_lit, cbor_false, cbor_int, cbor_map,
    cbor_map_collection, cbor_map_options, cbor_null, cbor_tagged, cbor_text, cbor_true, cbor_undefined, cbor_unsigned,
    destructure_cbor_map, SimpleValue, Value,
};
use refmodel::gen;
use refmodel::value::from_value;
use refmodel::wire::{self, M};

fn same(what: &str, got: Value, want: M) -> R {
    check!(from_value(&got) == Some(want.clone()), "{} builds {:?}, written was {:?}", what, got, want);
    Ok(())
}

fn scalars(t: &mut Tape, c: &mut Ctx) -> R {
    let u = t.int();
    let i = t.sint(i64::MIN as i128, i64::MAX as i128) as i64;
    let j = t.sint(i32::MIN as i128, i32::MAX as i128) as i32;
    let b = t.bytes(300);
    let s = t.string(300);
    let f = t.chance(1, 2);
    let sm = M::S(if f { 21 } else { 20 });
    same("u64", lib("into", || u.into_cbor_value())?, M::U(u))?;
    same("i64", lib("into", || i.into_cbor_value())?, M::int(i as i128))?;
    same("i32", lib("into", || j.into_cbor_value())?, M::int(j as i128))?;
    same("Vec<u8>", lib("into", || b.clone().into_cbor_value())?, M::B(b.clone()))?;
    same("&[u8]", lib("into", || (&b[..]).into_cbor_value())?, M::B(b.clone()))?;
    same("String", lib("into", || s.clone().into_cbor_value())?, M::T(s.clone()))?;
    same("&str", lib("into", || s.as_str().into_cbor_value())?, M::T(s.clone()))?;
    same("bool", lib("into", || f.into_cbor_value())?, sm.clone())?;
    same("Value::integer", lib("integer", || Value::integer(i))?, M::int(i as i128))?;
    same("Value::bool_value", lib("bool_value", || Value::bool_value(f))?, sm.clone())?;
    same("cbor_int!", lib("cbor_int", || cbor_int!(i))?, M::int(i as i128))?;
    same("cbor_unsigned!", lib("cbor_unsigned", || cbor_unsigned!(u))?, M::U(u))?;
    same("cbor_bool!", lib("cbor_bool", || cbor_bool!(f))?, sm)?;
    same("cbor_text!", lib("cbor_text", || cbor_text!(s.as_str()))?, M::T(s.clone()))?;
    same("cbor_text!", lib("cbor_text", || cbor_text!(s.clone()))?, M::T(s.clone()))?;
    same("cbor_bytes!", lib("cbor_bytes", || cbor_bytes!(b.clone()))?, M::B(b.clone()))?;
    same("cbor_bytes_lit!", lib("cbor_bytes_lit", || cbor_bytes_lit!(&b))?, M::B(b.clone()))?;
    same("cbor_true!", cbor_true!(), M::S(21))?;
    same("cbor_false!", cbor_false!(), M::S(20))?;
    same("cbor_null!", cbor_null!(), M::S(22))?;
    same("cbor_undefined!", cbor_undefined!(), M::S(23))?;
    let opt = if f { Some(i) } else { None };
    let o = lib("into_option", || opt.into_cbor_value_option())?;
    check!(o.as_ref().and_then(from_value) == opt.map(|i| M::int(i as i128)), "{:?} as optional value is {:?}", opt, o);
    let o = lib("into_option", || u.into_cbor_value_option())?;
    check!(o.as_ref().and_then(from_value) == Some(M::U(u)), "{} as optional value is {:?}", u, o);
    let simple = lib("from_integer", || SimpleValue::from_integer(u))?;
    let want = (20..=23).contains(&u);
    check!(simple.is_some() == want, "SimpleValue::from_integer({}) is {:?}", u, simple);
    if let Some(x) = simple {
        same("Simple", Value::Simple(x), M::S(u as u8))?;
    }
    let k: Vec<u8> = [&u.to_be_bytes()[..], &i.to_be_bytes()[..], &b[..], s.as_bytes()].concat();
    c.nontrivial_bytes(&k);
    c.sample(|| format!("{} {} {} {:?} {:?} {}", u, i, j, b, s, f));
    Ok(())
}

fn containers(t: &mut Tape, c: &mut Ctx) -> R {
    let leaf = |t: &mut Tape| {
        t.budget = 6;
        gen::item(t, 2)
    };
    let m: Vec<M> = (0..6).map(|_| leaf(t)).collect();
    let v: Vec<Value> = m.iter().map(value_of).collect();
    let (i, s, f) = (t.sint(i64::MIN as i128, i64::MAX as i128) as i64, t.string(20), t.chance(1, 2));
    let tag = t.int();
    let g = |k: usize| v[k].clone();
    let w = |k: usize| m[k].clone();
    same("cbor_array!", lib("cbor_array", || cbor_array![])?, M::A(vec![]))?;
    same("cbor_array!", lib("cbor_array", || cbor_array![g(0)])?, M::A(vec![w(0)]))?;
    same(
        "cbor_array!",
        lib("cbor_array", || cbor_array![g(0), i, s.clone(), f, g(1),])?,
        M::A(vec![w(0), M::int(i as i128), M::T(s.clone()), M::S(20 + f as u8), w(1)]),
    )?;
    same("cbor_array_vec!", lib("cbor_array_vec", || cbor_array_vec!(v.clone()))?, M::A(m.clone()))?;
    same("Vec<Value>", lib("into", || v.clone().into_cbor_value())?, M::A(m.clone()))?;
    same("cbor_tagged!", lib("cbor_tagged", || cbor_tagged!(tag, g(2)))?, M::Tag(tag, Box::new(w(2))))?;
    same("cbor_map!", lib("cbor_map", || cbor_map! {})?, M::Map(vec![]))?;
    same(
        "cbor_map!",
        lib("cbor_map", || cbor_map! { g(0) => g(1), s.as_str() => i, i => g(2), g(3) => f, })?,
        M::Map(vec![
            (w(0), w(1)),
            (M::T(s.clone()), M::int(i as i128)),
            (M::int(i as i128), w(2)),
            (w(3), M::S(20 + f as u8)),
        ]),
    )?;
    let p: Vec<(Value, Value)> = vec![(g(0), g(1)), (g(2), g(3)), (g(0), g(5))];
    let pm = M::Map(vec![(w(0), w(1)), (w(2), w(3)), (w(0), w(5))]);
    same("cbor_map_collection!", lib("cbor_map_collection", || cbor_map_collection!(p.clone()))?, pm.clone())?;
    same("Vec<(Value, Value)>", lib("into", || p.into_cbor_value())?, pm)?;
    // Optional entries: every combination.
    let mask = t.below(16);
    let o = |k: usize| if mask >> k & 1 == 1 { Some(g(k)) } else { None };
    let oi: Option<i64> = if mask & 1 == 1 { Some(i) } else { None };
    let got = lib("cbor_map_options", || {
        cbor_map_options! { "a" => o(0), 1 => g(4), "b" => o(1), g(5) => oi, 2 => o(2), "c" => o(3), "d" => s.as_str() }
    })?;
    let mut want = Vec::new();
    let mut put = |on: bool, k: M, x: M| {
        if on {
            want.push((k, x))
        }
    };
    put(mask & 1 == 1, M::t("a"), w(0));
    put(true, M::U(1), w(4));
    put(mask >> 1 & 1 == 1, M::t("b"), w(1));
    put(mask & 1 == 1, w(5), M::int(i as i128));
    put(mask >> 2 & 1 == 1, M::U(2), w(2));
    put(mask >> 3 & 1 == 1, M::t("c"), w(3));
    put(true, M::t("d"), M::T(s.clone()));
    same("cbor_map_options!", got, M::Map(want))?;
    // Labels name the major type.
    for (x, y) in v.iter().zip(&m) {
        let l = lib("type_label", || x.type_label())?;
        let want = match y {
            M::U(_) => 0,
            M::N(_) => 1,
            M::B(_) => 2,
            M::T(_) => 3,
            M::A(_) => 4,
            M::Map(_) => 5,
            M::Tag(..) => 6,
            M::S(_) => 7,
        };
        check!(l == want, "type_label of {:?} is {}", x, l);
    }
    let k: Vec<u8> = m.iter().flat_map(wire::raw).collect();
    c.nontrivial_bytes(&k);
    c.sample(|| format!("containers of {:?}", m));
    Ok(())
}

/// Destructuring against plain lookup.
fn destructure(t: &mut Tape, c: &mut Ctx) -> R {
    t.budget = 12;
    let pool_n = 1 + t.below(10) as usize;
    let mut pool: Vec<M> = Vec::new();
    // Long maps now and then; what is looked for lies anywhere in them.
    let long = t.chance(1, 20);
    if long {
        let (n, start, step) = (10 + t.below_any(&[30, 100, 400]), t.int_max(1000), 1 + t.below(300));
        pool.extend((0..n).map(|i| M::U(start + i * step)));
    }
    for _ in 0..pool_n {
        let k = if !pool.is_empty() && t.chance(1, 2) {
            let i = t.below(pool.len() as u64) as usize;
            let b = pool[i].clone();
            gen::near(t, &b)
        } else {
            gen::item(t, 2)
        };
        pool.push(wire::canonical(&gen::dedup(&k)).unwrap());
    }
    pool.sort_by(wire::canon_cmp);
    pool.dedup();
    let mut entries: Vec<(M, M)> = Vec::new();
    let mut keys: Vec<M> = Vec::new();
    for (i, k) in pool.iter().enumerate() {
        if long && keys.len() < 6 && t.chance(1, 40) || long && i + 1 == pool.len() && keys.len() < 6 {
            keys.push(k.clone());
            entries.push((k.clone(), M::U(i as u64)));
            continue;
        } else if long {
            entries.push((k.clone(), M::U(i as u64)));
            continue;
        }
        let w = t.below(4);
        if w != 0 {
            let x = if t.chance(1, 4) { *t.pick(&[22u8, 23]) } else { 0 };
            let x = if x > 0 { M::S(x) } else { M::U(i as u64) };
            entries.push((k.clone(), x));
        }
        if w != 1 && keys.len() < 6 {
            keys.push(k.clone());
        }
    }
    if keys.is_empty() {
        keys.push(pool[0].clone());
    }
    let map: Vec<(Value, Value)> = entries.iter().map(|(k, x)| (value_of(k), value_of(x))).collect();
    let ks: Vec<Value> = keys.iter().map(value_of).collect();
    let k = |i: usize| ks[i].clone();
    let got: Vec<Option<Value>> = lib("destructure_cbor_map", || match keys.len() {
        1 => {
            destructure_cbor_map! { let { k(0) => a, } = map; }
            vec![a]
        }
        2 => {
            destructure_cbor_map! { let { k(0) => a, k(1) => b, } = map; }
            vec![a, b]
        }
        3 => {
            destructure_cbor_map! { let { k(0) => a, k(1) => b, k(2) => d, } = map; }
            vec![a, b, d]
        }
        4 => {
            destructure_cbor_map! { let { k(0) => a, k(1) => b, k(2) => d, k(3) => e, } = map; }
            vec![a, b, d, e]
        }
        5 => {
            destructure_cbor_map! { let { k(0) => a, k(1) => b, k(2) => d, k(3) => e, k(4) => f, } = map; }
            vec![a, b, d, e, f]
        }
        _ => {
            destructure_cbor_map! { let { k(0) => a, k(1) => b, k(2) => d, k(3) => e, k(4) => f, k(5) => g, } = map; }
            vec![a, b, d, e, f, g]
        }
    })?;
    for (i, key) in keys.iter().enumerate() {
        let want = entries.iter().find(|e| e.0 == *key).map(|e| e.1.clone());
        let g = match &got[i] {
            None => None,
            Some(v) => Some(from_value(v).ok_or_else(|| Fail::new("unrepresentable value"))?),
        };
        check!(g == want, "destructuring {:?}: key {:?} gives {:?}, expected {:?}", entries, key, g, want);
    }
    let b: Vec<u8> = entries.iter().flat_map(|e| wire::raw(&e.0)).chain(keys.iter().flat_map(wire::raw)).collect();
    c.class(if got.iter().any(|x| x.is_some()) { "some found" } else { "none found" });
    c.nontrivial_bytes(&b);
    c.sample(|| format!("entries {:?} keys {:?}", entries, keys));
    Ok(())
}

/// Sortedness assertion: panics exactly on unsorted keys.
fn sorted_keys(t: &mut Tape, c: &mut Ctx) -> R {
    t.budget = 6;
    let mut v = vec![wire::canonical(&gen::dedup(&gen::item(t, 2))).unwrap()];
    for _ in 0..2 {
        let i = t.below(v.len() as u64) as usize;
        let b = v[i].clone();
        v.push(wire::canonical(&gen::dedup(&gen::near(t, &b))).unwrap());
    }
    if t.chance(1, 2) {
        v.sort_by(wire::canon_cmp);
    }
    let want = v.windows(2).all(|w| wire::canon_cmp(&w[0], &w[1]).is_lt());
    let x: Vec<Value> = v.iter().map(value_of).collect();
    let r = lib("assert_sorted_keys", || {
        assert_sorted_keys!(x[0].clone(), x[1].clone(), x[2].clone(),);
    });
    check!(r.is_ok() == want, "assert_sorted_keys! on {:?}: passes {}, sorted {}", v, r.is_ok(), want);
    c.class(if want { "sorted" } else { "unsorted" });
    let b: Vec<u8> = v.iter().flat_map(wire::raw).collect();
    c.nontrivial_bytes(&b);
    Ok(())
}

pub fn c18() -> Vec<Sub> {
    vec![
        sub("scalars", scalars, 40_000, 10_000),
        sub("containers", containers, 40_000, 0),
        sub("destructure", destructure, 150_000, 50_000),
        sub("sorted_keys", sorted_keys, 20_000, 0),
    ]
}
