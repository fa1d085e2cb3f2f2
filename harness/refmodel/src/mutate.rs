//! Structural mutation of items.
use crate::ty::*;
use crate::wire::{M, NULL, UNDEF};
use engine::Tape;


pub fn vocabulary(ty: Ty) -> Vec<M> {
    fn go(ty: Ty, depth: usize, out: &mut Vec<M>) {
        if depth == 0 || out.len() > 60 {
            return;
        }
        match ty {
            Ty::Opt(t) | Ty::Seq(t) | Ty::Arr(t, _) | Ty::Set(t, _) => go(t(), depth - 1, out),
            Ty::Map(k, x) => {
                go(k(), depth - 1, out);
                go(x(), depth - 1, out);
            }
            Ty::Tup(ts) => ts.iter().for_each(|t| go(t(), depth - 1, out)),
            Ty::Struct(s) => {
                for f in &s.fields {
                    if s.shape == Shape::Map {
                        out.push(f.key.clone());
                        // Also the name a rename hides.
                        out.push(M::t(f.name));
                    }
                    go((f.ty)(), depth - 1, out);
                }
            }
            Ty::Enum(e) => {
                out.extend(e.tag.iter().cloned());
                for v in &e.variants {
                    out.push(v.key.clone());
                    out.push(M::t(v.name));
                    for f in &v.fields {
                        if v.kind == VKind::Map {
                            out.push(f.key.clone());
                            out.push(M::t(f.name));
                        }
                        go((f.ty)(), depth - 1, out);
                    }
                }
            }
            _ => {}
        }
    }
    let mut v = Vec::new();
    go(ty, 4, &mut v);
    v.sort();
    v.dedup();
    v
}

pub fn count_nodes(m: &M, pred: &dyn Fn(&M) -> bool) -> usize {
    let mut n = pred(m) as usize;
    match m {
        M::A(v) => n += v.iter().map(|x| count_nodes(x, pred)).sum::<usize>(),
        M::Map(v) => n += v.iter().map(|(k, x)| count_nodes(k, pred) + count_nodes(x, pred)).sum::<usize>(),
        M::Tag(_, x) => n += count_nodes(x, pred),
        _ => {}
    }
    n
}
/// The `n`th node (in pre-order) that satisfies the predicate.
pub fn node<'a>(m: &'a mut M, pred: &dyn Fn(&M) -> bool, n: &mut usize) -> Option<&'a mut M> {
    if pred(m) {
        if *n == 0 {
            return Some(m);
        }
        *n -= 1;
    }
    match m {
        M::A(v) => v.iter_mut().find_map(|x| node(x, pred, n)),
        M::Map(v) => {
            for (k, x) in v.iter_mut() {
                if let Some(r) = node(k, pred, n) {
                    return Some(r);
                }
                if let Some(r) = node(x, pred, n) {
                    return Some(r);
                }
            }
            None
        }
        M::Tag(_, x) => node(x, pred, n),
        _ => None,
    }
}
pub fn pick_node<'a>(t: &mut Tape, m: &'a mut M, pred: &dyn Fn(&M) -> bool) -> Option<&'a mut M> {
    let n = count_nodes(m, pred);
    if n == 0 {
        return None;
    }
    // Outer nodes matter more.
    let mut k = if t.chance(1, 3) { 0 } else { t.below(n as u64) as usize };
    node(m, pred, &mut k)
}

pub fn small_item(t: &mut Tape, vocab: &[M]) -> M {
    match t.weighted(&[3, 3, 2, 1, 1, 1, 4]) {
        0 => NULL,
        1 => M::U(t.int()),
        2 => M::t(""),
        3 => M::A(vec![]),
        4 => M::Map(vec![]),
        5 => UNDEF,
        _ => {
            if !vocab.is_empty() && t.chance(1, 2) {
                return t.pick(vocab).clone();
            }
            t.budget = 6;
            let d = t.below(3) as usize;
            crate::gen::item(t, d)
        }
    }
}
pub fn some_key(t: &mut Tape, vocab: &[M], others: &[(M, M)]) -> M {
    match t.weighted(&[4, 3, 2, 1]) {
        0 if !vocab.is_empty() => t.pick(vocab).clone(),
        1 if !others.is_empty() => {
            let k = others[t.below(others.len() as u64) as usize].0.clone();
            crate::gen::near(t, &k)
        }
        2 => {
            // Anywhere in key order.
            match t.below(6) {
                0 => M::U(t.int()),
                1 => M::N(t.int()),
                2 => M::B(t.bytes(30)),
                3 => M::T(t.string(30)),
                4 => M::A(vec![M::U(t.below(3))]),
                _ => M::S(20 + t.below(4) as u8),
            }
        }
        _ => small_item(t, vocab),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Add,
    Remove,
    Repeat,
    Reorder,
    Rekey,
    Nullify,
    Surplus,
    Shorten,
    Replace,
    Wrap,
}
pub const STRUCTURAL: &[Op] = &[Op::Add, Op::Remove, Op::Repeat, Op::Reorder, Op::Rekey, Op::Surplus, Op::Shorten];
pub const ALL: &[Op] =
    &[Op::Add, Op::Remove, Op::Repeat, Op::Reorder, Op::Rekey, Op::Nullify, Op::Surplus, Op::Shorten, Op::Replace, Op::Wrap, Op::Replace];

pub fn mutate(t: &mut Tape, m: &mut M, op: Op, vocab: &[M]) -> bool {
    let map = |x: &M| matches!(x, M::Map(_));
    let full_map = |x: &M| matches!(x, M::Map(v) if !v.is_empty());
    let arr = |x: &M| matches!(x, M::A(_));
    let full_arr = |x: &M| matches!(x, M::A(v) if !v.is_empty());
    match op {
        Op::Add => {
            let Some(x) = pick_node(t, m, &map) else { return false };
            let M::Map(v) = x else { unreachable!() };
            let k = some_key(t, vocab, v);
            let x = small_item(t, vocab);
            let at = t.below(v.len() as u64 + 1) as usize;
            v.insert(at, (k, x));
        }
        Op::Remove => {
            let Some(x) = pick_node(t, m, &full_map) else { return false };
            let M::Map(v) = x else { unreachable!() };
            let at = t.below(v.len() as u64) as usize;
            v.remove(at);
        }
        Op::Repeat => {
            let Some(x) = pick_node(t, m, &full_map) else { return false };
            let M::Map(v) = x else { unreachable!() };
            let at = t.below(v.len() as u64) as usize;
            let k = v[at].0.clone();
            let x = if t.chance(1, 2) { v[at].1.clone() } else { small_item(t, vocab) };
            let to = t.below(v.len() as u64 + 1) as usize;
            v.insert(to, (k, x));
        }
        Op::Reorder => *m = crate::gen::shuffle(t, m),
        Op::Rekey => {
            let Some(x) = pick_node(t, m, &full_map) else { return false };
            let M::Map(v) = x else { unreachable!() };
            let at = t.below(v.len() as u64) as usize;
            v[at].0 = some_key(t, vocab, v);
        }
        Op::Nullify => {
            let k = if t.chance(1, 2) { NULL } else { UNDEF };
            if t.chance(1, 2) {
                let Some(x) = pick_node(t, m, &full_map) else { return false };
                let M::Map(v) = x else { unreachable!() };
                let at = t.below(v.len() as u64) as usize;
                v[at].1 = k;
            } else {
                let Some(x) = pick_node(t, m, &|_| true) else { return false };
                *x = k;
            }
        }
        Op::Surplus => {
            let Some(M::A(v)) = pick_node(t, m, &arr) else { return false };
            let x = if !v.is_empty() && t.chance(1, 2) { v[v.len() - 1].clone() } else { small_item(t, vocab) };
            let at = if t.chance(1, 2) { v.len() } else { t.below(v.len() as u64 + 1) as usize };
            v.insert(at, x);
        }
        Op::Shorten => {
            let Some(M::A(v)) = pick_node(t, m, &full_arr) else { return false };
            let at = if t.chance(1, 2) { v.len() - 1 } else { t.below(v.len() as u64) as usize };
            v.remove(at);
        }
        Op::Replace => {
            let Some(x) = pick_node(t, m, &|_| true) else { return false };
            *x = if t.chance(1, 2) { crate::gen::near(t, &x.clone()) } else { small_item(t, vocab) };
        }
        Op::Wrap => {
            let Some(x) = pick_node(t, m, &|_| true) else { return false };
            let y = x.clone();
            *x = match t.below(5) {
                0 => M::A(vec![y]),
                1 => M::Tag(t.below(30), Box::new(y)),
                2 => {
                    let k = some_key(t, vocab, &[]);
                    M::Map(vec![(k, y)])
                }
                3 => M::Map(vec![(y, NULL)]),
                _ => match y {
                    M::A(mut v) if !v.is_empty() => v.remove(0),
                    M::Map(mut v) if !v.is_empty() => v.remove(0).1,
                    y => M::A(vec![y]),
                },
            };
        }
    }
    true
}

