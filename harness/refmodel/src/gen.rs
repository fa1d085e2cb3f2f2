//! Generators of CBOR items and of raw bytes.
use crate::wire::*;
use engine::Tape;

fn scalar(t: &mut Tape) -> M {
    match t.weighted(&[6, 5, 4, 4, 3]) {
        0 => M::U(t.int()),
        1 => M::N(t.int()),
        2 => {
            let n = t.budget.max(4).min(70000) as u64;
            M::B(t.bytes(n))
        }
        3 => {
            let n = t.budget.max(4).min(70000) as u64;
            M::T(t.string(n))
        }
        _ => M::S(20 + t.below(4) as u8),
    }
}

/// Any item; maps in any order and possibly with repeated keys. At most `depth` levels below it.
pub fn item(t: &mut Tape, depth: usize) -> M {
    t.budget -= 1;
    if depth == 0 || t.budget <= 0 {
        return scalar(t);
    }
    match t.weighted(&[9, 4, 5, 2]) {
        0 => scalar(t),
        1 => {
            let n = t.size();
            // Large flat containers of scalars reach the head-width boundaries.
            if n > 40 {
                let x = scalar(t);
                return M::A(vec![x; n]);
            }
            M::A((0..n).map(|_| item(t, depth - 1)).collect())
        }
        2 => {
            let n = t.size();
            if n > 40 {
                let start = t.int();
                let kind = t.below(3);
                return M::Map(
                    (0..n as u64)
                        .map(|i| {
                            let k = start.wrapping_add(i.wrapping_mul(0x9E37_79B9));
                            let k = match kind {
                                0 => M::U(k),
                                1 => M::N(k),
                                _ => M::B(k.to_be_bytes()[(k % 9) as usize..].to_vec()),
                            };
                            (k, M::U(i))
                        })
                        .collect(),
                );
            }
            let mut v: Vec<(M, M)> = Vec::new();
            for _ in 0..n {
                let k = if !v.is_empty() && t.chance(1, 3) {
                    let i = t.below(v.len() as u64) as usize;
                    let b = v[i].0.clone();
                    near(t, &b)
                } else {
                    item(t, (depth - 1).min(3))
                };
                let x = item(t, depth - 1);
                v.push((k, x));
            }
            M::Map(v)
        }
        _ => {
            let n = t.int();
            M::Tag(n, Box::new(item(t, depth - 1)))
        }
    }
}

/// An item close to `m`: the comparisons that matter are between neighbours.
pub fn near(t: &mut Tape, m: &M) -> M {
    match m {
        M::U(u) => match t.below(6) {
            0 => M::U(u.wrapping_add(1)),
            1 => M::U(u.wrapping_sub(1)),
            2 => M::N(*u),
            3 => M::U(u ^ 1 << t.below(64)),
            4 => M::U(u.rotate_left(8)),
            _ => M::Tag(*u, Box::new(M::U(*u))),
        },
        M::N(u) => match t.below(5) {
            0 => M::N(u.wrapping_add(1)),
            1 => M::N(u.wrapping_sub(1)),
            2 => M::U(*u),
            3 => M::N(u ^ 1 << t.below(64)),
            _ => M::N(u.rotate_left(8)),
        },
        M::B(b) => {
            let mut b = b.clone();
            match t.below(7) {
                5 => {
                    // Padding in front, up to a width some integer type has or just past it.
                    let n = if t.chance(1, 2) { b.len() + 1 } else { *t.pick(&[16usize, 17, 8, 9, 15, 18, 32, 33]) };
                    let z = *t.pick(&[0u8, 0, 0xff, 1]);
                    while b.len() < n {
                        b.insert(0, z);
                    }
                }
                6 => b.insert(0, t.below(256) as u8),
                0 => b.push(0),
                1 => b.push(t.below(256) as u8),
                2 => {
                    b.pop();
                }
                3 => {
                    if !b.is_empty() {
                        let i = t.below(b.len() as u64) as usize;
                        b[i] ^= 1 << t.below(8);
                    }
                }
                _ => {
                    return match String::from_utf8(b) {
                        Ok(s) => M::T(s),
                        Err(e) => M::A(vec![M::B(e.into_bytes())]),
                    }
                }
            }
            M::B(b)
        }
        M::T(s) => {
            let mut c: Vec<char> = s.chars().collect();
            match t.below(5) {
                0 => c.push('\0'),
                1 => c.push(t.char()),
                2 => {
                    c.pop();
                }
                3 => {
                    if !c.is_empty() {
                        let i = t.below(c.len() as u64) as usize;
                        c[i] = t.char();
                    }
                }
                _ => return M::B(s.as_bytes().to_vec()),
            }
            M::T(c.into_iter().collect())
        }
        M::A(v) => {
            let mut v = v.clone();
            match t.below(5) {
                0 => v.push(M::U(0)),
                1 => {
                    v.pop();
                }
                2 | 3 => {
                    if !v.is_empty() {
                        let i = t.below(v.len() as u64) as usize;
                        v[i] = near(t, &v[i].clone());
                    }
                }
                _ => {
                    if v.len() > 1 {
                        let i = t.below(v.len() as u64 - 1) as usize;
                        v.swap(i, i + 1);
                    }
                }
            }
            M::A(v)
        }
        M::Map(v) => {
            let mut v = v.clone();
            match t.below(5) {
                0 => v.push((scalar(t), M::U(0))),
                1 => {
                    v.pop();
                }
                2 => {
                    if !v.is_empty() {
                        let i = t.below(v.len() as u64) as usize;
                        v[i].0 = near(t, &v[i].0.clone());
                    }
                }
                3 => {
                    if !v.is_empty() {
                        let i = t.below(v.len() as u64) as usize;
                        v[i].1 = near(t, &v[i].1.clone());
                    }
                }
                _ => {
                    if v.len() > 1 {
                        let i = t.below(v.len() as u64 - 1) as usize;
                        let x = v[i].1.clone();
                        v[i].1 = v[i + 1].1.clone();
                        v[i + 1].1 = x;
                    }
                }
            }
            M::Map(v)
        }
        M::Tag(n, x) => match t.below(4) {
            0 => M::Tag(n.wrapping_add(1), x.clone()),
            1 => M::Tag(n ^ 1 << t.below(64), x.clone()),
            2 => M::Tag(*n, Box::new(near(t, x))),
            _ => (**x).clone(),
        },
        M::S(s) => match t.below(3) {
            0 => M::S(20 + (s - 19) % 4),
            1 => M::U(*s as u64),
            _ => M::A(vec![M::S(*s)]),
        },
    }
}

/// Removes later entries with a key that already occurred (under canonical equality), everywhere.
pub fn dedup(m: &M) -> M {
    match m {
        M::A(v) => M::A(v.iter().map(dedup).collect()),
        M::Tag(t, x) => M::Tag(*t, Box::new(dedup(x))),
        M::Map(v) => {
            let mut seen = std::collections::HashSet::new();
            let mut o = Vec::new();
            for (k, x) in v {
                let k = dedup(k);
                if seen.insert(canon_bytes(&k).expect("dedup")) {
                    o.push((k, dedup(x)));
                }
            }
            M::Map(o)
        }
        o => o.clone(),
    }
}

fn wrap(t: &mut Tape, m: M, n: usize) -> M {
    let mut m = m;
    for _ in 0..n {
        m = match t.below(4) {
            0 => M::A(vec![m]),
            1 => M::Tag(t.below(30), Box::new(m)),
            2 => M::Map(vec![(m, M::U(0))]),
            _ => M::Map(vec![(M::U(0), m)]),
        };
    }
    m
}

/// Like `wrap`, with the shape of all levels expanded from a single draw.
pub fn wrap_deep(t: &mut Tape, m: M, n: usize) -> M {
    let seed = t.int();
    let mut m = m;
    let mut s = seed;
    for i in 0..n {
        let k = if seed < 4 { seed } else { (s >> (i % 31)) & 3 };
        s = s.rotate_left(3) ^ i as u64;
        m = match k {
            0 => M::A(vec![m]),
            1 => M::Tag(1, Box::new(m)),
            2 => M::Map(vec![(m, M::U(0))]),
            _ => M::Map(vec![(M::U(0), m)]),
        };
    }
    m
}

/// A tree with distinct keys, in arbitrary entry order; depth at most 100.
pub fn tree(t: &mut Tape) -> M {
    t.set_budget();
    let d = *t.pick(&[3usize, 1, 2, 6, 12]);
    let m = item(t, d);
    let m = match t.weighted(&[20, 2]) {
        0 => m,
        _ => {
            let n = t.below(12) as usize;
            wrap(t, m, n)
        }
    };
    dedup(&m)
}
pub fn canonical_tree(t: &mut Tape) -> M {
    canonical(&tree(t)).expect("distinct keys")
}

/// Fisher-Yates from the tape, at every map.
pub fn shuffle(t: &mut Tape, m: &M) -> M {
    match m {
        M::A(v) => M::A(v.iter().map(|x| shuffle(t, x)).collect()),
        M::Tag(n, x) => M::Tag(*n, Box::new(shuffle(t, x))),
        M::Map(v) => {
            let mut v: Vec<(M, M)> = v.iter().map(|(k, x)| (shuffle(t, k), shuffle(t, x))).collect();
            if v.len() > 60 {
                let r = t.below(v.len() as u64) as usize;
                v.rotate_left(r);
                if t.chance(1, 2) {
                    v.reverse();
                }
            } else {
                for i in (1..v.len()).rev() {
                    let j = t.below(i as u64 + 1) as usize;
                    v.swap(i, j);
                }
            }
            M::Map(v)
        }
        o => o.clone(),
    }
}

/// Well-formed but sloppy bytes of an item: over-long heads now and then.
pub fn sloppy(t: &mut Tape, m: &M) -> Vec<u8> {
    let mut out = Vec::new();
    let rate = *t.pick(&[0u64, 4, 1]);
    let mut h = |major: u8, n: u64, out: &mut Vec<u8>| {
        let w = min_width(n);
        let w = if rate > 0 && out.len() < 4000 && t.below(5) < rate {
            *t.pick(&[1u8, 2, 4, 8])
        } else {
            w
        }
        .max(w);
        // A simple value in more than one extra byte is a float.
        let w = if major == 7 { w.min(1) } else { w };
        head_w(major, n, w, out)
    };
    enc_with(m, &mut out, &mut h);
    out
}

/// Some structural byte noise: heads, tails and dictionary bytes, mutations of valid encodings.
pub fn noise(t: &mut Tape) -> Vec<u8> {
    t.set_budget();
    match t.below(4) {
        0 => {
            // Raw bytes with a bias to heads.
            let n = t.len(64);
            (0..n)
                .map(|_| {
                    t.draw(255, |r, _| {
                        const H: &[u8] = &[
                            0x00, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x38, 0x40, 0x41, 0x5f, 0x60, 0x61, 0x7f,
                            0x80, 0x81, 0x82, 0x9f, 0xa0, 0xa1, 0xa2, 0xbf, 0xc0, 0xc1, 0xd8, 0xdf, 0xf4, 0xf5, 0xf6, 0xf7,
                            0xf8, 0xf9, 0xfa, 0xfb, 0xff, 0x9b, 0xbb, 0x5b, 0x7b, 0x3b, 0xdb,
                        ];
                        if r.below(3) == 0 {
                            r.below(256)
                        } else {
                            H[r.below(H.len() as u64) as usize] as u64
                        }
                    }) as u8
                })
                .collect()
        }
        1 => t.bytes(200),
        _ => {
            let d = t.below(5) as usize;
            let m = item(t, d);
            let m = if t.chance(1, 2) { canonical(&dedup(&m)).expect("distinct keys") } else { m };
            let mut b = sloppy(t, &m);
            let n = t.below(4);
            for _ in 0..n {
                mutate_bytes(t, &mut b);
            }
            b
        }
    }
}

pub fn mutate_bytes(t: &mut Tape, b: &mut Vec<u8>) {
    let n = b.len() as u64;
    let at = t.below(n + 1) as usize;
    match t.below(8) {
        0 => {
            if at < b.len() {
                b[at] ^= 1 << t.below(8);
            }
        }
        1 => {
            if at < b.len() {
                b[at] = t.below(256) as u8;
            }
        }
        2 => {
            if at < b.len() {
                b.remove(at);
            }
        }
        3 => b.insert(at, t.below(256) as u8),
        4 => b.truncate(at),
        5 => {
            // A huge announced length.
            let major = 2 + t.below(4) as u8;
            let w = *t.pick(&[1u8, 2, 4, 8]);
            let v = t.int();
            let v = if w == 8 { v } else { v & ((1u64 << (8 * w)) - 1) };
            let mut h = Vec::new();
            head_w(major, v, w, &mut h);
            for (i, x) in h.into_iter().enumerate() {
                b.insert(at + i, x);
            }
        }
        6 => {
            let k = t.below(n + 1) as usize;
            let (a, z) = (at.min(k), at.max(k));
            if z - a < 64 {
                let seg = b[a..z].to_vec();
                b.extend_from_slice(&seg);
            }
        }
        _ => {
            if at < b.len() {
                b[at] = b[at].wrapping_add(1);
            }
        }
    }
}

/// A distinct key of one kind; `near` keys share a long start.
fn nth_key(kind: u64, k: u64) -> M {
    match kind {
        0 => M::U(k),
        1 => M::N(k * 1_000_003),
        2 => M::T(format!("k{:06}", k)),
        3 => M::T(format!("a long common beginning of every key {:06}", k)),
        4 => M::B((k * 0x9E37_79B9).to_be_bytes().to_vec()),
        5 => M::A(vec![M::U(1), M::U(k)]),
        6 => M::Map(vec![(M::U(0), M::U(k)), (M::U(1), M::t("x"))]),
        _ => M::Tag(k, Box::new(M::U(k & 3))),
    }
}
fn nodes_mut<'a>(m: &'a mut M, f: &mut dyn FnMut(&M) -> bool) -> Option<&'a mut M> {
    if f(m) {
        return Some(m);
    }
    match m {
        M::A(v) => v.iter_mut().find_map(|x| nodes_mut(x, f)),
        M::Map(v) => {
            for (k, x) in v.iter_mut() {
                if let Some(r) = nodes_mut(k, f) {
                    return Some(r);
                }
                if let Some(r) = nodes_mut(x, f) {
                    return Some(r);
                }
            }
            None
        }
        M::Tag(_, x) => nodes_mut(x, f),
        _ => None,
    }
}
/// Blows one node up to about `n` elements (or bytes); what it is about. Keys stay distinct.
pub fn inflate(t: &mut Tape, m: &mut M, n: usize) -> &'static str {
    fn big(x: &M) -> bool {
        matches!(x, M::A(_) | M::Map(_) | M::B(_) | M::T(_))
    }
    fn total(x: &M) -> u64 {
        big(x) as u64
            + match x {
                M::A(v) => v.iter().map(total).sum(),
                M::Map(v) => v.iter().map(|(k, x)| total(k) + total(x)).sum(),
                M::Tag(_, x) => total(x),
                _ => 0,
            }
    }
    let nodes = total(m);
    if nodes == 0 {
        return "nothing to enlarge";
    }
    let mut at = t.below(nodes);
    let node = nodes_mut(m, &mut |x| {
        if !big(x) {
            return false;
        }
        at = at.wrapping_sub(1);
        at == u64::MAX
    });
    let element = match t.below(6) {
        0 => M::U(t.int()),
        1 => M::A(vec![]),
        2 => M::t("twelve bytes"),
        3 => M::A(vec![M::U(1), M::Map(vec![(M::U(1), NULL)])]),
        4 => M::Map(vec![(M::t("a"), M::U(1)), (M::t("b"), M::A(vec![M::U(9)]))]),
        _ => M::B(vec![7; 20]),
    };
    let own = t.chance(2, 3);
    match node {
        Some(M::A(v)) => {
            let len = v.len();
            let small = v.iter().map(|x| x.count()).sum::<usize>() < 60;
            let scalar = !matches!(v.first(), Some(M::A(_) | M::Map(_) | M::Tag(..)));
            let distinct = t.chance(1, 2) && (scalar || !own);
            let kind = match v.first() {
                Some(M::U(_)) if own => 0,
                Some(M::N(_)) if own => 1,
                Some(M::T(_)) if own => 2,
                Some(M::B(_)) if own => 4,
                _ => t.below(8),
            };
            for i in 0..n {
                let x = match (distinct, own && len > 0 && small) {
                    (true, _) => nth_key(kind, i as u64),
                    (_, true) => v[i % len].clone(),
                    _ => element.clone(),
                };
                v.push(x);
            }
            "long array"
        }
        Some(M::Map(v)) => {
            let kind = match v.first() {
                Some((M::U(_), _)) if own => 0,
                Some((M::T(_), _)) if own => 2,
                Some((M::B(_), _)) if own => 4,
                _ => t.below(8),
            };
            let value = match v.first() {
                Some((_, x)) if own && x.count() < 20 => x.clone(),
                _ => element,
            };
            let mut seen: std::collections::HashSet<Vec<u8>> = v.iter().map(|(k, _)| canon_bytes(k).unwrap_or_default()).collect();
            let step = *t.pick(&[1u64, 3, 65537]);
            for i in 0..n as u64 {
                let k = nth_key(kind, i * step);
                if seen.insert(canon_bytes(&k).expect("key")) {
                    v.push((k, value.clone()));
                }
            }
            "long map"
        }
        Some(M::B(v)) => {
            v.resize(v.len() + n * 8, 9);
            "long byte string"
        }
        Some(M::T(v)) => {
            v.push_str(&"y".repeat(n * 8));
            "long text"
        }
        _ => "nothing to enlarge",
    }
}
