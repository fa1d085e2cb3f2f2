//! What the serde layer must make of an arbitrary item, where that is laid down.
use crate::ty::*;
use crate::wire::{M, NULL};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SWant {
    /// Must decode to this.
    Is(MV),
    /// Must be refused.
    Bad,
    /// Left to serde's own conventions (undefined for null, indices for names, ...).
    Open,
}
use SWant::*;
impl SWant {
    fn map(self, f: impl FnOnce(MV) -> MV) -> SWant {
        match self {
            Is(v) => Is(f(v)),
            o => o,
        }
    }
}
/// All parts count: one bad part makes the whole bad, whatever the others are.
fn all(it: impl Iterator<Item = SWant>) -> Result<Vec<MV>, SWant> {
    let (mut v, mut bad, mut open) = (Vec::new(), false, false);
    for x in it {
        match x {
            Is(m) => v.push(m),
            Bad => bad = true,
            Open => open = true,
        }
    }
    if bad {
        Err(Bad)
    } else if open {
        Err(Open)
    } else {
        Ok(v)
    }
}
fn seq(r: Result<Vec<MV>, SWant>, f: impl FnOnce(Vec<MV>) -> MV) -> SWant {
    match r {
        Ok(v) => Is(f(v)),
        Err(e) => e,
    }
}
fn exact(lax: bool, fs: &[TyFn], v: &[M]) -> Result<Vec<MV>, SWant> {
    if fs.len() != v.len() {
        return Err(Bad);
    }
    all(fs.iter().zip(v).map(|(t, x)| sdec(lax, t(), x)))
}

/// `lax`: the types have no serde attributes, so that unknown fields are ignored, whatever the
/// schema, which then describes the crate's own codec, says.
pub fn sdec(lax: bool, ty: Ty, m: &M) -> SWant {
    match (ty, m) {
        (_, M::Tag(..)) => Bad,
        (Ty::Int(..) | Ty::U128 | Ty::Bool | Ty::Char, m) => match dec(ty, m) {
            Ok(v) => Is(v),
            Err(_) => Bad,
        },
        (Ty::Str, M::T(s)) => Is(MV::Str(s.clone())),
        (Ty::Str, M::B(_)) => Open,
        (Ty::Buf, M::B(b)) => Is(MV::Bytes(b.clone())),
        (Ty::Buf, M::A(_) | M::T(_)) => Open,
        (Ty::Bytes | Ty::ByteArr(_), M::A(v)) => {
            if matches!(ty, Ty::ByteArr(n) if n != v.len()) {
                return Bad;
            }
            seq(all(v.iter().map(|x| sdec(lax, Ty::Int(8, false), x))), |v| {
                MV::Bytes(v.iter().map(|x| x.int() as u8).collect())
            })
        }
        (Ty::Unit, M::S(22)) => Is(MV::Unit),
        (Ty::Unit, M::S(23)) => Open,
        (Ty::Opt(_), M::S(22)) => Is(MV::Opt(None)),
        (Ty::Opt(_), M::S(23)) => Open,
        (Ty::Opt(t), m) => sdec(lax, t(), m).map(|x| MV::Opt(Some(Box::new(x)))),
        (Ty::Seq(t), M::A(v)) => seq(all(v.iter().map(|x| sdec(lax, t(), x))), MV::Seq),
        (Ty::Set(t, _), M::A(v)) => seq(all(v.iter().map(|x| sdec(lax, t(), x))), |v| {
            MV::Seq(v.into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect())
        }),
        (Ty::Arr(t, n), M::A(v)) => {
            if v.len() != n {
                return Bad;
            }
            seq(all(v.iter().map(|x| sdec(lax, t(), x))), MV::Seq)
        }
        (Ty::Tup(ts), M::A(v)) => seq(exact(lax, ts, v), MV::Seq),
        (Ty::Map(k, x), M::Map(v)) => {
            let ks = all(v.iter().map(|e| sdec(lax, k(), &e.0)));
            let xs = all(v.iter().map(|e| sdec(lax, x(), &e.1)));
            match (ks, xs) {
                (Ok(k), Ok(x)) => {
                    Is(MV::Map(k.into_iter().zip(x).collect::<std::collections::BTreeMap<_, _>>().into_iter().collect()))
                }
                (Err(Bad), _) | (_, Err(Bad)) => Bad,
                _ => Open,
            }
        }
        (Ty::Struct(s), m) => match s.shape {
            Shape::Unit => sdec(lax, Ty::Unit, m).map(|_| MV::Struct(vec![])),
            Shape::Transparent => sdec(lax, (s.fields[0].ty)(), m).map(|x| MV::Struct(vec![x])),
            Shape::Array => array(lax, &s.fields, m).map(|v| MV::Struct(v.seq().to_vec())),
            Shape::Map => map(lax, &s.fields, s.allow_unknown, m).map(|v| MV::Struct(v.seq().to_vec())),
        },
        (Ty::Enum(e), m) => {
            if e.tag.is_some() || e.untagged {
                return Open;
            }
            let (key, payload) = match m {
                M::T(_) => (m, None),
                M::Map(v) if v.len() == 1 => (&v[0].0, Some(&v[0].1)),
                _ => return Bad,
            };
            let Some(i) = e.variants.iter().position(|v| v.key == *key) else {
                return match key {
                    // serde also takes the variant's index or its name as bytes.
                    M::U(_) | M::B(_) => Open,
                    _ => Bad,
                };
            };
            let var = &e.variants[i];
            match (var.kind, payload) {
                (VKind::Unit | VKind::UnitStruct, None) => Is(MV::Enum(i, vec![])),
                (VKind::Unit | VKind::UnitStruct, Some(M::S(22 | 23))) => Open,
                (VKind::Unit | VKind::UnitStruct, Some(_)) => Bad,
                // The bare name of a variant stands for a null payload.
                (VKind::Newtype, None) => match sdec(lax, (var.fields[0].ty)(), &NULL) {
                    Bad => Bad,
                    _ => Open,
                },
                (_, None) => Bad,
                (VKind::Newtype, Some(x)) => sdec(lax, (var.fields[0].ty)(), x).map(|x| MV::Enum(i, vec![x])),
                (VKind::Array, Some(x)) => array(lax, &var.fields, x).map(|v| MV::Enum(i, v.seq().to_vec())),
                (VKind::Map, Some(x)) => map(lax, &var.fields, var.allow_unknown, x).map(|v| MV::Enum(i, v.seq().to_vec())),
            }
        }
        _ => Bad,
    }
}
fn array(lax: bool, fs: &[Field], m: &M) -> SWant {
    let M::A(v) = m else { return Bad };
    let ts: Vec<TyFn> = fs.iter().map(|f| f.ty).collect();
    seq(exact(lax, &ts, v), MV::Seq)
}
fn missing(ty: Ty) -> Option<MV> {
    match ty {
        Ty::Opt(_) => Some(MV::Opt(None)),
        Ty::Struct(s) if s.shape == Shape::Transparent => missing((s.fields[0].ty)()).map(|x| MV::Struct(vec![x])),
        _ => None,
    }
}
fn map(lax: bool, fs: &[Field], allow_unknown: bool, m: &M) -> SWant {
    let M::Map(v) = m else { return Bad };
    let (mut open, mut bad) = (false, false);
    let mut odd_key = false;
    for (k, x) in v {
        match k {
            M::T(_) => {
                if !fs.iter().any(|f| !f.skip && f.key == *k) {
                    if !allow_unknown && !lax {
                        bad = true;
                    } else if x.any(&|m| matches!(m, M::Tag(..))) {
                        open = true;
                    }
                } else if v.iter().filter(|e| e.0 == *k).count() > 1 {
                    bad = true;
                }
            }
            M::U(_) | M::B(_) => odd_key = true,
            _ => bad = true,
        }
    }
    let r = all(fs.iter().map(|f| {
        if f.skip {
            return Is((f.default.expect("model: default"))());
        }
        match v.iter().find(|e| e.0 == f.key) {
            Some((_, x)) => sdec(lax, (f.ty)(), x),
            None if odd_key => Open,
            None if f.sdefault => Is((f.default.expect("model: default"))()),
            None => missing((f.ty)()).map_or(Bad, Is),
        }
    }));
    match r {
        _ if bad => Bad,
        Err(Bad) => Bad,
        Err(e) => e,
        Ok(_) if open || odd_key => Open,
        Ok(v) => Is(MV::Seq(v)),
    }
}
