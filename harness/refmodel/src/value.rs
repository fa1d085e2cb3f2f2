//! Between the model and the library's in-memory values.
use crate::wire::M;
use oasis_cbor_value::{SimpleValue, Value};

pub fn to_value(m: &M) -> Value {
    match m {
        M::U(u) => Value::Unsigned(*u),
        M::N(n) => Value::Negative(-1 - *n as i128),
        M::B(b) => Value::ByteString(b.clone()),
        M::T(s) => Value::TextString(s.clone()),
        M::A(v) => Value::Array(v.iter().map(to_value).collect()),
        M::Map(v) => Value::Map(v.iter().map(|(k, x)| (to_value(k), to_value(x))).collect()),
        M::Tag(t, x) => Value::Tag(*t, Box::new(to_value(x))),
        M::S(20) => Value::Simple(SimpleValue::FalseValue),
        M::S(21) => Value::Simple(SimpleValue::TrueValue),
        M::S(22) => Value::Simple(SimpleValue::NullValue),
        M::S(23) => Value::Simple(SimpleValue::Undefined),
        M::S(_) => panic!("model: bad simple"),
    }
}
/// The same value with spare capacity here and there.
pub fn roomy(v: &mut Value, below: &mut dyn FnMut(u64) -> u64) {
    let n = below(2) as usize * 10;
    match v {
        Value::ByteString(b) => b.reserve(n),
        Value::TextString(s) => s.reserve(n),
        Value::Array(a) => {
            a.reserve(n);
            a.iter_mut().for_each(|x| roomy(x, below));
        }
        Value::Map(m) => {
            m.reserve(n);
            for (k, x) in m {
                roomy(k, below);
                roomy(x, below);
            }
        }
        Value::Tag(_, x) => roomy(x, below),
        _ => {}
    }
}
/// `None` when the value is not representable in CBOR (a "negative" outside -2^64..=-1).
pub fn from_value(v: &Value) -> Option<M> {
    Some(match v {
        Value::Unsigned(u) => M::U(*u),
        Value::Negative(n) => {
            let k = -1 - *n;
            if !(0..=u64::MAX as i128).contains(&k) {
                return None;
            }
            M::N(k as u64)
        }
        Value::ByteString(b) => M::B(b.clone()),
        Value::TextString(s) => M::T(s.clone()),
        Value::Array(v) => M::A(v.iter().map(from_value).collect::<Option<_>>()?),
        Value::Map(v) => {
            M::Map(v.iter().map(|(k, x)| Some((from_value(k)?, from_value(x)?))).collect::<Option<_>>()?)
        }
        Value::Tag(t, x) => M::Tag(*t, Box::new(from_value(x)?)),
        Value::Simple(SimpleValue::FalseValue) => M::S(20),
        Value::Simple(SimpleValue::TrueValue) => M::S(21),
        Value::Simple(SimpleValue::NullValue) => M::S(22),
        Value::Simple(SimpleValue::Undefined) => M::S(23),
    })
}
