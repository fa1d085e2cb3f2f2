//! Types under test with their schemas, behind a table of functions.
#![allow(non_camel_case_types, unused, non_shorthand_field_patterns, non_snake_case, dead_code, clippy::all)]
use engine::work::{self, Work};
use engine::{lib, Fail};
use cbor::{Decode, DecodeError, Encode, EncodeAsMap, Value};
use refmodel::ty::*;

pub mod codecs;
pub mod gen {
    use super::codecs;
    use super::{enc_only, info, Info};
    use cbor::Value;
    use refmodel::ty::*;
    use refmodel::M;
    use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
    include!(concat!(env!("ZOO_GEN"), "/core.rs"));
}

pub type Dec = Result<Result<MV, EK>, Fail>;

#[derive(Clone)]
pub struct DecFns {
    pub from_slice: fn(&[u8]) -> Dec,
    pub from_slice_non_strict: fn(&[u8]) -> Dec,
    pub from_value: fn(Value) -> Dec,
    /// The trait's own method, without the default for null.
    pub try_value: fn(Value) -> Dec,
    pub try_default: fn() -> Dec,
    /// Only drops the result: for memory measurement.
    pub quiet_slice: fn(&[u8], bool) -> bool,
    pub quiet_value: fn(Value) -> bool,
    /// Work of decoding, and of encoding the result to bytes and to a value, if there is one.
    pub work: fn(&[u8], bool) -> Result<Vec<Work>, Fail>,
}

#[derive(Clone)]
pub struct Info {
    pub name: &'static str,
    /// Definition, for messages.
    pub def: &'static str,
    pub ty: TyFn,
    /// By its declaration the type loses nothing (no skipping, ambiguous nulls, overlaps).
    pub lossless: bool,
    pub derived: bool,
    /// What is odd about the place or the names of the definition.
    pub odd: &'static [&'static str],
    pub to_vec: fn(&MV) -> Result<Vec<u8>, Fail>,
    pub to_value: fn(&MV) -> Result<Value, Fail>,
    pub to_optional: fn(&MV) -> Result<(bool, Option<Value>), Fail>,
    pub norm: fn(&MV) -> MV,
    pub dec: Option<DecFns>,
    /// Value and entries through the as-map interface.
    pub as_map: Option<fn(&MV) -> Result<(Value, Vec<(Value, Value)>), Fail>>,
}

pub fn kind(e: DecodeError) -> EK {
    match e {
        DecodeError::ParsingFailed => EK::Parsing,
        DecodeError::UnexpectedType => EK::Type,
        DecodeError::MissingField => EK::Missing,
        DecodeError::UnknownField => EK::Unknown,
        DecodeError::UnexpectedIntegerSize => EK::IntSize,
    }
}
fn out<T: Modeled>(r: Result<T, DecodeError>) -> Result<MV, EK> {
    r.map(|x| x.model()).map_err(kind)
}

pub fn enc_only<T: Modeled + Encode>(name: &'static str, def: &'static str, lossless: bool) -> Info {
    Info {
        name,
        def,
        ty: T::ty,
        lossless,
        derived: !def.is_empty(),
        odd: &[],
        to_vec: |v| {
            let x = T::build(v);
            lib("to_vec", || cbor::to_vec(x))
        },
        to_value: |v| {
            let x = T::build(v);
            lib("to_value", || cbor::to_value(x))
        },
        to_optional: |v| {
            let x = T::build(v);
            let e = lib("is_empty", || x.is_empty())?;
            Ok((e, lib("into_optional_cbor_value", || x.into_optional_cbor_value())?))
        },
        norm: |v| T::build(v).model(),
        dec: None,
        as_map: None,
    }
}
pub fn info<T: Modeled + Encode + Decode>(name: &'static str, def: &'static str, lossless: bool) -> Info {
    let mut i = enc_only::<T>(name, def, lossless);
    i.dec = Some(DecFns {
        from_slice: |b| Ok(out::<T>(lib("from_slice", || cbor::from_slice(b))?)),
        from_slice_non_strict: |b| Ok(out::<T>(lib("from_slice_non_strict", || cbor::from_slice_non_strict(b))?)),
        from_value: |v| Ok(out::<T>(lib("from_value", || cbor::from_value(v))?)),
        try_value: |v| Ok(out::<T>(lib("try_from_cbor_value", || T::try_from_cbor_value(v))?)),
        try_default: || Ok(out::<T>(lib("try_default", || T::try_default())?)),
        quiet_slice: |b, strict| {
            if strict {
                cbor::from_slice::<T>(b).is_ok()
            } else {
                cbor::from_slice_non_strict::<T>(b).is_ok()
            }
        },
        quiet_value: |v| cbor::from_value::<T>(v).is_ok(),
        work: |b, strict| {
            let mut out = Vec::with_capacity(8);
            let mut dec = || {
                lib("decoding", || {
                    let (x, w) = work::of(|| if strict { cbor::from_slice::<T>(b) } else { cbor::from_slice_non_strict::<T>(b) });
                    out.push(w);
                    x.ok()
                })
            };
            let Some(x) = dec()? else { return Ok(out) };
            let y = dec()?;
            out.push(lib("to_vec", || work::of(|| cbor::to_vec(x)).1)?);
            if let Some(y) = y {
                out.push(lib("to_value", || work::of(|| cbor::to_value(y)).1)?);
            }
            Ok(out)
        },
    });
    i
}
impl Info {
    pub fn odd(mut self, odd: &'static [&'static str]) -> Info {
        self.odd = odd;
        self
    }
    pub fn map<T: Modeled + EncodeAsMap>(mut self) -> Info {
        self.as_map = Some(|v| {
            let (x, y) = (T::build(v), T::build(v));
            let a = lib("into_cbor_value_map", || x.into_cbor_value_map())?;
            Ok((a, lib("into_cbor_map", || y.into_cbor_map())?))
        });
        self
    }
}

pub fn types() -> &'static [Info] {
    static T: std::sync::OnceLock<Vec<Info>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = Vec::new();
        gen::types(&mut v);
        v
    })
}
