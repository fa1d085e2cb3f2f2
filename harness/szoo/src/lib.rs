//! Types under test for the serde layer, with their schemas, behind a table of functions.
#![allow(non_camel_case_types, unused, non_shorthand_field_patterns, non_snake_case, dead_code, clippy::all)]
use engine::work::{self, Work};
use engine::{lib, Fail};
use oasis_cbor::serde as s;
use oasis_cbor::Value;
use refmodel::ty::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Buf(#[serde(with = "serde_bytes")] pub Vec<u8>);
impl Modeled for Buf {
    fn ty() -> Ty {
        Ty::Buf
    }
    fn build(v: &MV) -> Self {
        match v {
            MV::Bytes(b) => Buf(b.clone()),
            o => panic!("model: {:?}", o),
        }
    }
    fn model(&self) -> MV {
        MV::Bytes(self.0.clone())
    }
}
pub mod preds {
    pub fn is_default<T: Default + PartialEq>(v: &T) -> bool {
        *v == T::default()
    }
}

/// Types that only derive serde's traits.
pub mod gen_serde {
    use super::{info, preds, Buf, SInfo};
    use refmodel::ty::*;
    use refmodel::M;
    use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
    include!(concat!(env!("ZOO_GEN"), "/serde.rs"));
}
/// Types that derive both codecs.
pub mod gen_both {
    use super::{both, SInfo};
    use refmodel::ty::*;
    use refmodel::M;
    use std::collections::{BTreeMap, BTreeSet, HashMap};
    include!(concat!(env!("ZOO_GEN"), "/both.rs"));
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SE {
    TooDeep,
    Duplicate,
    Bytes,
    Unsupported,
    Value,
    Other,
}
pub fn kind(e: s::Error) -> SE {
    match e {
        s::Error::ByteEncoder(oasis_cbor::writer::EncoderError::TooMuchNesting) => SE::TooDeep,
        s::Error::ByteEncoder(oasis_cbor::writer::EncoderError::DuplicateMapKey) => SE::Duplicate,
        s::Error::ByteDecoder(oasis_cbor::reader::DecoderError::TooMuchNesting) => SE::TooDeep,
        s::Error::ByteDecoder(_) => SE::Bytes,
        s::Error::UnsupportedType(_) => SE::Unsupported,
        s::Error::ValueDecoder(_) => SE::Value,
        #[allow(unreachable_patterns)]
        _ => SE::Other,
    }
}
pub type Res<T> = Result<Result<T, SE>, Fail>;

#[derive(Clone)]
pub struct Core {
    pub to_vec: fn(&MV) -> Result<Vec<u8>, Fail>,
    pub to_value: fn(&MV) -> Result<Value, Fail>,
    pub from_slice: fn(&[u8]) -> Result<Result<MV, String>, Fail>,
    pub from_value: fn(Value) -> Result<Result<MV, String>, Fail>,
}
#[derive(Clone)]
pub struct SInfo {
    pub name: &'static str,
    pub def: &'static str,
    pub ty: TyFn,
    pub lossless: bool,
    pub to_vec: fn(&MV) -> Res<Vec<u8>>,
    pub to_value: fn(&MV) -> Res<Value>,
    pub from_slice: fn(&[u8]) -> Res<MV>,
    pub from_value: fn(Value) -> Res<MV>,
    pub quiet_slice: fn(&[u8]) -> bool,
    /// Work of decoding, and of encoding the result to bytes and to a value, if there is one.
    pub work: fn(&[u8]) -> Result<Vec<Work>, Fail>,
    pub norm: fn(&MV) -> MV,
    pub core: Option<Core>,
}

pub fn info<T: Modeled + Serialize + DeserializeOwned>(name: &'static str, def: &'static str, lossless: bool) -> SInfo {
    SInfo {
        name,
        def,
        ty: T::ty,
        lossless,
        to_vec: |v| {
            let x = T::build(v);
            Ok(lib("serde::to_vec", || s::to_vec(&x))?.map_err(kind))
        },
        to_value: |v| {
            let x = T::build(v);
            Ok(lib("serde::to_value", || s::to_value(&x))?.map_err(kind))
        },
        from_slice: |b| Ok(lib("serde::from_slice", || s::from_slice::<T>(b))?.map(|x| x.model()).map_err(kind)),
        from_value: |v| Ok(lib("serde::from_value", || s::from_value::<T>(v))?.map(|x| x.model()).map_err(kind)),
        quiet_slice: |b| s::from_slice::<T>(b).is_ok(),
        work: |b| {
            let mut out = Vec::with_capacity(8);
            let (x, w) = lib("serde::from_slice", || work::of(|| s::from_slice::<T>(b)))?;
            out.push(w);
            if let Ok(x) = x {
                out.push(lib("serde::to_vec", || work::of(|| drop(s::to_vec(&x))).1)?);
                let (v, w) = lib("serde::to_value", || work::of(|| s::to_value(&x)))?;
                out.push(w);
                if let Ok(v) = v {
                    out.push(lib("serde::from_value", || work::of(|| drop(s::from_value::<T>(v))).1)?);
                }
            }
            Ok(out)
        },
        norm: |v| T::build(v).model(),
        core: None,
    }
}
pub fn both<T>(name: &'static str, def: &'static str, lossless: bool) -> SInfo
where
    T: Modeled + Serialize + DeserializeOwned + oasis_cbor::Encode + oasis_cbor::Decode,
{
    let mut i = info::<T>(name, def, lossless);
    i.core = Some(Core {
        to_vec: |v| {
            let x = T::build(v);
            lib("to_vec", || oasis_cbor::to_vec(x))
        },
        to_value: |v| {
            let x = T::build(v);
            lib("to_value", || oasis_cbor::to_value(x))
        },
        from_slice: |b| Ok(lib("from_slice", || oasis_cbor::from_slice::<T>(b))?.map(|x| x.model()).map_err(|e| format!("{:?}", e))),
        from_value: |v| Ok(lib("from_value", || oasis_cbor::from_value::<T>(v))?.map(|x| x.model()).map_err(|e| format!("{:?}", e))),
    });
    i
}

pub fn types() -> &'static [SInfo] {
    static T: std::sync::OnceLock<Vec<SInfo>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = Vec::new();
        gen_serde::types(&mut v);
        gen_both::types(&mut v);
        v
    })
}
