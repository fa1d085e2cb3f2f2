//! Custom field codecs, each as a pair of Rust functions and as a pair of model functions.
use cbor::DecodeError;
use refmodel::ty::{Codec, Modeled, EK, MV};
use std::collections::BTreeMap;

// u64 as decimal text; no text for nothing.
pub fn dec_ser(v: &u64) -> String {
    v.to_string()
}
pub fn dec_de(s: String) -> Result<u64, DecodeError> {
    s.parse().map_err(|_| DecodeError::UnexpectedType)
}
pub fn m_dec() -> Codec {
    Codec {
        wire: String::ty,
        ser: Some(|v| MV::Str(v.int().to_string())),
        de: Some(|v| v.str().parse::<u64>().map(|x| MV::Int(x as i128)).map_err(|_| EK::Type)),
    }
}
// u64 as hexadecimal text, the empty text for zero.
pub fn hex_ser(v: &u64) -> String {
    if *v == 0 {
        String::new()
    } else {
        format!("{:x}", v)
    }
}
pub fn hex_de(s: String) -> Result<u64, DecodeError> {
    if s.is_empty() {
        return Ok(0);
    }
    u64::from_str_radix(&s, 16).map_err(|_| DecodeError::UnexpectedIntegerSize)
}
pub fn m_hex() -> Codec {
    Codec {
        wire: String::ty,
        ser: Some(|v| MV::Str(if v.int() == 0 { String::new() } else { format!("{:x}", v.int()) })),
        de: Some(|v| match v.str() {
            "" => Ok(MV::Int(0)),
            s => u64::from_str_radix(s, 16).map(|x| MV::Int(x as i128)).map_err(|_| EK::IntSize),
        }),
    }
}
// bool as 0 or 1.
pub fn bit_ser(v: &bool) -> u8 {
    *v as u8
}
pub fn bit_de(v: u8) -> Result<bool, DecodeError> {
    match v {
        0 => Ok(false),
        1 => Ok(true),
        _ => Err(DecodeError::UnexpectedIntegerSize),
    }
}
pub fn m_bit() -> Codec {
    Codec {
        wire: u8::ty,
        ser: Some(|v| MV::Int((*v == MV::Bool(true)) as i128)),
        de: Some(|v| match v.int() {
            0 => Ok(MV::Bool(false)),
            1 => Ok(MV::Bool(true)),
            _ => Err(EK::IntSize),
        }),
    }
}
// Option<u32> as a number, zero for none.
pub fn plus_ser(v: &Option<u32>) -> u64 {
    v.map_or(0, |x| x as u64 + 1)
}
pub fn plus_de(v: u64) -> Result<Option<u32>, DecodeError> {
    if v == 0 {
        return Ok(None);
    }
    u32::try_from(v - 1).map(Some).map_err(|_| DecodeError::UnexpectedIntegerSize)
}
pub fn m_plus() -> Codec {
    Codec {
        wire: u64::ty,
        ser: Some(|v| match v {
            MV::Opt(Some(x)) => MV::Int(x.int() + 1),
            _ => MV::Int(0),
        }),
        de: Some(|v| match v.int() {
            0 => Ok(MV::Opt(None)),
            n if n - 1 <= u32::MAX as i128 => Ok(MV::Opt(Some(Box::new(MV::Int(n - 1))))),
            _ => Err(EK::IntSize),
        }),
    }
}
// A map as a list of pairs.
pub fn pairs_ser(v: &BTreeMap<u8, String>) -> Vec<(u8, String)> {
    v.iter().map(|(k, x)| (*k, x.clone())).collect()
}
pub fn pairs_de(v: Vec<(u8, String)>) -> Result<BTreeMap<u8, String>, DecodeError> {
    Ok(v.into_iter().collect())
}
pub fn m_pairs() -> Codec {
    Codec {
        wire: Vec::<(u8, String)>::ty,
        ser: Some(|v| match v {
            MV::Map(v) => MV::Seq(v.iter().map(|(k, x)| MV::Seq(vec![k.clone(), x.clone()])).collect()),
            o => panic!("model: {:?}", o),
        }),
        de: Some(|v| {
            let m: BTreeMap<MV, MV> = v.seq().iter().map(|p| (p.seq()[0].clone(), p.seq()[1].clone())).collect();
            Ok(MV::Map(m.into_iter().collect()))
        }),
    }
}
// Only one direction is custom.
pub fn ref_ser(v: &u64) -> &u64 {
    v
}
pub fn m_ref() -> Codec {
    Codec { wire: u64::ty, ser: Some(|v| v.clone()), de: None }
}
pub fn odd_de(v: u32) -> Result<u32, DecodeError> {
    if v == 0 || v & 1 == 1 {
        Ok(v)
    } else {
        Err(DecodeError::UnexpectedType)
    }
}
pub fn m_odd() -> Codec {
    Codec { wire: u32::ty, ser: None, de: Some(|v| if v.int() == 0 || v.int() & 1 == 1 { Ok(v) } else { Err(EK::Type) }) }
}
// Bytes as a text in which every byte is one character.
pub fn latin_ser(v: &Vec<u8>) -> String {
    v.iter().map(|b| *b as char).collect()
}
pub fn latin_de(s: String) -> Result<Vec<u8>, DecodeError> {
    s.chars().map(|c| u8::try_from(c as u32).map_err(|_| DecodeError::UnexpectedIntegerSize)).collect()
}
pub fn m_latin() -> Codec {
    Codec {
        wire: String::ty,
        ser: Some(|v| match v {
            MV::Bytes(b) => MV::Str(b.iter().map(|b| *b as char).collect()),
            o => panic!("model: {:?}", o),
        }),
        de: Some(|v| {
            let r: Result<Vec<u8>, _> = v.str().chars().map(|c| u8::try_from(c as u32)).collect();
            r.map(MV::Bytes).map_err(|_| EK::IntSize)
        }),
    }
}

pub fn is_default<T: Default + PartialEq>(v: &T) -> bool {
    *v == T::default()
}
pub fn is_seven(v: &u64) -> bool {
    *v == 7
}
