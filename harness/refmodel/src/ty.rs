//! Model of the typed layer: schemas of Rust types, abstract values, their wire form, and what decoding
//! an arbitrary item into a type must do. Written from the documented attribute semantics.
use crate::wire::{canonical, raw, M, NULL, UNDEF};
use engine::Tape;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub type TyFn = fn() -> Ty;

#[derive(Clone, Copy)]
pub enum Ty {
    /// Integer of the given width; signed or not.
    Int(u32, bool),
    U128,
    Bool,
    Char,
    Str,
    /// Vec<u8>
    Bytes,
    /// [u8; N]
    ByteArr(usize),
    /// A byte buffer that serde sees as such.
    Buf,
    Unit,
    Value,
    Opt(TyFn),
    Seq(TyFn),
    Arr(TyFn, usize),
    Tup(&'static [TyFn]),
    Map(TyFn, TyFn),
    /// Element type; true when the set is hashed.
    Set(TyFn, bool),
    Struct(&'static Struct),
    Enum(&'static Enum),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum MV {
    Int(i128),
    U128(u128),
    Bool(bool),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    Val(M),
    Opt(Option<Box<MV>>),
    /// Sequences, arrays, tuples, sets.
    Seq(Vec<MV>),
    Map(Vec<(MV, MV)>),
    Struct(Vec<MV>),
    Enum(usize, Vec<MV>),
}
impl MV {
    fn len(&self) -> usize {
        match self {
            MV::Bytes(b) => b.len(),
            o => o.seq().len(),
        }
    }
    pub fn seq(&self) -> &[MV] {
        match self {
            MV::Seq(v) => v,
            o => panic!("model: not a sequence: {:?}", o),
        }
    }
    pub fn fields(&self) -> &[MV] {
        match self {
            MV::Struct(v) => v,
            o => panic!("model: not a struct: {:?}", o),
        }
    }
    pub fn int(&self) -> i128 {
        match self {
            MV::Int(v) => *v,
            o => panic!("model: not an integer: {:?}", o),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            MV::Str(v) => v,
            o => panic!("model: not a string: {:?}", o),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum EK {
    Parsing,
    Type,
    Missing,
    Unknown,
    IntSize,
}
/// Every fault found in the input (any of them may be reported).
pub type Faults = BTreeSet<EK>;
fn fault<T>(k: EK) -> Result<T, Faults> {
    Err([k].into_iter().collect())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    Unit,
    Map,
    Array,
    Transparent,
}

pub struct Codec {
    /// Type the custom functions translate to and from.
    pub wire: TyFn,
    pub ser: Option<fn(&MV) -> MV>,
    pub de: Option<fn(MV) -> Result<MV, EK>>,
}

pub struct Field {
    pub name: &'static str,
    pub key: M,
    pub ty: TyFn,
    pub optional: bool,
    pub skip: bool,
    pub skip_if: Option<fn(&MV) -> bool>,
    pub codec: Option<Codec>,
    /// serde only: what a missing field stands for is the default.
    pub sdefault: bool,
    /// `Default::default()` of the field's type.
    pub default: Option<fn() -> MV>,
}
impl Field {
    pub fn new(name: &'static str, key: M, ty: TyFn) -> Field {
        Field { name, key, ty, optional: false, skip: false, skip_if: None, codec: None, sdefault: false, default: None }
    }
    pub fn wire_ty(&self) -> Ty {
        match &self.codec {
            Some(c) => (c.wire)(),
            None => (self.ty)(),
        }
    }
}

pub struct Struct {
    pub name: &'static str,
    pub shape: Shape,
    pub allow_unknown: bool,
    /// What decoding nothing gives.
    pub default: Option<fn() -> MV>,
    pub fields: Vec<Field>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum VKind {
    Unit,
    Newtype,
    /// Array-shaped payload.
    Array,
    /// Map-shaped payload.
    Map,
    /// Unit variant that has an (empty map) payload.
    UnitStruct,
}
pub struct Variant {
    pub name: &'static str,
    pub key: M,
    pub kind: VKind,
    pub skip: bool,
    pub embed: bool,
    pub missing: bool,
    pub allow_unknown: bool,
    pub fields: Vec<Field>,
}
pub struct Enum {
    pub name: &'static str,
    pub tag: Option<M>,
    pub untagged: bool,
    pub default: Option<fn() -> MV>,
    pub variants: Vec<Variant>,
}

/// A Rust type with its schema.
pub trait Modeled: Sized + 'static {
    const BYTE: bool = false;
    fn ty() -> Ty;
    fn build(v: &MV) -> Self;
    fn model(&self) -> MV;
}

/// One leaked schema per type.
pub fn memo<T: 'static, D: 'static>(f: impl FnOnce() -> D) -> &'static D {
    use std::any::{Any, TypeId};
    thread_local! {
        static C: std::cell::RefCell<HashMap<TypeId, &'static dyn Any>> = Default::default();
    }
    let id = TypeId::of::<T>();
    if let Some(d) = C.with(|c| c.borrow().get(&id).copied()) {
        return d.downcast_ref::<D>().expect("schema type");
    }
    let d: &'static D = Box::leak(Box::new(f()));
    C.with(|c| c.borrow_mut().insert(id, d));
    d
}

macro_rules! ints {
    ($($t:ty, $w:expr, $s:expr, $b:expr;)*) => { $(
        impl Modeled for $t {
            const BYTE: bool = $b;
            fn ty() -> Ty { Ty::Int($w, $s) }
            fn build(v: &MV) -> Self { <$t>::try_from(v.int()).expect("model: range") }
            fn model(&self) -> MV { MV::Int(*self as i128) }
        }
    )* };
}
ints! {
    u8, 8, false, true; u16, 16, false, false; u32, 32, false, false; u64, 64, false, false;
    i8, 8, true, false; i16, 16, true, false; i32, 32, true, false; i64, 64, true, false;
}
macro_rules! plain {
    ($($t:ty, $ty:expr, $mv:ident;)*) => { $(
        impl Modeled for $t {
            fn ty() -> Ty { $ty }
            fn build(v: &MV) -> Self {
                match v { MV::$mv(x) => x.clone(), o => panic!("model: {:?}", o) }
            }
            fn model(&self) -> MV { MV::$mv(self.clone()) }
        }
    )* };
}
plain! {
    u128, Ty::U128, U128;
    bool, Ty::Bool, Bool;
    char, Ty::Char, Char;
}
impl Modeled for String {
    fn ty() -> Ty {
        Ty::Str
    }
    fn build(v: &MV) -> Self {
        let MV::Str(x) = v else { panic!("model: {:?}", v) };
        let Some(mut r) = history() else { return x.clone() };
        let mut s = String::with_capacity(r.below(3) as usize * 20);
        s.push_str(x);
        for _ in 0..r.below(4) {
            s.push('x');
        }
        s.truncate(x.len());
        if r.below(4) == 0 {
            s.shrink_to_fit();
        }
        s
    }
    fn model(&self) -> MV {
        MV::Str(self.clone())
    }
}
impl Modeled for () {
    fn ty() -> Ty {
        Ty::Unit
    }
    fn build(_: &MV) {}
    fn model(&self) -> MV {
        MV::Unit
    }
}
impl Modeled for oasis_cbor_value::Value {
    fn ty() -> Ty {
        Ty::Value
    }
    fn build(v: &MV) -> Self {
        let MV::Val(m) = v else { panic!("model: {:?}", v) };
        let mut x = crate::value::to_value(m);
        if let Some(mut r) = history() {
            crate::value::roomy(&mut x, &mut |n| r.below(n));
        }
        x
    }
    fn model(&self) -> MV {
        MV::Val(crate::value::from_value(self).expect("value outside of CBOR"))
    }
}
impl<T: Modeled> Modeled for Option<T> {
    fn ty() -> Ty {
        Ty::Opt(T::ty)
    }
    fn build(v: &MV) -> Self {
        match v {
            MV::Opt(o) => o.as_ref().map(|x| T::build(x)),
            o => panic!("model: {:?}", o),
        }
    }
    fn model(&self) -> MV {
        MV::Opt(self.as_ref().map(|x| Box::new(x.model())))
    }
}
fn build_seq<T: Modeled>(v: &MV) -> Vec<T> {
    match v {
        MV::Bytes(b) => b.iter().map(|x| T::build(&MV::Int(*x as i128))).collect(),
        MV::Seq(v) => v.iter().map(T::build).collect(),
        o => panic!("model: {:?}", o),
    }
}
fn abs_seq<T: Modeled>(v: &[T]) -> MV {
    if T::BYTE {
        MV::Bytes(v.iter().map(|x| x.model().int() as u8).collect())
    } else {
        MV::Seq(v.iter().map(T::model).collect())
    }
}
impl<T: Modeled> Modeled for Vec<T> {
    fn ty() -> Ty {
        if T::BYTE {
            Ty::Bytes
        } else {
            Ty::Seq(T::ty)
        }
    }
    fn build(v: &MV) -> Self {
        let mut s = build_seq(v);
        if let Some(mut r) = history() {
            s.reserve(r.below(3) as usize * 20);
            let extra = match v {
                MV::Bytes(b) => b.first().map(|x| T::build(&MV::Int(*x as i128))),
                o => o.seq().first().map(T::build),
            };
            if r.below(2) == 0 {
                s.extend(extra);
                s.truncate(v.len());
            }
            if r.below(4) == 0 {
                s.shrink_to_fit();
            }
        }
        s
    }
    fn model(&self) -> MV {
        abs_seq(self)
    }
}
impl<T: Modeled, const N: usize> Modeled for [T; N] {
    fn ty() -> Ty {
        if T::BYTE {
            Ty::ByteArr(N)
        } else {
            Ty::Arr(T::ty, N)
        }
    }
    fn build(v: &MV) -> Self {
        match build_seq(v).try_into() {
            Ok(a) => a,
            Err(_) => panic!("model: array length"),
        }
    }
    fn model(&self) -> MV {
        abs_seq(self)
    }
}
fn build_pairs<K: Modeled, V: Modeled>(v: &MV) -> Vec<(K, V)> {
    match v {
        MV::Map(v) => v.iter().map(|(k, x)| (K::build(k), V::build(x))).collect(),
        o => panic!("model: {:?}", o),
    }
}
impl<K: Modeled + Ord, V: Modeled> Modeled for BTreeMap<K, V> {
    fn ty() -> Ty {
        Ty::Map(K::ty, V::ty)
    }
    fn build(v: &MV) -> Self {
        let mut p: Vec<(K, V)> = build_pairs(v);
        if let Some(mut r) = history() {
            permute(&mut p, &mut r);
        }
        let mut m = BTreeMap::new();
        if let Some(mut r) = history() {
            for (k, x) in build_pairs::<K, V>(v) {
                if r.below(3) == 0 {
                    m.insert(k, x);
                }
            }
            for (k, _) in build_pairs::<K, V>(v) {
                if r.below(2) == 0 {
                    m.remove(&k);
                }
            }
        }
        for (k, x) in p {
            m.insert(k, x);
        }
        m
    }
    fn model(&self) -> MV {
        let mut v: Vec<(MV, MV)> = self.iter().map(|(k, x)| (k.model(), x.model())).collect();
        v.sort();
        MV::Map(v)
    }
}
thread_local! {
    static HISTORY: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}
/// Runs `f` while hashed and ordered collections are built through a construction history drawn from `h`:
/// other insertion orders, removals and re-insertions, spare capacity.
pub fn with_history<T>(h: u64, f: impl FnOnce() -> T) -> T {
    let old = HISTORY.with(|c| c.replace(Some(h)));
    let r = f();
    HISTORY.with(|c| c.set(old));
    r
}
fn history() -> Option<engine::rng::Rng> {
    HISTORY.with(|c| {
        let h = c.get()?;
        c.set(Some(engine::rng::mix(h)));
        Some(engine::rng::Rng::new(h))
    })
}
fn permute<T>(v: &mut [T], r: &mut engine::rng::Rng) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}
impl<K: Modeled + Eq + std::hash::Hash, V: Modeled> Modeled for HashMap<K, V> {
    fn ty() -> Ty {
        Ty::Map(K::ty, V::ty)
    }
    fn build(v: &MV) -> Self {
        let Some(mut r) = history() else { return build_pairs(v).into_iter().collect() };
        let mut m = HashMap::with_capacity(r.below(200) as usize);
        let mut p: Vec<(K, V)> = build_pairs(v);
        for (k, x) in build_pairs::<K, V>(v) {
            if r.below(3) == 0 {
                m.insert(k, x);
            }
        }
        for (k, _) in build_pairs::<K, V>(v) {
            if r.below(2) == 0 {
                m.remove(&k);
            }
        }
        permute(&mut p, &mut r);
        for (k, x) in p {
            m.insert(k, x);
        }
        if r.below(3) == 0 {
            m.shrink_to_fit();
        }
        m
    }
    fn model(&self) -> MV {
        let mut v: Vec<(MV, MV)> = self.iter().map(|(k, x)| (k.model(), x.model())).collect();
        v.sort();
        MV::Map(v)
    }
}
impl<T: Modeled + Ord> Modeled for BTreeSet<T> {
    fn ty() -> Ty {
        Ty::Set(T::ty, false)
    }
    fn build(v: &MV) -> Self {
        let mut p: Vec<T> = v.seq().iter().map(T::build).collect();
        let Some(mut r) = history() else { return p.into_iter().collect() };
        permute(&mut p, &mut r);
        let mut m: BTreeSet<T> = v.seq().iter().map(T::build).filter(|_| r.below(3) == 0).collect();
        for x in v.seq() {
            if r.below(2) == 0 {
                m.remove(&T::build(x));
            }
        }
        m.extend(p);
        m
    }
    /// In iteration order, which is also the order of the encoding.
    fn model(&self) -> MV {
        MV::Seq(self.iter().map(T::model).collect())
    }
}
impl<T: Modeled + Eq + std::hash::Hash> Modeled for HashSet<T> {
    fn ty() -> Ty {
        Ty::Set(T::ty, true)
    }
    fn build(v: &MV) -> Self {
        let Some(mut r) = history() else { return v.seq().iter().map(T::build).collect() };
        let mut m = HashSet::with_capacity(r.below(200) as usize);
        let mut p: Vec<T> = v.seq().iter().map(T::build).collect();
        for x in v.seq() {
            if r.below(3) == 0 {
                m.insert(T::build(x));
            }
        }
        for x in v.seq() {
            if r.below(2) == 0 {
                m.remove(&T::build(x));
            }
        }
        permute(&mut p, &mut r);
        m.extend(p);
        m
    }
    fn model(&self) -> MV {
        let mut v: Vec<MV> = self.iter().map(T::model).collect();
        v.sort();
        MV::Seq(v)
    }
}
macro_rules! tuples {
    ($(($($n:ident $i:tt),*))*) => { $(
        impl<$($n: Modeled),*> Modeled for ($($n,)*) {
            fn ty() -> Ty {
                Ty::Tup(memo::<Self, Vec<TyFn>>(|| vec![$($n::ty),*]))
            }
            fn build(v: &MV) -> Self {
                let f = v.seq();
                ($($n::build(&f[$i]),)*)
            }
            fn model(&self) -> MV {
                MV::Seq(vec![$(self.$i.model()),*])
            }
        }
    )* };
}
tuples! {
    (A 0) (A 0, B 1) (A 0, B 1, C 2) (A 0, B 1, C 2, D 3) (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5) (A 0, B 1, C 2, D 3, E 4, F 5, G 6) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8) (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
}

// ---------------------------------------------------------------------------------------------------
// Encoding.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Core,
    Serde,
}

fn u128_bytes(v: u128) -> Vec<u8> {
    let b = v.to_be_bytes();
    let z = b.iter().take_while(|x| **x == 0).count();
    b[z..].to_vec()
}

/// Wire form, map entries in declaration order.
pub fn enc(ty: Ty, v: &MV, mode: Mode) -> M {
    let kids = |t: TyFn, v: &[MV]| v.iter().map(|x| enc(t(), x, mode)).collect::<Vec<M>>();
    match (ty, v) {
        (Ty::Int(..), MV::Int(i)) => M::int(*i),
        (Ty::U128, MV::U128(x)) => M::B(u128_bytes(*x)),
        (Ty::Bool, MV::Bool(b)) => M::S(20 + *b as u8),
        (Ty::Char, MV::Char(c)) => M::U(*c as u64),
        (Ty::Str, MV::Str(s)) => M::T(s.clone()),
        (Ty::Bytes | Ty::ByteArr(_), MV::Bytes(b)) => match mode {
            Mode::Core => M::B(b.clone()),
            Mode::Serde => M::A(b.iter().map(|x| M::U(*x as u64)).collect()),
        },
        (Ty::Buf, MV::Bytes(b)) => M::B(b.clone()),
        (Ty::Unit, _) => NULL,
        (Ty::Value, MV::Val(m)) => m.clone(),
        (Ty::Opt(_), MV::Opt(None)) => NULL,
        (Ty::Opt(t), MV::Opt(Some(x))) => enc(t(), x, mode),
        (Ty::Seq(t) | Ty::Arr(t, _), MV::Seq(v)) => M::A(kids(t, v)),
        (Ty::Set(t, hashed), MV::Seq(v)) => {
            let mut k = kids(t, v);
            if hashed {
                k.sort_by_key(|x| raw(&canonical(x).expect("model: keys")));
            }
            M::A(k)
        }
        (Ty::Tup(ts), MV::Seq(v)) => M::A(ts.iter().zip(v).map(|(t, x)| enc(t(), x, mode)).collect()),
        (Ty::Map(k, x), MV::Map(v)) => M::Map(v.iter().map(|(a, b)| (enc(k(), a, mode), enc(x(), b, mode))).collect()),
        (Ty::Struct(s), MV::Struct(f)) => match s.shape {
            Shape::Unit => NULL,
            Shape::Transparent => enc((s.fields[0].ty)(), &f[0], mode),
            Shape::Array => M::A(enc_array(&s.fields, f, mode)),
            Shape::Map => M::Map(enc_map(&s.fields, f, mode, false)),
        },
        (Ty::Enum(e), MV::Enum(i, f)) => {
            let var = &e.variants[*i];
            if var.skip {
                return UNDEF;
            }
            let inner = match var.kind {
                _ if var.embed => return enc((var.fields[0].ty)(), &f[0], mode),
                VKind::Unit => return var.key.clone(),
                VKind::UnitStruct => M::Map(vec![]),
                VKind::Newtype => enc((var.fields[0].ty)(), &f[0], mode),
                VKind::Array => M::A(enc_array(&var.fields, f, mode)),
                VKind::Map => M::Map(enc_map(&var.fields, f, mode, false)),
            };
            match (&e.tag, inner) {
                (_, inner) if e.untagged || var.missing => inner,
                (Some(tag), M::Map(mut v)) => {
                    v.push((tag.clone(), var.key.clone()));
                    M::Map(v)
                }
                (Some(_), o) => panic!("model: tagged payload {:?}", o),
                (None, inner) => M::Map(vec![(var.key.clone(), inner)]),
            }
        }
        (_, v) => panic!("model: value {:?} does not fit its type", v),
    }
}
fn source(f: &Field, v: &MV) -> (Ty, MV) {
    match &f.codec {
        Some(Codec { ser: Some(s), wire, .. }) => (wire(), s(v)),
        _ => ((f.ty)(), v.clone()),
    }
}
fn enc_array(fs: &[Field], v: &[MV], mode: Mode) -> Vec<M> {
    fs.iter()
        .zip(v)
        .filter(|(f, _)| !f.skip)
        .map(|(f, x)| {
            let (t, x) = source(f, x);
            enc(t, &x, mode)
        })
        .collect()
}
/// `all`: also write fields that may be left out.
pub fn enc_map(fs: &[Field], v: &[MV], mode: Mode, all: bool) -> Vec<(M, M)> {
    fs.iter()
        .zip(v)
        .filter(|(f, _)| !f.skip)
        .filter_map(|(f, x)| {
            let (t, w) = source(f, x);
            let omitted = f.optional
                && match f.skip_if {
                    Some(p) => p(x),
                    None => omitted(t, &w, mode),
                };
            if omitted && !all {
                return None;
            }
            Some((f.key.clone(), enc(t, &w, mode)))
        })
        .collect()
}
/// The "equal to the empty value for the type" rule of built-in types.
pub fn is_empty(ty: Ty, v: &MV) -> bool {
    match (ty, v) {
        (Ty::Int(..), MV::Int(i)) => *i == 0,
        (Ty::U128, MV::U128(x)) => *x == 0,
        (Ty::Bool, MV::Bool(b)) => !*b,
        (Ty::Char, MV::Char(c)) => *c == '\0',
        (Ty::Str, MV::Str(s)) => s.is_empty(),
        (Ty::Bytes, MV::Bytes(b)) => b.is_empty(),
        (Ty::Unit, _) => true,
        (Ty::Value, MV::Val(m)) => m.is_nullish(),
        (Ty::Opt(_), MV::Opt(o)) => o.is_none(),
        (Ty::Seq(_) | Ty::Set(..), MV::Seq(v)) => v.is_empty(),
        (Ty::Map(..), MV::Map(v)) => v.is_empty(),
        (Ty::Tup(ts), MV::Seq(v)) => ts.iter().zip(v).all(|(t, x)| is_empty(t(), x)),
        _ => false,
    }
}
/// Whether an optional field with this value is left out.
pub fn omitted(ty: Ty, v: &MV, mode: Mode) -> bool {
    match (ty, v) {
        (Ty::Struct(s), MV::Struct(f)) => match s.shape {
            Shape::Unit => true,
            Shape::Transparent => omitted((s.fields[0].ty)(), &f[0], mode),
            Shape::Array => false,
            Shape::Map => enc_map(&s.fields, f, mode, false).is_empty(),
        },
        (Ty::Enum(_), _) => false,
        _ => is_empty(ty, v),
    }
}

// ---------------------------------------------------------------------------------------------------
// Decoding (core).

pub fn default(ty: Ty) -> Result<MV, Faults> {
    Ok(match ty {
        Ty::Int(..) => MV::Int(0),
        Ty::U128 => MV::U128(0),
        Ty::Bool => MV::Bool(false),
        Ty::Char => MV::Char('\0'),
        Ty::Str => MV::Str(String::new()),
        Ty::Bytes | Ty::Buf => MV::Bytes(vec![]),
        Ty::ByteArr(n) => MV::Bytes(vec![0; n]),
        Ty::Unit => MV::Unit,
        Ty::Value => MV::Val(NULL),
        Ty::Opt(_) => MV::Opt(None),
        Ty::Seq(_) | Ty::Set(..) => MV::Seq(vec![]),
        Ty::Map(..) => MV::Map(vec![]),
        Ty::Arr(..) => return fault(EK::Missing),
        Ty::Tup(ts) => MV::Seq(all(ts.iter().map(|t| default(t())))?),
        Ty::Struct(Struct { default, .. }) | Ty::Enum(Enum { default, .. }) => match default {
            Some(f) => f(),
            None => return fault(EK::Missing),
        },
    })
}
fn all<T>(it: impl Iterator<Item = Result<T, Faults>>) -> Result<Vec<T>, Faults> {
    let mut ok = Vec::new();
    let mut bad = Faults::new();
    for x in it {
        match x {
            Ok(x) => ok.push(x),
            Err(e) => bad.extend(e),
        }
    }
    if bad.is_empty() {
        Ok(ok)
    } else {
        Err(bad)
    }
}
fn both<A, B>(a: Result<A, Faults>, b: Result<B, Faults>) -> Result<(A, B), Faults> {
    match (a, b) {
        (Ok(a), Ok(b)) => Ok((a, b)),
        (Err(mut a), Err(b)) => {
            a.extend(b);
            Err(a)
        }
        (Err(e), _) | (_, Err(e)) => Err(e),
    }
}

/// Decoding of a whole item or of a field: null and undefined stand for the default.
pub fn dec_d(ty: Ty, m: &M) -> Result<MV, Faults> {
    if m.is_nullish() {
        default(ty)
    } else {
        dec(ty, m)
    }
}
/// Decoding of an element.
pub fn dec(ty: Ty, m: &M) -> Result<MV, Faults> {
    Ok(match (ty, m) {
        (Ty::Int(w, signed), M::U(_) | M::N(_)) => {
            let i = m.as_int().expect("integer");
            if !signed && i < 0 {
                return Err([EK::Type, EK::IntSize].into_iter().collect());
            }
            let (lo, hi) = if signed { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) };
            if i < lo || i > hi {
                return fault(EK::IntSize);
            }
            MV::Int(i)
        }
        (Ty::U128, M::B(b)) => {
            if b.len() > 16 {
                return fault(EK::IntSize);
            }
            MV::U128(b.iter().fold(0, |a, x| a << 8 | *x as u128))
        }
        (Ty::Bool, M::S(s @ (20 | 21))) => MV::Bool(*s == 21),
        (Ty::Char, M::U(n)) => match u32::try_from(*n).ok().and_then(char::from_u32) {
            Some(c) => MV::Char(c),
            None => return Err([EK::Type, EK::IntSize].into_iter().collect()),
        },
        (Ty::Str, M::T(s)) => MV::Str(s.clone()),
        (Ty::Bytes, M::B(b)) => MV::Bytes(b.clone()),
        (Ty::ByteArr(n), M::B(b)) => {
            if b.len() != n {
                return fault(EK::Type);
            }
            MV::Bytes(b.clone())
        }
        (Ty::Unit, M::S(22 | 23)) => MV::Unit,
        (Ty::Value, m) => MV::Val(m.clone()),
        (Ty::Opt(_), M::S(22)) => MV::Opt(None),
        (Ty::Opt(t), m) => MV::Opt(Some(Box::new(dec(t(), m)?))),
        (Ty::Seq(t), M::A(v)) => MV::Seq(all(v.iter().map(|x| dec(t(), x)))?),
        (Ty::Set(t, _), M::A(v)) => {
            let v = all(v.iter().map(|x| dec(t(), x)))?;
            MV::Seq(v.into_iter().collect::<BTreeSet<_>>().into_iter().collect())
        }
        (Ty::Arr(t, n), M::A(v)) => {
            let r = all(v.iter().map(|x| dec(t(), x)));
            if v.len() != n {
                return both(r, fault::<()>(EK::Type)).map(|_| unreachable!());
            }
            MV::Seq(r?)
        }
        (Ty::Tup(ts), M::A(v)) => {
            let r = all(ts.iter().zip(v).map(|(t, x)| dec(t(), x)));
            MV::Seq(both(r, len_fault(v.len(), ts.len(), false))?.0)
        }
        (Ty::Map(k, x), M::Map(v)) => {
            let v = all(v.iter().map(|(a, b)| both(dec(k(), a), dec(x(), b))))?;
            // Later entries win.
            MV::Map(v.into_iter().collect::<BTreeMap<_, _>>().into_iter().collect())
        }
        (Ty::Struct(s), m) => {
            if s.shape == Shape::Transparent {
                return Ok(MV::Struct(vec![dec_d((s.fields[0].ty)(), m)?]));
            }
            MV::Struct(dec_fields(s.shape, &s.fields, s.allow_unknown, m)?)
        }
        (Ty::Enum(e), m) => return dec_enum(e, m),
        _ => return fault(EK::Type),
    })
}
fn len_fault(got: usize, want: usize, allow_more: bool) -> Result<(), Faults> {
    if got < want {
        fault(EK::Missing)
    } else if got > want && !allow_more {
        fault(EK::Unknown)
    } else {
        Ok(())
    }
}
fn dec_field(f: &Field, m: &M) -> Result<MV, Faults> {
    match &f.codec {
        Some(Codec { wire, de: Some(d), .. }) => {
            let w = dec_d(wire(), m)?;
            d(w).map_err(|e| [e].into_iter().collect())
        }
        _ => dec_d((f.ty)(), m),
    }
}
fn dec_fields(shape: Shape, fs: &[Field], allow_unknown: bool, m: &M) -> Result<Vec<MV>, Faults> {
    let dflt = |f: &Field| Ok((f.default.expect("model: default of a skipped field"))());
    match (shape, m) {
        (Shape::Unit, M::S(22 | 23)) => Ok(vec![]),
        (Shape::Unit, M::Map(v)) => {
            if !v.is_empty() && !allow_unknown {
                return fault(EK::Unknown);
            }
            Ok(vec![])
        }
        (Shape::Array, M::A(v)) => {
            let mut it = v.iter();
            let r = all(fs.iter().map(|f| {
                if f.skip {
                    return dflt(f);
                }
                match it.next() {
                    Some(x) => dec_field(f, x),
                    None => fault(EK::Missing),
                }
            }));
            let want = fs.iter().filter(|f| !f.skip).count();
            Ok(both(r, len_fault(v.len(), want, allow_unknown))?.0)
        }
        (Shape::Map, M::Map(v)) => {
            let mut extra = Ok(());
            let known = |k: &M| fs.iter().any(|f| !f.skip && f.key == *k);
            let repeated = |k: &M| v.iter().filter(|e| e.0 == *k).count() > 1;
            for (k, _) in v {
                if if known(k) { repeated(k) } else { !allow_unknown } {
                    extra = fault(EK::Unknown);
                }
            }
            let r = all(fs.iter().map(|f| {
                if f.skip {
                    return dflt(f);
                }
                match v.iter().find(|e| e.0 == f.key) {
                    Some((k, _)) if repeated(k) => {
                        // Whichever is looked at may also be bad.
                        all(v.iter().filter(|e| e.0 == f.key).map(|e| dec_field(f, &e.1))).map(|mut x| x.pop().expect("one"))
                    }
                    Some((_, x)) => dec_field(f, x),
                    None => dec_field(f, &NULL),
                }
            }));
            Ok(both(r, extra)?.0)
        }
        _ => fault(EK::Type),
    }
}
fn payload(var: &Variant, m: &M) -> Result<Vec<MV>, Faults> {
    match var.kind {
        VKind::Newtype => Ok(vec![dec_d((var.fields[0].ty)(), m)?]),
        VKind::Unit | VKind::UnitStruct => dec_fields(Shape::Unit, &[], var.allow_unknown, m),
        VKind::Array => dec_fields(Shape::Array, &var.fields, var.allow_unknown, m),
        VKind::Map => dec_fields(Shape::Map, &var.fields, var.allow_unknown, m),
    }
}
fn dec_enum(e: &Enum, m: &M) -> Result<MV, Faults> {
    let usable = || e.variants.iter().enumerate().filter(|(_, v)| !v.skip);
    if let Some(tag) = &e.tag {
        let M::Map(v) = m else { return fault(EK::Type) };
        let mut v = v.clone();
        let key = match v.iter().position(|x| x.0 == *tag) {
            Some(i) => v.remove(i).1,
            None => UNDEF,
        };
        for (i, var) in usable() {
            if var.key == key || (var.missing && key == UNDEF) {
                return Ok(MV::Enum(i, payload(var, &M::Map(v))?));
            }
        }
        return fault(EK::Unknown);
    }
    let embedded = |m: &M| {
        for (i, var) in usable().filter(|(_, v)| v.embed) {
            if let Ok(x) = dec_d((var.fields[0].ty)(), m) {
                return Ok(MV::Enum(i, vec![x]));
            }
        }
        fault(EK::Unknown)
    };
    match m {
        M::Map(v) if v.len() == 1 => {
            for (i, var) in usable().filter(|(_, v)| !v.embed && v.kind != VKind::Unit) {
                if var.key == v[0].0 {
                    return Ok(MV::Enum(i, payload(var, &v[0].1)?));
                }
            }
            embedded(m)
        }
        M::Map(_) if usable().any(|(_, v)| !v.embed && v.kind != VKind::Unit) => fault(EK::Unknown),
        m => {
            for (i, var) in usable().filter(|(_, v)| !v.embed && v.kind == VKind::Unit) {
                if var.key == *m {
                    return Ok(MV::Enum(i, vec![]));
                }
            }
            embedded(m)
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// Generation.

pub fn int_range(w: u32, signed: bool) -> (i128, i128) {
    if signed {
        (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
    } else {
        (0, (1i128 << w) - 1)
    }
}
/// A value of the type. The tape's budget bounds its size; `depth` bounds recursion.
pub fn gen(t: &mut Tape, ty: Ty, depth: usize) -> MV {
    t.budget -= 1;
    let small = t.budget <= 0 || depth == 0;
    match ty {
        Ty::Int(w, s) => {
            if t.chance(1, 5) {
                return MV::Int(0);
            }
            let (lo, hi) = int_range(w, s);
            MV::Int(t.sint(lo, hi))
        }
        Ty::U128 => {
            let k = t.below(6);
            MV::U128(match k {
                0 => 0,
                1 => t.int() as u128,
                2 => 1u128 << t.below(128),
                3 => (1u128 << t.below(128)).wrapping_sub(1),
                4 => u128::MAX - t.below(3) as u128,
                _ => (t.int() as u128) << 64 | t.int() as u128,
            })
        }
        Ty::Bool => MV::Bool(t.chance(1, 2)),
        Ty::Char => MV::Char(if t.chance(1, 6) { '\0' } else { t.char() }),
        Ty::Str => {
            let n = if small { 3 } else { t.budget.clamp(4, 70000) as u64 };
            let s = t.string(n);
            t.budget -= s.len() as i64 / 8;
            MV::Str(s)
        }
        Ty::Bytes | Ty::Buf => {
            let n = if small { 3 } else { t.budget.clamp(4, 70000) as u64 };
            let b = t.bytes(n);
            t.budget -= b.len() as i64 / 8;
            MV::Bytes(b)
        }
        Ty::ByteArr(n) => MV::Bytes(if t.chance(1, 5) { vec![0; n] } else { t.fill(n) }),
        Ty::Unit => MV::Unit,
        Ty::Value => {
            if t.chance(1, 4) {
                // What one type or another takes for empty.
                return MV::Val(match t.below(9) {
                    0 => M::U(0),
                    1 => M::B(vec![]),
                    2 => M::t(""),
                    3 => M::A(vec![]),
                    4 => M::Map(vec![]),
                    5 => M::S(20),
                    6 => M::A(vec![crate::wire::NULL]),
                    7 => M::Tag(0, Box::new(crate::wire::NULL)),
                    _ => M::N(0),
                });
            }
            let m = crate::gen::item(t, depth.min(3));
            MV::Val(canonical(&crate::gen::dedup(&m)).expect("distinct"))
        }
        Ty::Opt(x) => {
            if small || t.chance(1, 3) {
                MV::Opt(None)
            } else {
                MV::Opt(Some(Box::new(gen(t, x(), depth - 1))))
            }
        }
        Ty::Seq(x) => {
            let n = if small { 0 } else { t.size() };
            MV::Seq(many(t, x, n, depth))
        }
        Ty::Set(x, _) => {
            let n = if small { 0 } else { t.size() };
            let v: BTreeSet<MV> = many(t, x, n, depth).into_iter().collect();
            MV::Seq(v.into_iter().collect())
        }
        Ty::Arr(x, n) => MV::Seq((0..n).map(|_| gen(t, x(), depth.saturating_sub(1))).collect()),
        Ty::Tup(ts) => {
            if t.chance(1, 6) {
                // All default, when there is one.
                if let Ok(d) = default(ty) {
                    return d;
                }
            }
            MV::Seq(ts.iter().map(|x| gen(t, x(), depth.saturating_sub(1))).collect())
        }
        Ty::Map(k, x) => {
            let n = if small { 0 } else { t.size() };
            let ks: BTreeSet<MV> = many(t, k, n, depth).into_iter().collect();
            let vs = many(t, x, ks.len(), depth);
            MV::Map(ks.into_iter().zip(vs).collect())
        }
        Ty::Struct(s) => {
            if t.chance(1, 10) {
                if let Some(d) = s.default {
                    return d();
                }
            }
            MV::Struct(gen_fields(t, &s.fields, depth))
        }
        Ty::Enum(e) => {
            let mut i = t.below(e.variants.len() as u64) as usize;
            if small {
                // The smallest payload, so that recursive types end.
                i = (0..e.variants.len()).min_by_key(|i| e.variants[*i].fields.len()).expect("variants");
            }
            MV::Enum(i, gen_fields(t, &e.variants[i].fields, depth))
        }
    }
}
fn gen_fields(t: &mut Tape, fs: &[Field], depth: usize) -> Vec<MV> {
    let zeros = *t.pick(&[6u64, 2, 1]);
    fs.iter()
        .map(|f| {
            // Empty values matter: they are what optional fields leave out.
            if t.below(zeros) == 0 && zeros > 1 {
                if let Some(d) = f.default {
                    return d();
                }
            }
            gen(t, (f.ty)(), depth.saturating_sub(1))
        })
        .collect()
}
fn many(t: &mut Tape, x: TyFn, n: usize, depth: usize) -> Vec<MV> {
    if n > 40 {
        // Long ones repeat and step a few elements.
        let left = t.budget;
        let base: Vec<MV> = (0..5)
            .map(|_| {
                t.budget = 3;
                gen(t, x(), depth.saturating_sub(1).min(1))
            })
            .collect();
        t.budget = left;
        return (0..n).map(|i| step(&base[i % 5], i)).collect();
    }
    (0..n).map(|_| gen(t, x(), depth.saturating_sub(1))).collect()
}
fn step(v: &MV, i: usize) -> MV {
    match v {
        MV::Str(s) => MV::Str(format!("{}{}", s.chars().take(4).collect::<String>(), i)),
        MV::Int(x) if *x >= 0 && *x <= 100 => MV::Int((*x + i as i128) % 128),
        MV::Bytes(b) if b.len() == 4 || b.len() == 8 => {
            let mut b = b.clone();
            b[0] = i as u8;
            b[1] = (i >> 8) as u8;
            MV::Bytes(b)
        }
        o => o.clone(),
    }
}
pub fn gen_top(t: &mut Tape, ty: Ty) -> MV {
    let i = t.weighted(&[30, 30, 20, 10, 2]);
    t.budget = [4, 12, 40, 100, 400][i];
    let depth = *t.pick(&[5usize, 3, 8, 14]);
    gen(t, ty, depth)
}

/// The value with skipped fields at their default, as a round trip leaves it. `None` when the value itself
/// has no wire form of its own (skipped variants).
pub fn without_skipped(ty: Ty, v: &MV) -> Option<MV> {
    let each = |t: TyFn, v: &[MV]| v.iter().map(|x| without_skipped(t(), x)).collect::<Option<Vec<_>>>();
    let fields = |fs: &[Field], v: &[MV]| {
        fs.iter()
            .zip(v)
            .map(|(f, x)| if f.skip { Some((f.default.expect("default"))()) } else { without_skipped((f.ty)(), x) })
            .collect::<Option<Vec<_>>>()
    };
    Some(match (ty, v) {
        (Ty::Opt(t), MV::Opt(Some(x))) => MV::Opt(Some(Box::new(without_skipped(t(), x)?))),
        (Ty::Seq(t) | Ty::Arr(t, _) | Ty::Set(t, _), MV::Seq(v)) => MV::Seq(each(t, v)?),
        (Ty::Tup(ts), MV::Seq(v)) => {
            MV::Seq(ts.iter().zip(v).map(|(t, x)| without_skipped(t(), x)).collect::<Option<Vec<_>>>()?)
        }
        (Ty::Map(k, x), MV::Map(v)) => MV::Map(
            v.iter().map(|(a, b)| Some((without_skipped(k(), a)?, without_skipped(x(), b)?))).collect::<Option<Vec<_>>>()?,
        ),
        (Ty::Struct(s), MV::Struct(v)) => MV::Struct(fields(&s.fields, v)?),
        (Ty::Enum(e), MV::Enum(i, v)) => {
            if e.variants[*i].skip {
                return None;
            }
            MV::Enum(*i, fields(&e.variants[*i].fields, v)?)
        }
        (_, v) => v.clone(),
    })
}

/// Any data somewhere in the type?
pub fn uses(ty: Ty, depth: usize, f: &dyn Fn(&Ty) -> bool) -> bool {
    if f(&ty) {
        return true;
    }
    if depth == 0 {
        return false;
    }
    let u = |t: TyFn| uses(t(), depth - 1, f);
    match ty {
        Ty::Opt(t) | Ty::Seq(t) | Ty::Arr(t, _) | Ty::Set(t, _) => u(t),
        Ty::Tup(ts) => ts.iter().any(|t| u(*t)),
        Ty::Map(k, x) => u(k) || u(x),
        Ty::Struct(s) => s.fields.iter().any(|x| u(x.ty)),
        Ty::Enum(e) => e.variants.iter().any(|v| v.fields.iter().any(|x| u(x.ty))),
        _ => false,
    }
}
