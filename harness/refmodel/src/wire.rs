//! Independent model of CBOR items: encoders, strict and lenient reference decoders, depth.
//! Written from RFC 8949 and the documented limits, sharing nothing with the code under test.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum M {
    U(u64),
    /// -1 - n
    N(u64),
    B(Vec<u8>),
    T(String),
    A(Vec<M>),
    Map(Vec<(M, M)>),
    Tag(u64, Box<M>),
    /// 20..=23
    S(u8),
}
pub const FALSE: M = M::S(20);
pub const TRUE: M = M::S(21);
pub const NULL: M = M::S(22);
pub const UNDEF: M = M::S(23);

impl M {
    pub fn t(s: &str) -> M {
        M::T(s.to_string())
    }
    pub fn int(v: i128) -> M {
        if v >= 0 {
            M::U(v as u64)
        } else {
            M::N((-1 - v) as u64)
        }
    }
    pub fn is_nullish(&self) -> bool {
        matches!(self, M::S(22) | M::S(23))
    }
    pub fn as_int(&self) -> Option<i128> {
        match self {
            M::U(u) => Some(*u as i128),
            M::N(n) => Some(-1 - *n as i128),
            _ => None,
        }
    }
    /// Levels below this item: 0 for a scalar or an empty container.
    pub fn depth(&self) -> usize {
        match self {
            M::A(v) => v.iter().map(|x| 1 + x.depth()).max().unwrap_or(0),
            M::Map(v) => v.iter().map(|(k, x)| 1 + k.depth().max(x.depth())).max().unwrap_or(0),
            M::Tag(_, x) => 1 + x.depth(),
            _ => 0,
        }
    }
    /// Number of items.
    pub fn count(&self) -> usize {
        1 + match self {
            M::A(v) => v.iter().map(|x| x.count()).sum(),
            M::Map(v) => v.iter().map(|(k, x)| k.count() + x.count()).sum(),
            M::Tag(_, x) => x.count(),
            _ => 0,
        }
    }
    pub fn any(&self, f: &dyn Fn(&M) -> bool) -> bool {
        f(self)
            || match self {
                M::A(v) => v.iter().any(|x| x.any(f)),
                M::Map(v) => v.iter().any(|(k, x)| k.any(f) || x.any(f)),
                M::Tag(_, x) => x.any(f),
                _ => false,
            }
    }
}

pub fn min_width(n: u64) -> u8 {
    match n {
        0..=23 => 0,
        24..=255 => 1,
        256..=65535 => 2,
        65536..=0xffff_ffff => 4,
        _ => 8,
    }
}
/// Head with an explicit argument width (0, 1, 2, 4 or 8 bytes).
pub fn head_w(major: u8, n: u64, width: u8, out: &mut Vec<u8>) {
    let ai = match width {
        0 => n as u8,
        1 => 24,
        2 => 25,
        4 => 26,
        _ => 27,
    };
    out.push(major << 5 | ai);
    let be = n.to_be_bytes();
    out.extend_from_slice(&be[8 - width as usize..]);
}
pub fn head(major: u8, n: u64, out: &mut Vec<u8>) {
    head_w(major, n, min_width(n), out)
}

/// Encodes in the given order, shortest heads.
pub fn enc_raw(m: &M, out: &mut Vec<u8>) {
    enc_with(m, out, &mut |major, n, out| head(major, n, out))
}
/// Encodes in the given order, heads written by `h`.
pub fn enc_with(m: &M, out: &mut Vec<u8>, h: &mut dyn FnMut(u8, u64, &mut Vec<u8>)) {
    match m {
        M::U(u) => h(0, *u, out),
        M::N(n) => h(1, *n, out),
        M::B(b) => {
            h(2, b.len() as u64, out);
            out.extend_from_slice(b);
        }
        M::T(s) => {
            h(3, s.len() as u64, out);
            out.extend_from_slice(s.as_bytes());
        }
        M::A(v) => {
            h(4, v.len() as u64, out);
            for x in v {
                enc_with(x, out, h);
            }
        }
        M::Map(v) => {
            h(5, v.len() as u64, out);
            for (k, x) in v {
                enc_with(k, out, h);
                enc_with(x, out, h);
            }
        }
        M::Tag(t, x) => {
            h(6, *t, out);
            enc_with(x, out, h);
        }
        M::S(s) => h(7, *s as u64, out),
    }
}
pub fn raw(m: &M) -> Vec<u8> {
    let mut v = Vec::new();
    enc_raw(m, &mut v);
    v
}

/// Reorders every map canonically; `Err` when some map has two equal keys.
pub fn canonical(m: &M) -> Result<M, ()> {
    Ok(match m {
        M::A(v) => M::A(v.iter().map(canonical).collect::<Result<_, _>>()?),
        M::Tag(t, x) => M::Tag(*t, Box::new(canonical(x)?)),
        M::Map(v) => {
            let mut e: Vec<(Vec<u8>, M, M)> = Vec::with_capacity(v.len());
            for (k, x) in v {
                let k = canonical(k)?;
                e.push((raw(&k), k, canonical(x)?));
            }
            e.sort_by(|a, b| a.0.cmp(&b.0));
            if e.windows(2).any(|w| w[0].0 == w[1].0) {
                return Err(());
            }
            M::Map(e.into_iter().map(|(_, k, x)| (k, x)).collect())
        }
        o => o.clone(),
    })
}
/// The canonical encoding; `Err` for duplicate keys.
pub fn canon_bytes(m: &M) -> Result<Vec<u8>, ()> {
    Ok(raw(&canonical(m)?))
}
pub fn canon_cmp(a: &M, b: &M) -> Ordering {
    raw(a).cmp(&raw(b))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum E {
    Reserved,
    Incomplete,
    Nesting,
    Utf8,
    Extraneous,
    Order,
    NonMinimal,
    Simple,
    Float,
}

struct Dec<'a> {
    b: &'a [u8],
    strict: bool,
    limit: Option<i64>,
}
impl<'a> Dec<'a> {
    fn take(&mut self, n: u64) -> Result<&'a [u8], E> {
        if n > self.b.len() as u64 {
            return Err(E::Incomplete);
        }
        let (l, r) = self.b.split_at(n as usize);
        self.b = r;
        Ok(l)
    }
    fn item(&mut self, level: i64) -> Result<M, E> {
        if self.limit.map_or(false, |n| level > n) {
            return Err(E::Nesting);
        }
        let ib = self.take(1)?[0];
        let (major, ai) = (ib >> 5, ib & 31);
        let n = match ai {
            0..=23 => ai as u64,
            24..=27 => {
                let w = 1u64 << (ai - 24);
                let mut n = 0u64;
                for x in self.take(w)? {
                    n = n << 8 | *x as u64;
                }
                if major != 7 && self.strict && u64::from(min_width(n)) != w {
                    return Err(E::NonMinimal);
                }
                n
            }
            _ => return Err(E::Reserved),
        };
        Ok(match major {
            0 => M::U(n),
            1 => M::N(n),
            2 => M::B(self.take(n)?.to_vec()),
            3 => match std::str::from_utf8(self.take(n)?) {
                Ok(s) => M::T(s.to_string()),
                Err(_) => return Err(E::Utf8),
            },
            4 => {
                let mut v = Vec::new();
                for _ in 0..n {
                    v.push(self.item(level + 1)?);
                }
                M::A(v)
            }
            5 => {
                let mut v = Vec::new();
                let mut last: Option<&[u8]> = None;
                for _ in 0..n {
                    let at = self.b;
                    let k = self.item(level + 1)?;
                    let kb = &at[..at.len() - self.b.len()];
                    if self.strict && last.map_or(false, |l| l >= kb) {
                        return Err(E::Order);
                    }
                    last = Some(kb);
                    v.push((k, self.item(level + 1)?));
                }
                M::Map(v)
            }
            6 => M::Tag(n, Box::new(self.item(level + 1)?)),
            _ => match ai {
                20..=23 => M::S(ai),
                0..=19 if self.strict => return Err(E::Simple),
                24 if self.strict => return Err(if n < 24 { E::NonMinimal } else { E::Simple }),
                _ if self.strict => return Err(E::Float),
                24 if (20..24).contains(&n) => M::S(n as u8),
                _ => UNDEF,
            },
        })
    }
}

/// Reference strict decoder. `limit` as in the API: deepest level allowed.
pub fn strict(b: &[u8], limit: Option<i8>) -> Result<M, E> {
    let mut d = Dec { b, strict: true, limit: limit.map(i64::from) };
    let m = d.item(0)?;
    if !d.b.is_empty() {
        return Err(E::Extraneous);
    }
    Ok(m)
}
/// Reference lenient decoder; also returns how many bytes the item took.
pub fn lenient(b: &[u8], limit: Option<i8>) -> Result<(M, usize), E> {
    let mut d = Dec { b, strict: false, limit: limit.map(i64::from) };
    let m = d.item(0)?;
    Ok((m, b.len() - d.b.len()))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DefectKind {
    /// Over-long head.
    Overlong,
    /// Text that is not UTF-8.
    Utf8,
    /// Two neighbouring keys swapped.
    Swap,
    /// A key repeated.
    Dup,
    /// Item replaced by a head with additional information 28..=31.
    Reserved,
    /// Item replaced by an unassigned simple value.
    Simple,
    /// Item replaced by a float.
    Float,
}
/// Encodes `m` (canonical) with one defect at the `target`-th place where `kind` is possible.
pub struct DefectEnc<'a> {
    pub kind: DefectKind,
    pub target: usize,
    pub seen: usize,
    pub done: bool,
    pub choose: &'a mut dyn FnMut(u64) -> u64,
}
pub const BAD_UTF8: &[&[u8]] = &[
    &[0x80],
    &[0xbf],
    &[0xc0, 0x80],
    &[0xc1, 0xbf],
    &[0xc2],
    &[0xc2, 0x41],
    &[0xe0, 0x80, 0x80],
    &[0xe0, 0x9f, 0xbf],
    &[0xe2, 0x82],
    &[0xed, 0xa0, 0x80],
    &[0xed, 0xbf, 0xbf],
    &[0xf0, 0x80, 0x80, 0x80],
    &[0xf0, 0x8f, 0xbf, 0xbf],
    &[0xf0, 0x9f, 0x98],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xf5, 0x80, 0x80, 0x80],
    &[0xf8, 0x88, 0x80, 0x80, 0x80],
    &[0xfe],
    &[0xff],
];
impl<'a> DefectEnc<'a> {
    fn hit(&mut self) -> bool {
        let h = self.seen == self.target && !self.done;
        self.seen += 1;
        if h {
            self.done = true;
        }
        h
    }
    fn head(&mut self, major: u8, n: u64, out: &mut Vec<u8>) {
        let w = min_width(n);
        if self.kind == DefectKind::Overlong && w < 8 && self.hit() {
            let opts: Vec<u8> = [1u8, 2, 4, 8].into_iter().filter(|x| *x > w && (major != 7 || *x == 1)).collect();
            let w = opts[(self.choose)(opts.len() as u64) as usize];
            head_w(major, n, w, out)
        } else {
            head_w(major, n, w, out)
        }
    }
    pub fn go(&mut self, m: &M, out: &mut Vec<u8>) {
        let kind = self.kind;
        match kind {
            DefectKind::Reserved if self.hit() => {
                let major = (self.choose)(8) as u8;
                let ai = 28 + (self.choose)(4) as u8;
                out.push(major << 5 | ai);
                // An indefinite-length item would continue with chunks and a break.
                match (self.choose)(3) {
                    0 => {}
                    1 => out.push(0xff),
                    _ => out.extend_from_slice(&[0x00, 0xff]),
                }
                return;
            }
            DefectKind::Simple if self.hit() => {
                let n = (self.choose)(20 + 232) as u8;
                if n < 20 {
                    out.push(0xe0 | n);
                } else {
                    out.extend_from_slice(&[0xf8, n + 4]);
                }
                return;
            }
            DefectKind::Float if self.hit() => {
                let w = 1 + (self.choose)(3) as u32;
                let n = 1usize << w;
                out.push(0xf8 + w as u8);
                let v = match (self.choose)(5) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 20 + (self.choose)(8),
                    _ => (self.choose)(u64::MAX),
                };
                out.extend_from_slice(&v.to_be_bytes()[8 - n..]);
                return;
            }
            _ => {}
        }
        match m {
            M::U(u) => self.head(0, *u, out),
            M::N(n) => self.head(1, *n, out),
            M::B(b) => {
                self.head(2, b.len() as u64, out);
                out.extend_from_slice(b);
            }
            M::T(s) => {
                if self.kind == DefectKind::Utf8 && self.hit() {
                    let bad = BAD_UTF8[(self.choose)(BAD_UTF8.len() as u64) as usize];
                    let mut v = s.as_bytes().to_vec();
                    // Between characters.
                    let cuts: Vec<usize> = (0..=v.len()).filter(|i| s.is_char_boundary(*i)).collect();
                    let at = cuts[(self.choose)(cuts.len() as u64) as usize];
                    for (i, x) in bad.iter().enumerate() {
                        v.insert(at + i, *x);
                    }
                    head(3, v.len() as u64, out);
                    out.extend_from_slice(&v);
                    return;
                }
                self.head(3, s.len() as u64, out);
                out.extend_from_slice(s.as_bytes());
            }
            M::A(v) => {
                self.head(4, v.len() as u64, out);
                for x in v {
                    self.go(x, out);
                }
            }
            M::Tag(t, x) => {
                self.head(6, *t, out);
                self.go(x, out);
            }
            M::S(s) => self.head(7, *s as u64, out),
            M::Map(v) => {
                let mut v: Vec<&(M, M)> = v.iter().collect();
                if self.kind == DefectKind::Swap && v.len() > 1 && self.hit() {
                    let i = (self.choose)(v.len() as u64 - 1) as usize;
                    let j = i + 1 + (self.choose)((v.len() - i - 1) as u64) as usize;
                    v.swap(i, j);
                }
                if self.kind == DefectKind::Dup && !v.is_empty() && self.hit() {
                    let i = (self.choose)(v.len() as u64) as usize;
                    let j = i + 1 + (self.choose)((v.len() - i) as u64) as usize;
                    let e = v[i];
                    v.insert(j, e);
                }
                self.head(5, v.len() as u64, out);
                for (k, x) in v {
                    self.go(k, out);
                    self.go(x, out);
                }
            }
        }
    }
}
