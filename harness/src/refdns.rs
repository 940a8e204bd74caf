//! Reference reading of the RFCs, written independently of the code under test.
use std::collections::{BTreeMap, BTreeSet};

pub type Name = Vec<Vec<u8>>;

/// RFC 1035 4.1.4; a pointer has to lead before the run of labels it ends.
pub fn name(d: &[u8], p: usize) -> Option<(Name, usize)> {
    let mut out = Vec::new();
    let (mut pos, mut start, mut end) = (p, p, None);
    loop {
        let l = *d.get(pos)? as usize;
        if l == 0 {
            return Some((out, end.unwrap_or(pos + 1)));
        }
        if l < 64 {
            out.push(d.get(pos + 1..pos + 1 + l)?.to_vec());
            pos += 1 + l;
        } else if l >= 192 {
            let t = ((l - 192) << 8) | *d.get(pos + 1)? as usize;
            if end.is_none() {
                end = Some(pos + 2);
            }
            if t >= start {
                return None;
            }
            pos = t;
            start = t;
        } else {
            return None;
        }
    }
}

pub fn enc_name(n: &Name) -> Vec<u8> {
    let mut o = Vec::new();
    for l in n {
        if !l.is_empty() {
            o.push(l.len() as u8);
            o.extend_from_slice(l);
        }
    }
    o.push(0);
    o
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(u64),
    B(Vec<u8>),
    L(Name),
    BL(Vec<Vec<u8>>),
    NL(Vec<Name>),
    S(BTreeSet<u16>),
    P(BTreeMap<u16, Vec<u8>>),
}

impl V {
    pub fn n(&self) -> u64 {
        if let V::N(x) = self { *x } else { panic!("harness") }
    }
    pub fn b(&self) -> Vec<u8> {
        if let V::B(x) = self { x.clone() } else { panic!("harness") }
    }
    pub fn l(&self) -> Name {
        if let V::L(x) = self { x.clone() } else { panic!("harness") }
    }
    pub fn bl(&self) -> Vec<Vec<u8>> {
        if let V::BL(x) = self { x.clone() } else { panic!("harness") }
    }
    pub fn nl(&self) -> Vec<Name> {
        if let V::NL(x) = self { x.clone() } else { panic!("harness") }
    }
    pub fn s(&self) -> BTreeSet<u16> {
        if let V::S(x) = self { x.clone() } else { panic!("harness") }
    }
    pub fn p(&self) -> BTreeMap<u16, Vec<u8>> {
        if let V::P(x) = self { x.clone() } else { panic!("harness") }
    }
}

#[derive(Clone, Copy)]
pub enum K {
    U8,
    U16,
    U32,
    /// Only these codes
    In8(&'static [u8]),
    In16(fn(u16) -> bool),
    /// Only these bits are kept
    Mask8(u8),
    Mask16(u16),
    /// A fixed value
    Is8(u8),
    Fix(usize),
    Str,
    /// A non-empty string, lossily text
    Tag,
    /// Text
    Utf8,
    /// NAPTR flags: others are left out
    Flags,
    Blob16,
    Name,
    Rest,
    /// Text strings to the end
    Strs,
    Names,
    Bitmap,
    Options,
    Params,
    Apl,
    Gateway,
    /// HIP: hit length, algorithm, key length, hit, key
    HipHead,
}

/// Record types without and with DNSSEC
pub const BASE_TYPES: &[u16] = &[
    1, 2, 5, 6, 10, 11, 12, 13, 14, 15, 16, 28, 29, 33, 35, 41, 42, 44, 45, 49, 52, 55, 61, 62, 64, 108, 109, 249, 250,
    256, 257,
];
pub const SEC_TYPES: &[u16] = &[43, 46, 47, 48, 59, 60];

pub fn dnssec() -> bool {
    cfg!(feature = "dnssec")
}
pub fn mdns() -> bool {
    cfg!(feature = "mdns")
}
pub fn types() -> Vec<u16> {
    let mut v = BASE_TYPES.to_vec();
    if dnssec() {
        v.extend_from_slice(SEC_TYPES);
    }
    v.sort();
    v
}
pub fn is_type(t: u16) -> bool {
    BASE_TYPES.contains(&t) || (dnssec() && SEC_TYPES.contains(&t))
}
pub fn is_qtype(t: u16) -> bool {
    is_type(t) || (252..=255).contains(&t)
}
pub fn is_qclass(c: u16) -> bool {
    matches!(c & 0x7fff, 1..=4 | 254 | 255)
}
pub const SEC_ALGS: &[u8] = &[1, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254];
pub const DIGESTS: &[u8] = &[1, 2, 4, 5];
/// SSHFP numbering; 6 is Ed448
pub const KEY_ALGS: &[u8] = &[0, 1, 2, 3, 4, 6];

pub fn param_key(k: u16) -> bool {
    matches!(k, 0..=6 | 65280..=65535)
}

pub fn kinds(t: u16) -> Vec<K> {
    use K::*;
    match t {
        1 => vec![Fix(4)],
        2 | 5 | 12 => vec![Name],
        6 => vec![Name, Name, U32, U32, U32, U32, U32],
        10 | 61 => vec![Rest],
        11 => vec![Fix(4), U8, Rest],
        13 => vec![Str, Str],
        14 => vec![Name, Name],
        15 => vec![U16, Name],
        16 => vec![Strs],
        28 => vec![Fix(16)],
        29 => vec![U8, U8, U8, U8, U32, U32, U32],
        33 => vec![U16, U16, U16, Name],
        35 => vec![U16, U16, Flags, Str, Utf8, Name],
        41 => vec![Options],
        42 => vec![Apl],
        43 | 59 => vec![U16, In8(SEC_ALGS), In8(DIGESTS), Rest],
        44 => vec![In8(KEY_ALGS), In8(&[0, 1]), Rest],
        45 => vec![U8, Gateway, Rest],
        46 => vec![In16(is_type), In8(SEC_ALGS), U8, U32, U32, U32, U16, Name, Rest],
        47 => vec![Name, Bitmap],
        48 | 60 => vec![Mask16(0x0101), U8, In8(SEC_ALGS), Rest],
        49 => vec![In16(|x| x <= 2), Is8(1), Rest],
        52 => vec![In8(&[0, 1, 2, 3]), In8(&[0, 1]), In8(&[0, 1, 2]), Rest],
        55 => vec![HipHead, Names],
        62 => vec![U32, In16(|x| x < 4), Bitmap],
        64 => vec![U16, Name, Params],
        108 => vec![Fix(6)],
        109 => vec![Fix(8)],
        249 => vec![Name, U32, U32, In16(|x| x >= 1 && x <= 65534), In16(|x| x <= 21), Blob16, Blob16],
        250 => vec![Name, Fix(6), U16, Blob16, U16, In16(|x| matches!(x, 0 | 16 | 17 | 18 | 22)), Blob16],
        256 => vec![U16, U16, Rest],
        257 => vec![Mask8(0x80), Tag, Rest],
        _ => panic!("harness: type {t}"),
    }
}

fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| (a << 8) | *x as u64)
}

/// RFC 4034 4.1.2
pub fn dec_bitmap(mut b: &[u8]) -> Option<BTreeSet<u16>> {
    let mut out = BTreeSet::new();
    while !b.is_empty() {
        if b.len() < 2 || b[1] > 32 || b.len() < 2 + b[1] as usize {
            return None;
        }
        for (i, o) in b[2..2 + b[1] as usize].iter().enumerate() {
            for bit in 0..8 {
                if o & (0x80 >> bit) != 0 {
                    let t = b[0] as u16 * 256 + i as u16 * 8 + bit;
                    if !is_type(t) {
                        return None;
                    }
                    out.insert(t);
                }
            }
        }
        b = &b[2 + b[1] as usize..];
    }
    Some(out)
}

pub fn enc_bitmap(s: &BTreeSet<u16>) -> Vec<u8> {
    let mut o = Vec::new();
    for w in 0..256u32 {
        let mut m = [0u8; 32];
        let mut n = 0;
        for t in s.iter().filter(|t| **t as u32 / 256 == w) {
            let r = (*t % 256) as usize;
            m[r / 8] |= 0x80 >> (r % 8);
            n = n.max(r / 8 + 1);
        }
        if n > 0 {
            o.push(w as u8);
            o.push(n as u8);
            o.extend_from_slice(&m[..n]);
        }
    }
    o
}

/// The canonical value of a service parameter, if it is well-formed
pub fn param_value(k: u16, v: &[u8]) -> Option<Vec<u8>> {
    match k {
        0 => {
            if v.len() % 2 != 0 {
                return None;
            }
            let mut s = BTreeSet::new();
            for c in v.chunks(2) {
                let k = be(c) as u16;
                if !param_key(k) {
                    return None;
                }
                s.insert(k);
            }
            Some(s.iter().flat_map(|k| k.to_be_bytes()).collect())
        }
        1 => {
            let mut i = 0;
            while i < v.len() {
                i += 1 + v[i] as usize;
            }
            if i == v.len() { Some(v.to_vec()) } else { None }
        }
        2 | 65535 => if v.is_empty() { Some(vec![]) } else { None },
        3 => if v.len() == 2 { Some(v.to_vec()) } else { None },
        4 => if v.len() == 4 { Some(v.to_vec()) } else { None },
        6 => if v.len() == 16 { Some(v.to_vec()) } else { None },
        5 | 65280..=65534 => Some(v.to_vec()),
        _ => None,
    }
}

pub fn lossy(b: &[u8]) -> Vec<u8> {
    String::from_utf8_lossy(b).into_owned().into_bytes()
}

/// Reads record data of type `t` at `p`; `d` ends where the data ends. Gives the field values and
/// where reading stopped.
pub fn parse(t: u16, d: &[u8], mut p: usize) -> Option<(Vec<V>, usize)> {
    let mut out = Vec::new();
    fn take<'a>(d: &'a [u8], p: &mut usize, n: usize) -> Option<&'a [u8]> {
        let r = d.get(*p..p.checked_add(n)?)?;
        *p += n;
        Some(r)
    }
    for k in kinds(t) {
        match k {
            K::U8 => out.push(V::N(be(take(d, &mut p, 1)?))),
            K::U16 => out.push(V::N(be(take(d, &mut p, 2)?))),
            K::U32 => out.push(V::N(be(take(d, &mut p, 4)?))),
            K::In8(s) => {
                let x = take(d, &mut p, 1)?[0];
                if !s.contains(&x) {
                    return None;
                }
                out.push(V::N(x as u64));
            }
            K::In16(f) => {
                let x = be(take(d, &mut p, 2)?);
                if !f(x as u16) {
                    return None;
                }
                out.push(V::N(x));
            }
            K::Mask8(m) => out.push(V::N((take(d, &mut p, 1)?[0] & m) as u64)),
            K::Mask16(m) => out.push(V::N(be(take(d, &mut p, 2)?) & m as u64)),
            K::Is8(m) => {
                if take(d, &mut p, 1)?[0] != m {
                    return None;
                }
            }
            K::Fix(n) => out.push(V::B(take(d, &mut p, n)?.to_vec())),
            K::Str | K::Tag | K::Utf8 | K::Flags => {
                let n = take(d, &mut p, 1)?[0] as usize;
                let b = take(d, &mut p, n)?.to_vec();
                out.push(V::B(match k {
                    K::Tag => {
                        if b.is_empty() {
                            return None;
                        }
                        lossy(&b)
                    }
                    K::Utf8 => String::from_utf8(b).ok()?.into_bytes(),
                    K::Flags => b.into_iter().filter(|c| b"SAUP".contains(c)).collect(),
                    _ => b,
                }));
            }
            K::Blob16 => {
                let n = be(take(d, &mut p, 2)?) as usize;
                out.push(V::B(take(d, &mut p, n)?.to_vec()));
            }
            K::Name => {
                let (n, e) = name(d, p)?;
                p = e;
                out.push(V::L(n));
            }
            K::Rest => {
                out.push(V::B(d[p..].to_vec()));
                p = d.len();
            }
            K::Strs => {
                let mut l = Vec::new();
                while p < d.len() {
                    let n = take(d, &mut p, 1)?[0] as usize;
                    l.push(lossy(take(d, &mut p, n)?));
                }
                out.push(V::BL(l));
            }
            K::Names => {
                let mut l = Vec::new();
                while p < d.len() {
                    let (n, e) = name(d, p)?;
                    p = e;
                    l.push(n);
                }
                out.push(V::NL(l));
            }
            K::Bitmap => {
                out.push(V::S(dec_bitmap(&d[p..])?));
                p = d.len();
            }
            K::Options => {
                let mut m = BTreeMap::new();
                while p < d.len() {
                    let c = be(take(d, &mut p, 2)?) as u16;
                    let n = be(take(d, &mut p, 2)?) as usize;
                    m.insert(c, take(d, &mut p, n)?.to_vec());
                }
                out.push(V::P(m));
            }
            K::Params => {
                let mut m = BTreeMap::new();
                while p < d.len() {
                    let c = be(take(d, &mut p, 2)?) as u16;
                    let n = be(take(d, &mut p, 2)?) as usize;
                    if !param_key(c) {
                        return None;
                    }
                    let v = param_value(c, take(d, &mut p, n)?)?;
                    m.entry(c).or_insert(v);
                }
                out.push(V::P(m));
            }
            K::Apl => {
                let fam = be(take(d, &mut p, 2)?);
                let pre = take(d, &mut p, 1)?[0];
                let c = take(d, &mut p, 1)?[0];
                let mut a = take(d, &mut p, (c & 0x7f) as usize)?.to_vec();
                match fam {
                    1 => a.resize(4, 0),
                    2 => a.resize(16, 0),
                    _ => return None,
                }
                out.push(V::N(fam));
                out.push(V::N(pre as u64));
                out.push(V::N((c >> 7) as u64));
                out.push(V::B(a));
            }
            K::Gateway => {
                let gt = take(d, &mut p, 1)?[0];
                let alg = take(d, &mut p, 1)?[0];
                if !KEY_ALGS.contains(&alg) {
                    return None;
                }
                out.push(V::N(gt as u64));
                out.push(V::N(alg as u64));
                match gt {
                    0 => {
                        take(d, &mut p, 1)?;
                        out.push(V::B(vec![]));
                    }
                    1 => out.push(V::B(take(d, &mut p, 4)?.to_vec())),
                    2 => out.push(V::B(take(d, &mut p, 16)?.to_vec())),
                    3 => {
                        let (n, e) = name(d, p)?;
                        p = e;
                        out.push(V::L(n));
                    }
                    _ => return None,
                }
            }
            K::HipHead => {
                let hl = take(d, &mut p, 1)?[0] as usize;
                let alg = take(d, &mut p, 1)?[0];
                if !KEY_ALGS.contains(&alg) {
                    return None;
                }
                let pl = be(take(d, &mut p, 2)?) as usize;
                out.push(V::N(alg as u64));
                out.push(V::B(take(d, &mut p, hl)?.to_vec()));
                out.push(V::B(take(d, &mut p, pl)?.to_vec()));
            }
        }
    }
    Some((out, p))
}

/// Writes record data; `None` when a part does not fit its length field.
pub fn encode(t: u16, f: &[V]) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    let mut i = 0;
    let mut nx = || {
        i += 1;
        f[i - 1].clone()
    };
    for k in kinds(t) {
        match k {
            K::U8 | K::In8(_) | K::Mask8(_) => o.push(nx().n() as u8),
            K::U16 | K::In16(_) | K::Mask16(_) => o.extend((nx().n() as u16).to_be_bytes()),
            K::U32 => o.extend((nx().n() as u32).to_be_bytes()),
            K::Is8(m) => o.push(m),
            K::Fix(_) | K::Rest => o.extend(nx().b()),
            K::Str | K::Tag | K::Utf8 | K::Flags => {
                let b = nx().b();
                if b.len() > 255 {
                    return None;
                }
                o.push(b.len() as u8);
                o.extend(b);
            }
            K::Blob16 => {
                let b = nx().b();
                if b.len() > 65535 {
                    return None;
                }
                o.extend((b.len() as u16).to_be_bytes());
                o.extend(b);
            }
            K::Name => o.extend(enc_name(&nx().l())),
            K::Strs => {
                for b in nx().bl() {
                    if b.len() > 255 {
                        return None;
                    }
                    o.push(b.len() as u8);
                    o.extend(b);
                }
            }
            K::Names => {
                for n in nx().nl() {
                    o.extend(enc_name(&n));
                }
            }
            K::Bitmap => o.extend(enc_bitmap(&nx().s())),
            K::Options | K::Params => {
                for (c, b) in nx().p() {
                    if b.len() > 65535 {
                        return None;
                    }
                    o.extend(c.to_be_bytes());
                    o.extend((b.len() as u16).to_be_bytes());
                    o.extend(b);
                }
            }
            K::Apl => {
                let (fam, pre, n, a) = (nx().n(), nx().n(), nx().n(), nx().b());
                o.extend((fam as u16).to_be_bytes());
                o.push(pre as u8);
                o.push((n as u8) << 7 | a.len() as u8);
                o.extend(a);
            }
            K::Gateway => {
                let gt = nx().n();
                o.push(gt as u8);
                o.push(nx().n() as u8);
                match nx() {
                    V::L(n) => o.extend(enc_name(&n)),
                    V::B(b) => {
                        if gt == 0 {
                            o.push(b'.');
                        } else {
                            o.extend(b)
                        }
                    }
                    _ => panic!("harness"),
                }
            }
            K::HipHead => {
                let (alg, h, pk) = (nx().n(), nx().b(), nx().b());
                if h.len() > 255 || pk.len() > 65535 {
                    return None;
                }
                o.push(h.len() as u8);
                o.push(alg as u8);
                o.extend((pk.len() as u16).to_be_bytes());
                o.extend(h);
                o.extend(pk);
            }
        }
    }
    Some(o)
}

/// The same record data, whatever order its options come in
pub fn same_data(t: u16, a: &[u8], b: &[u8]) -> bool {
    if t == 41 {
        a.len() == b.len() && parse(41, a, 0) == parse(41, b, 0)
    } else {
        a == b
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub name: Name,
    pub ty: u16,
    pub class: u16,
    pub ttl: u32,
    pub fields: Vec<V>,
    /// Positions: of the record, of the data length field, behind the record
    pub at: (usize, usize, usize),
}

pub fn record(d: &[u8], p: usize) -> Option<Rec> {
    let (n, e) = name(d, p)?;
    let h = d.get(e..e + 10)?;
    let ty = be(&h[0..2]) as u16;
    if !is_type(ty) {
        return None;
    }
    let len = be(&h[8..10]) as usize;
    let end = e + 10 + len;
    let w = d.get(..end)?;
    let (fields, _) = parse(ty, w, e + 10)?;
    Some(Rec { name: n, ty, class: be(&h[2..4]) as u16, ttl: be(&h[4..8]) as u32, fields, at: (p, e + 8, end) })
}

#[derive(Clone, Debug, PartialEq)]
pub struct Q {
    pub name: Name,
    pub ty: u16,
    pub class: u16,
}

pub fn question(d: &[u8], p: usize) -> Option<(Q, usize)> {
    let (n, e) = name(d, p)?;
    let h = d.get(e..e + 4)?;
    let (ty, class) = (be(&h[0..2]) as u16, be(&h[2..4]) as u16);
    if !is_qtype(ty) || !is_qclass(class) {
        return None;
    }
    Some((Q { name: n, ty, class }, e + 4))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub id: u16,
    pub flags: u16,
    pub qs: Vec<Q>,
    pub secs: [Vec<Rec>; 3],
    pub end: usize,
}

pub fn message(d: &[u8]) -> Option<Msg> {
    let h = d.get(..12)?;
    let c = |i: usize| be(&h[2 * i..2 * i + 2]) as u16;
    if h[3] & 15 > 10 {
        return None;
    }
    let mut m = Msg { id: c(0), flags: c(1), qs: vec![], secs: [vec![], vec![], vec![]], end: 12 };
    for _ in 0..c(2) {
        let (q, e) = question(d, m.end)?;
        m.qs.push(q);
        m.end = e;
    }
    for s in 0..3 {
        for _ in 0..c(3 + s) {
            let r = record(d, m.end)?;
            m.end = r.at.2;
            m.secs[s].push(r);
        }
    }
    Some(m)
}

/// Record class as it is written again (without mDNS the top bit is not kept)
pub fn class_kept(c: u16) -> u16 {
    if mdns() { c } else { c & 0x7fff }
}

pub fn enc_record(r: &Rec) -> Option<Vec<u8>> {
    let mut o = enc_name(&r.name);
    o.extend(r.ty.to_be_bytes());
    o.extend(class_kept(r.class).to_be_bytes());
    o.extend(r.ttl.to_be_bytes());
    let d = encode(r.ty, &r.fields)?;
    if d.len() > 65535 {
        return None;
    }
    o.extend((d.len() as u16).to_be_bytes());
    o.extend(d);
    Some(o)
}

pub fn enc_question(q: &Q) -> Vec<u8> {
    let mut o = enc_name(&q.name);
    o.extend(q.ty.to_be_bytes());
    o.extend(class_kept(q.class).to_be_bytes());
    o
}
