//! Generators of names, record data and messages, and their construction through the public API.
use crate::refdns::{self as r, Name, K, V};
use crate::util::Rng;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn label(g: &mut Rng) -> Vec<u8> {
    let n = match g.below(10) {
        0 => 63,
        1 => g.range(1, 63),
        _ => g.range(1, 5),
    };
    if g.chance(1, 6) {
        g.bytes(n)
    } else {
        g.ascii(n)
    }
}
pub fn name(g: &mut Rng) -> Name {
    let n = match g.below(10) {
        0 => 0,
        1 => g.range(4, 12),
        _ => g.range(1, 4),
    };
    (0..n).map(|_| label(g)).collect()
}
/// Names that share suffixes with earlier ones
pub fn pool_name(g: &mut Rng, pool: &mut Vec<Name>) -> Name {
    let n = if pool.is_empty() || g.chance(1, 4) {
        name(g)
    } else {
        let base = g.pick(pool).clone();
        let k = g.below(base.len() + 1);
        let mut n: Name = (0..g.below(3)).map(|_| label(g)).collect();
        n.extend_from_slice(&base[k..]);
        n
    };
    pool.push(n.clone());
    n
}
pub fn text(g: &mut Rng, max: usize) -> Vec<u8> {
    let n = g.len(max);
    if g.chance(1, 5) && n >= 4 {
        let mut s = String::new();
        while s.len() + 4 <= n {
            s.push(*g.pick(&['a', 'é', '€', '😀', '.', '\0']));
        }
        s.into_bytes()
    } else {
        g.ascii(n)
    }
}
pub fn type_set(g: &mut Rng) -> BTreeSet<u16> {
    let ts = r::types();
    let n = match g.below(6) {
        0 => 0,
        1 => 1,
        2 => ts.len(),
        _ => g.below(ts.len()),
    };
    let mut s = BTreeSet::new();
    for _ in 0..n {
        s.insert(*g.pick(&ts));
    }
    if g.chance(1, 3) {
        s.insert(256);
    }
    if g.chance(1, 3) {
        s.insert(257);
    }
    s
}
pub fn param(g: &mut Rng) -> (u16, Vec<u8>) {
    let k = match g.below(10) {
        x @ 0..=6 => x as u16,
        7 => 65535,
        8 => *g.pick(&[65280, 65281, 65534]),
        _ => 65280 + g.below(255) as u16,
    };
    let v = match k {
        0 => {
            let s: BTreeSet<u16> = (0..g.below(5))
                .map(|_| match g.below(3) {
                    0 => *g.pick(&[65280, 65534, 65535]),
                    _ => g.below(7) as u16,
                })
                .collect();
            s.iter().flat_map(|k| k.to_be_bytes()).collect()
        }
        1 => (0..g.below(4))
            .flat_map(|_| {
                let n = g.len(255);
                let mut b = vec![n as u8];
                b.extend(g.bytes(n));
                b
            })
            .collect(),
        2 | 65535 => vec![],
        3 => g.bytes(2),
        4 => g.bytes(4),
        6 => g.bytes(16),
        _ => {
            let n = if g.chance(1, 400) { *g.pick(&[65531usize, 65532, 65535]) } else { g.len(300) };
            g.bytes(n)
        }
    };
    (k, v)
}

/// Values that the wire can carry
pub fn fields(g: &mut Rng, t: u16, pool: &mut Vec<Name>) -> Vec<V> {
    let mut o = Vec::new();
    for k in r::kinds(t) {
        match k {
            K::U8 => o.push(V::N(g.u8() as u64)),
            K::U16 => o.push(V::N(g.u16() as u64)),
            K::U32 => o.push(V::N(g.u32() as u64)),
            K::In8(s) => o.push(V::N(*g.pick(s) as u64)),
            K::In16(f) => o.push(V::N(loop {
                let x = if g.chance(3, 4) { g.below(300) as u16 } else { g.u16() };
                if f(x) {
                    break x as u64;
                }
            })),
            K::Mask8(m) => o.push(V::N((g.u8() & m) as u64)),
            K::Mask16(m) => o.push(V::N((g.u16() & m) as u64)),
            K::Is8(_) => (),
            K::Fix(n) => o.push(V::B(g.bytes(n))),
            K::Str => {
                let n = g.len(255);
                o.push(V::B(g.bytes(n)))
            }
            K::Tag => {
                let mut b = text(g, 255);
                if b.is_empty() {
                    b.push(b'x');
                }
                o.push(V::B(b))
            }
            K::Utf8 => o.push(V::B(text(g, 255))),
            K::Flags => {
                let n = g.below(6);
                o.push(V::B((0..n).map(|_| *g.pick(b"SAUP")).collect()))
            }
            K::Blob16 => {
                let n = if g.chance(1, 300) { 65535 } else { g.len(300) };
                o.push(V::B(g.bytes(n)))
            }
            K::Name => o.push(V::L(pool_name(g, pool))),
            K::Rest => {
                let n = if g.chance(1, 300) { g.range(60000, 65600) } else { g.len(300) };
                o.push(V::B(g.bytes(n)))
            }
            K::Strs => {
                let n = g.below(5);
                o.push(V::BL((0..n).map(|_| text(g, 255)).collect()))
            }
            K::Names => {
                let n = g.below(4);
                o.push(V::NL((0..n).map(|_| pool_name(g, pool)).collect()))
            }
            K::Bitmap => o.push(V::S(type_set(g))),
            K::Options => {
                let n = g.below(5);
                o.push(V::P(
                    (0..n)
                        .map(|_| {
                            let c = g.u16();
                            let l = g.len(200);
                            (c, g.bytes(l))
                        })
                        .collect(),
                ))
            }
            K::Params => {
                let n = g.below(7);
                o.push(V::P((0..n).map(|_| param(g)).collect()))
            }
            K::Apl => {
                let f = g.range(1, 2);
                o.push(V::N(f as u64));
                o.push(V::N(g.u8() as u64));
                o.push(V::N(g.below(2) as u64));
                let mut b = g.bytes(if f == 1 { 4 } else { 16 });
                let z = g.below(b.len() + 1);
                if g.chance(1, 2) {
                    let l = b.len();
                    b[l - z..].fill(0);
                }
                o.push(V::B(b));
            }
            K::Gateway => {
                let t = g.below(4);
                o.push(V::N(t as u64));
                o.push(V::N(*g.pick(r::KEY_ALGS) as u64));
                o.push(match t {
                    0 => V::B(vec![]),
                    1 => V::B(g.bytes(4)),
                    2 => V::B(g.bytes(16)),
                    _ => V::L(pool_name(g, pool)),
                });
            }
            K::HipHead => {
                o.push(V::N(*g.pick(r::KEY_ALGS) as u64));
                let n = g.len(255);
                o.push(V::B(g.bytes(n)));
                let n = if g.chance(1, 300) { 65535 } else { g.len(300) };
                o.push(V::B(g.bytes(n)));
            }
        }
    }
    o
}

pub fn fq(n: &Name) -> FQDN {
    FQDN::from(n.clone())
}
pub fn labels(f: &FQDN) -> Name {
    f.iter().cloned().collect()
}
fn v4(b: &[u8]) -> Ipv4Addr {
    Ipv4Addr::new(b[0], b[1], b[2], b[3])
}
fn v6(b: &[u8]) -> Ipv6Addr {
    let a: [u8; 16] = b.try_into().unwrap();
    Ipv6Addr::from(a)
}
fn st(b: Vec<u8>) -> String {
    String::from_utf8(b).expect("harness: text")
}

pub fn rtype(t: u16) -> RecordType {
    RecordType::try_from(t).unwrap_or_else(|_| panic!("record type {t} is not known"))
}

/// Builds record data from field values with the constructors and public fields; `None` for the
/// types (and values) that have none.
pub fn build(t: u16, f: &[V]) -> Option<RecordData> {
    let n8 = |i: usize| f[i].n() as u8;
    let n16 = |i: usize| f[i].n() as u16;
    let n32 = |i: usize| f[i].n() as u32;
    let nm = |i: usize| fq(&f[i].l());
    let b = |i: usize| f[i].b();
    Some(match t {
        1 => A::new(v4(&b(0))).into_record_data(),
        2 => Ns { nsdname: nm(0) }.into_record_data(),
        5 => Cname::new(nm(0)).into_record_data(),
        6 => Soa::new(nm(0), nm(1), n32(2), n32(3), n32(4), n32(5), n32(6)).into_record_data(),
        10 => Null::new(b(0)).into_record_data(),
        11 => Wks::new(v4(&b(0)), n8(1), b(2)).into_record_data(),
        12 => Ptr::new(nm(0)).into_record_data(),
        13 => Hinfo::new(b(0), b(1)).into_record_data(),
        14 => Minfo::new(nm(0), nm(1)).into_record_data(),
        15 => Mx::new(n16(0), nm(1)).into_record_data(),
        16 => Txt::new(f[0].bl().into_iter().map(st).collect()).into_record_data(),
        28 => Aaaa::new(v6(&b(0))).into_record_data(),
        29 => Loc {
            version: n8(0),
            size: n8(1),
            horiz_pre: n8(2),
            vert_pre: n8(3),
            latitude: n32(4),
            longitude: n32(5),
            altitude: n32(6),
        }
        .into_record_data(),
        33 => Srv::new(n16(0), n16(1), n16(2), nm(3)).into_record_data(),
        35 => Naptr::new(
            n16(0),
            n16(1),
            b(2).into_iter()
                .map(|c| match c {
                    b'S' => naptr::Flag::S,
                    b'A' => naptr::Flag::A,
                    b'U' => naptr::Flag::U,
                    _ => naptr::Flag::P,
                })
                .collect(),
            b(3),
            st(b(4)),
            nm(5),
        )
        .into_record_data(),
        41 => Opt(f[0].p().into_iter().collect()).into_record_data(),
        44 => Sshfp::new(
            key_alg(n8(0)),
            if n8(1) == 0 { sshfp::FingerprintType::Reserved } else { sshfp::FingerprintType::SHA1 },
            b(2),
        )
        .into_record_data(),
        45 => IpSecKey {
            precedence: n8(0),
            algorithm: key_alg(n8(2)),
            gateway: match n8(1) {
                0 => ipseckey::Gateway::None,
                1 => ipseckey::Gateway::IpV4(v4(&b(3))),
                2 => ipseckey::Gateway::IpV6(v6(&b(3))),
                _ => ipseckey::Gateway::Domain(nm(3)),
            },
            public_key: b(4),
        }
        .into_record_data(),
        49 => RecordData::DHCID(Dhcid {
            identifier_code: match n16(0) {
                0 => dhcid::IdentifierType::ChaddrOfDhcpRequest,
                1 => dhcid::IdentifierType::ClientIdentifierOption,
                _ => dhcid::IdentifierType::DUID,
            },
            digest: b(1),
        }),
        52 => Tlsa::new(
            match n8(0) {
                0 => tlsa::CertUsage::Ca,
                1 => tlsa::CertUsage::ServiceCertificateConstraint,
                2 => tlsa::CertUsage::TrustAnchor,
                _ => tlsa::CertUsage::DomainIssuedCertificate,
            },
            match n8(1) {
                0 => tlsa::Selector::Full,
                _ => tlsa::Selector::SubjectPublicKeyInfo,
            },
            match n8(2) {
                0 => tlsa::MatchingType::ExactMatch,
                1 => tlsa::MatchingType::SHA256,
                _ => tlsa::MatchingType::SHA512,
            },
            b(3),
        )
        .into_record_data(),
        55 => Hip {
            public_key_algorithm: key_alg(n8(0)),
            hit: b(1),
            public_key: b(2),
            rendevous_server: {
                let l: Vec<FQDN> = f[3].nl().iter().map(fq).collect();
                if l.is_empty() { None } else { Some(l) }
            },
        }
        .into_record_data(),
        61 => OpenPgpKey(b(0)).into_record_data(),
        62 => {
            let mut c = Csync { soa_serial: n32(0), ..Default::default() };
            c.flags.set_immediate(n16(1) & 1 != 0);
            c.flags.set_soa_minimum(n16(1) & 2 != 0);
            c.types = f[2].s().into_iter().map(rtype).collect();
            c.into_record_data()
        }
        249 => Tkey {
            algorithm: nm(0),
            inception: n32(1),
            expiration: n32(2),
            mode: match n16(3) {
                1 => tkey::Mode::ServerAssignment,
                2 => tkey::Mode::DiffieHellmanExchange,
                3 => tkey::Mode::GssApiNegotiation,
                4 => tkey::Mode::ResolverAssignment,
                5 => tkey::Mode::KeyDeletion,
                x => tkey::Mode::Available(x),
            },
            error: match n16(4) {
                0 => tkey::Error::None,
                16 => tkey::Error::BadSig,
                17 => tkey::Error::BadKey,
                18 => tkey::Error::BadTime,
                19 => tkey::Error::BadMode,
                20 => tkey::Error::BadName,
                21 => tkey::Error::BadAlg,
                x => tkey::Error::NonExtendedRcode(x),
            },
            key_data: b(5),
            other_data: b(6),
        }
        .into_record_data(),
        250 => Tsig {
            algorithm: nm(0),
            time_signed: b(1).iter().fold(0, |a, x| (a << 8) | *x as u64),
            fudge: n16(2),
            mac: b(3),
            original_id: n16(4),
            error: match n16(5) {
                0 => tsig::Error::None,
                16 => tsig::Error::BadSig,
                17 => tsig::Error::BadKey,
                18 => tsig::Error::BadTime,
                _ => tsig::Error::BadTrunc,
            },
            other_data: b(6),
        }
        .into_record_data(),
        256 => Uri::new(n16(0), n16(1), b(2)).into_record_data(),
        257 => Caa::new(n8(0) != 0, st(b(1)), b(2)).into_record_data(),
        #[cfg(feature = "dnssec")]
        43 => RecordData::DS(Ds::new(n16(0), n8(1).try_into().ok()?, n8(2).try_into().ok()?, b(3))),
        #[cfg(feature = "dnssec")]
        59 => RecordData::CDS(Ds::new(n16(0), n8(1).try_into().ok()?, n8(2).try_into().ok()?, b(3))),
        #[cfg(feature = "dnssec")]
        46 => RecordData::RRSIG(Rrsig::new(
            rtype(n16(0)),
            n8(1).try_into().ok()?,
            n8(2),
            n32(3),
            n32(4),
            n32(5),
            n16(6),
            nm(7),
            b(8),
        )),
        #[cfg(feature = "dnssec")]
        47 => RecordData::NSEC(Nsec::with_types(nm(0), f[1].s().into_iter().map(rtype).collect())),
        #[cfg(feature = "dnssec")]
        48 | 60 => {
            if n8(1) != 3 {
                return None;
            }
            let mut k = DnsKey::new(n8(2).try_into().ok()?, b(3));
            k.zone_key = n16(0) & 0x100 != 0;
            k.secure_entry_point = n16(0) & 1 != 0;
            if t == 48 { RecordData::DNSKEY(k) } else { RecordData::CDNSKEY(k) }
        }
        _ => return None,
    })
}

pub fn key_alg(c: u8) -> maybe_dns::Algorithm {
    use maybe_dns::Algorithm::*;
    match c {
        0 => Reserved,
        1 => RSA,
        2 => DSA,
        3 => ECDSA,
        4 => Ed25519,
        _ => Ed448,
    }
}

/// Which type a data value is of
pub fn data_type(d: &RecordData) -> u16 {
    match d {
        RecordData::A(_) => 1,
        RecordData::NS(_) => 2,
        RecordData::CNAME(_) => 5,
        RecordData::SOA(_) => 6,
        RecordData::NULL(_) => 10,
        RecordData::WKS(_) => 11,
        RecordData::PTR(_) => 12,
        RecordData::HINFO(_) => 13,
        RecordData::MINFO(_) => 14,
        RecordData::MX(_) => 15,
        RecordData::TXT(_) => 16,
        RecordData::AAAA(_) => 28,
        RecordData::LOC(_) => 29,
        RecordData::SRV(_) => 33,
        RecordData::NAPTR(_) => 35,
        RecordData::OPT(_) => 41,
        RecordData::APL(_) => 42,
        RecordData::SSHFP(_) => 44,
        RecordData::IPSECKEY(_) => 45,
        RecordData::DHCID(_) => 49,
        RecordData::TLSA(_) => 52,
        RecordData::HIP(_) => 55,
        RecordData::OPENPGPKEY(_) => 61,
        RecordData::CSYNC(_) => 62,
        RecordData::SVCB(_) => 64,
        RecordData::EUI48(_) => 108,
        RecordData::EUI64(_) => 109,
        RecordData::TKEY(_) => 249,
        RecordData::TSIG(_) => 250,
        RecordData::URI(_) => 256,
        RecordData::CAA(_) => 257,
        #[cfg(feature = "dnssec")]
        RecordData::DS(_) => 43,
        #[cfg(feature = "dnssec")]
        RecordData::RRSIG(_) => 46,
        #[cfg(feature = "dnssec")]
        RecordData::NSEC(_) => 47,
        #[cfg(feature = "dnssec")]
        RecordData::DNSKEY(_) => 48,
        #[cfg(feature = "dnssec")]
        RecordData::CDS(_) => 59,
        #[cfg(feature = "dnssec")]
        RecordData::CDNSKEY(_) => 60,
    }
}

/// Parses record data that fills the buffer
pub fn parse_data(t: u16, d: &[u8]) -> Option<RecordData> {
    let mut b = DnsBuffer::from(d);
    RecordData::from(rtype(t), &mut b).ok()
}

/// Record data of the given fields, by construction or, where there is no constructor, by parsing
pub fn data(t: u16, f: &[V]) -> Option<RecordData> {
    build(t, f).or_else(|| parse_data(t, &r::encode(t, f)?))
}

pub fn rec(g: &mut Rng, pool: &mut Vec<Name>) -> r::Rec {
    let ts = r::types();
    let ty = if g.chance(1, 2) { *g.pick(&[2, 5, 6, 12, 14, 15, 33, 35, 1]) } else { *g.pick(&ts) };
    let name = pool_name(g, pool);
    let mut class = if ty == 41 || g.chance(1, 8) { g.u16() & 0x7fff } else { g.range(1, 4) as u16 };
    if r::mdns() && g.chance(1, 3) {
        class |= 0x8000;
    }
    let fields = loop {
        let f = fields(g, ty, pool);
        if r::encode(ty, &f).map_or(false, |e| e.len() <= 2000) {
            break f;
        }
    };
    r::Rec { name, ty, class, ttl: g.u32(), fields, at: (0, 0, 0) }
}
pub fn q(g: &mut Rng, pool: &mut Vec<Name>) -> r::Q {
    let ts = r::types();
    let ty = if g.chance(1, 4) { g.range(252, 255) as u16 } else { *g.pick(&ts) };
    let mut class = *g.pick(&[1u16, 2, 3, 4, 254, 255]);
    if r::mdns() && g.chance(1, 3) {
        class |= 0x8000;
    }
    r::Q { name: pool_name(g, pool), ty, class }
}
pub fn qclass(c: u16) -> QClass {
    match c & 0x7fff {
        1 => QClass::IN,
        2 => QClass::CS,
        3 => QClass::CH,
        4 => QClass::HS,
        254 => QClass::NONE,
        _ => QClass::ANY,
    }
}
pub fn rclass(c: u16) -> RecordClass {
    match c & 0x7fff {
        1 => RecordClass::IN,
        2 => RecordClass::CS,
        3 => RecordClass::CH,
        4 => RecordClass::HS,
        x => RecordClass::UdpPayloadSize(x),
    }
}
#[allow(unused_mut)]
pub fn mk_q(q: &r::Q) -> Question {
    let mut x = Question::new(fq(&q.name), QType::try_from(q.ty).expect("query type"), qclass(q.class));
    #[cfg(feature = "mdns")]
    x.set_unicast_response(q.class & 0x8000 != 0);
    x
}
#[allow(unused_mut)]
pub fn mk_rec(r: &r::Rec) -> Option<ResourceRecord> {
    let d = data(r.ty, &r.fields)?;
    let mut x = ResourceRecord::new(fq(&r.name), rtype(r.ty), rclass(r.class), r.ttl, d);
    #[cfg(feature = "mdns")]
    x.set_cache_flush(r.class & 0x8000 != 0);
    Some(x)
}
pub fn msg(g: &mut Rng, big: bool) -> r::Msg {
    let mut pool = Vec::new();
    let mut m = r::Msg { id: g.u16(), flags: 0, qs: vec![], secs: [vec![], vec![], vec![]], end: 0 };
    let nq = if g.chance(1, 4) { 0 } else { g.below(3) };
    for _ in 0..nq {
        m.qs.push(q(g, &mut pool));
    }
    for s in 0..3 {
        let n = if big { g.range(10, 40) } else { g.below(4) };
        for _ in 0..n {
            let mut r = rec(g, &mut pool);
            if big && g.chance(1, 4) {
                r.ty = 10;
                let n = g.range(200, 1500);
                r.fields = vec![V::B(vec![0; n])];
            }
            m.secs[s].push(r);
        }
    }
    let rc = g.below(11) as u16;
    m.flags = g.u16() & 0xfff0 | rc;
    m
}
pub fn enc_msg(m: &r::Msg) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    o.extend(m.id.to_be_bytes());
    o.extend(m.flags.to_be_bytes());
    o.extend((m.qs.len() as u16).to_be_bytes());
    for s in &m.secs {
        o.extend((s.len() as u16).to_be_bytes());
    }
    for q in &m.qs {
        o.extend(r::enc_question(q));
    }
    for s in &m.secs {
        for rec in s {
            o.extend(r::enc_record(rec)?);
        }
    }
    Some(o)
}
/// The message as a packet, built with the public operations on a parsed header
pub fn mk_packet(m: &r::Msg) -> Option<Packet> {
    let mut h = Vec::new();
    h.extend(m.id.to_be_bytes());
    h.extend(m.flags.to_be_bytes());
    h.extend([0; 8]);
    let mut p = Packet::try_from(&h[..]).ok()?;
    for q in &m.qs {
        p.add_question(mk_q(q));
    }
    for (s, l) in m.secs.iter().enumerate() {
        for rec in l {
            let x = mk_rec(rec)?;
            match s {
                0 => p.add_answer(x),
                1 => p.add_authority(x),
                _ => p.add_additional(x),
            }
        }
    }
    Some(p)
}

/// Random damage
pub fn mutate(g: &mut Rng, d: &mut Vec<u8>) {
    for _ in 0..g.range(1, 4) {
        if d.is_empty() {
            d.push(g.u8());
            continue;
        }
        let i = g.below(d.len());
        match g.below(8) {
            0 => {
                d.truncate(i);
            }
            1 => d[i] = g.u8(),
            2 => d[i] ^= 1 << g.below(8),
            3 => d[i] = d[i].wrapping_add(1),
            4 => d[i] = d[i].wrapping_sub(1),
            5 => {
                d.insert(i, g.u8());
            }
            6 => {
                d[i] = 0xc0 | (i >> 8) as u8 & 0x3f;
                if i + 1 < d.len() {
                    d[i + 1] = g.below(i + 4) as u8;
                }
            }
            _ => {
                d.remove(i);
            }
        }
    }
}
#[allow(dead_code)]
pub type Map = BTreeMap<u16, Vec<u8>>;
