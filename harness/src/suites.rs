//! The checks, one group per property. Every check compares the public behaviour with the
//! reference reading of the RFCs in `refdns`.
use crate::ck;
use crate::gen;
use crate::refdns::{self as r, V};
use crate::util::{hx, Res, Rng};
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::collections::HashSet;
use std::convert::TryFrom;

#[derive(Default)]
pub struct Ctx {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: std::collections::BTreeSet<String>,
}
impl Ctx {
    /// Records a case; `nontrivial` says whether it counts as one
    pub fn case(&mut self, input: &[u8], nontrivial: bool) {
        use std::hash::{Hash, Hasher};
        self.evals += 1;
        if nontrivial && self.distinct.len() < 2_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            input.hash(&mut h);
            if self.distinct.insert(h.finish()) && self.samples.len() < 3 {
                self.samples.push(hx(input));
            }
        }
    }
}

pub type F = fn(&mut Rng, &mut Ctx) -> Res;
pub struct Suite {
    pub prop: &'static str,
    pub name: &'static str,
    pub f: F,
    /// Runs once (it enumerates its whole space itself) instead of on random seeds
    pub once: bool,
}
macro_rules! suites {
    ($( $p:literal $kind:ident $f:ident ),* $(,)?) => {
        pub fn all() -> Vec<Suite> { vec![ $( Suite { prop: $p, name: stringify!($f), f: $f, once: stringify!($kind) == "once" } ),* ] }
    };
}
suites! {
    "C01" rand fuzz_message, "C01" rand fuzz_record, "C01" rand fuzz_data, "C01" rand fuzz_name, "C01" once small_messages,
    "C02" once names_small, "C02" rand names_random, "C02" rand fuzz_name,
    "C03" rand data_layout, "C03" rand data_parse, "C03" once data_boundaries,
    "C04" rand compression, "C04" rand compression_big,
    "C05" rand sizes, "C05" once data_boundaries,
    "C06" rand counts_lengths, "C06" rand op_histories, "C06" rand compression,
    "C07" rand confinement,
    "C08" rand buffer_ops, "C08" once buffer_small,
    "C09" once codes,
    "C10" once header_bits, "C10" rand header_random,
    "C11" rand op_histories,
    "C12" rand bitmaps, "C12" rand bitmaps_bad, "C12" once bitmaps_small,
    "C13" rand key_tags,
    "C14" rand record_sets,
    "C15" rand names_text, "C15" once names_text_small,
    "C16" rand params, "C16" rand params_bad,
    "C17" rand round_trip, "C17" rand compression,
}

// ---------------------------------------------------------------------------------------------

/// Whatever a packet offers, without a panic
fn touch_packet(p: &Packet) {
    let _ = (p.id(), p.recursion_desired(), p.truncation(), p.authoritative_answer(), p.opcode(), p.query_response());
    let _ = (p.response_code(), p.recursion_available(), p.header().to_bytes());
    let _ = format!("{p:?}");
    for q in p.questions() {
        let _ = (q.name().to_string(), q.query_type(), q.class(), q.byte_size(), q.to_bytes());
    }
    for x in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        touch_record(x);
    }
    let _ = (p.byte_size(), p.to_bytes(), p.to_bytes_compressed());
}
fn touch_record(x: &ResourceRecord) {
    let n = x.name();
    let _ = (n.to_string(), n.is_empty(), n.len(), n.label_count(), n.is_link_local(), n.is_root());
    let _ = (x.record_type().compression_allowed(), x.class(), x.time_to_live(), x.data_raw());
    let _ = (x.byte_size(), x.to_bytes(), format!("{x:?}"));
    touch_data(x.data());
}
fn touch_data(d: &RecordData) {
    let _ = (d.byte_size(), d.to_bytes(), format!("{d:?}"));
    match d {
        #[cfg(feature = "dnssec")]
        RecordData::DNSKEY(k) | RecordData::CDNSKEY(k) => {
            let _ = (k.protocol(), k.valid_protocol(), k.base64_public_key(), k.algorithm.len());
        }
        #[cfg(feature = "dnssec")]
        RecordData::DS(x) | RecordData::CDS(x) => {
            let _ = x.hex_digest();
        }
        #[cfg(feature = "dnssec")]
        RecordData::RRSIG(x) => {
            let _ = (x.key_tag(), x.base64_signature());
        }
        RecordData::SVCB(s) => {
            let _ = s.mode();
        }
        _ => (),
    }
}

fn some_message(g: &mut Rng) -> Vec<u8> {
    match g.below(4) {
        0 => {
            let n = g.len(80);
            let mut d = g.bytes(n);
            if d.len() >= 12 {
                for i in 0..4 {
                    d[4 + 2 * i] = 0;
                    d[5 + 2 * i] = g.below(4) as u8;
                }
                d[3] &= 0xf0;
            }
            d
        }
        1 => {
            let m = gen::msg(g, false);
            gen::enc_msg(&m).unwrap_or_default()
        }
        _ => {
            let m = gen::msg(g, false);
            let comp = g.chance(1, 2);
            let mut d = match gen::mk_packet(&m) {
                Some(p) if comp => p.to_bytes_compressed(),
                _ => gen::enc_msg(&m).unwrap_or_default(),
            };
            gen::mutate(g, &mut d);
            d
        }
    }
}

fn cmp_record(a: &ResourceRecord, b: &r::Rec) -> Res {
    ck!(gen::labels(a.name()) == b.name, "owner name {:?} != {:?}", gen::labels(a.name()), b.name);
    ck!(u16::from(*a.record_type()) == b.ty, "type {:?} != {}", a.record_type(), b.ty);
    ck!(*a.class() == gen::rclass(b.class), "class {:?} != {}", a.class(), b.class);
    #[cfg(feature = "mdns")]
    ck!(a.cache_flush() == (b.class & 0x8000 != 0), "cache flush bit of class {:#x}", b.class);
    ck!(a.time_to_live() == b.ttl, "ttl {} != {}", a.time_to_live(), b.ttl);
    cmp_data(a.data(), b.ty, &b.fields)
}
fn cmp_data(a: &RecordData, ty: u16, f: &[V]) -> Res {
    ck!(gen::data_type(a) == ty, "data of type {} in a record of type {ty}", gen::data_type(a));
    if let Some(x) = gen::build(ty, f) {
        ck!(*a == x, "type {ty}: parsed {a:?}, expected {x:?}");
    }
    if let Some(e) = r::encode(ty, f) {
        ck!(r::same_data(ty, &a.to_bytes(), &e), "type {ty}: {a:?} serialized as {}, expected {}", hx(&a.to_bytes()), hx(&e));
    }
    Ok(())
}
fn cmp_q(a: &Question, b: &r::Q) -> Res {
    ck!(gen::labels(a.name()) == b.name, "question name {:?} != {:?}", gen::labels(a.name()), b.name);
    ck!(u16::from(*a.query_type()) == b.ty, "query type {:?} != {}", a.query_type(), b.ty);
    ck!(*a.class() == gen::qclass(b.class), "query class {:?} != {}", a.class(), b.class);
    #[cfg(feature = "mdns")]
    ck!(a.unicast_response() == (b.class & 0x8000 != 0), "unicast bit of class {:#x}", b.class);
    Ok(())
}
fn cmp_msg(p: &Packet, m: &r::Msg) -> Res {
    let h = p.header().to_bytes();
    ck!(h.len() == 12, "header of {} bytes", h.len());
    ck!(p.id() == m.id && h[..2] == m.id.to_be_bytes(), "id {} != {}", p.id(), m.id);
    ck!(h[2..4] == m.flags.to_be_bytes(), "flags {} != {:04x}", hx(&h[2..4]), m.flags);
    ck!(p.questions().len() == m.qs.len(), "{} questions, expected {}", p.questions().len(), m.qs.len());
    for (a, b) in p.questions().iter().zip(&m.qs) {
        cmp_q(a, b)?;
    }
    for (i, (a, b)) in [p.answers(), p.authorities(), p.additionals()].iter().zip(&m.secs).enumerate() {
        ck!(a.len() == b.len(), "section {i}: {} records, expected {}", a.len(), b.len());
        for (x, y) in a.iter().zip(b) {
            cmp_record(x, y).map_err(|e| format!("section {i}: {e}"))?;
        }
    }
    Ok(())
}

fn fuzz_message(g: &mut Rng, c: &mut Ctx) -> Res {
    let d = some_message(g);
    let real = Packet::try_from(&d[..]);
    let exp = r::message(&d);
    c.case(&d, exp.is_some());
    if let Ok(p) = &real {
        touch_packet(p);
    }
    ck!(real.is_ok() == exp.is_some(), "message {}: accepted {}, expected {}", hx(&d), real.is_ok(), exp.is_some());
    if let (Ok(p), Some(m)) = (real, exp) {
        cmp_msg(&p, &m).map_err(|e| format!("message {}: {e}", hx(&d)))?;
    }
    Ok(())
}
fn fuzz_record(g: &mut Rng, c: &mut Ctx) -> Res {
    let mut pool = vec![];
    let rec = gen::rec(g, &mut pool);
    let mut d = g.bytes(12);
    let at = d.len();
    d.extend(r::enc_record(&rec).unwrap_or_default());
    if g.chance(2, 3) {
        let mut t = d.split_off(at);
        gen::mutate(g, &mut t);
        d.extend(t);
    }
    let mut b = DnsBuffer::from(&d[..]);
    b.set_position(at).map_err(|_| "set_position".to_string())?;
    let real = ResourceRecord::try_from(&mut b);
    let exp = r::record(&d, at);
    c.case(&d, exp.is_some());
    ck!(real.is_ok() == exp.is_some(), "record at {at} of {}: accepted {}, expected {}", hx(&d), real.is_ok(), exp.is_some());
    if let (Ok(x), Some(y)) = (&real, &exp) {
        touch_record(x);
        ck!(b.position() == y.at.2, "record at {at} of {}: reading stopped at {} instead of {}", hx(&d), b.position(), y.at.2);
        cmp_record(x, y).map_err(|e| format!("record at {at} of {}: {e}", hx(&d)))?;
    }
    let mut b = DnsBuffer::from(&d[..]);
    b.set_position(at.min(d.len())).map_err(|_| "set_position".to_string())?;
    let real = Question::try_from(&mut b);
    let exp = r::question(&d, at);
    ck!(real.is_ok() == exp.is_some(), "question at {at} of {}: accepted {}, expected {}", hx(&d), real.is_ok(), exp.is_some());
    if let (Ok(x), Some((y, e))) = (&real, &exp) {
        ck!(b.position() == *e, "question at {at} of {}: stopped at {}", hx(&d), b.position());
        cmp_q(x, y).map_err(|e| format!("question at {at} of {}: {e}", hx(&d)))?;
    }
    Ok(())
}
fn data_case(g: &mut Rng) -> (u16, Vec<u8>) {
    let t = *g.pick(&r::types());
    let mut pool = vec![];
    let f = gen::fields(g, t, &mut pool);
    let mut d = match g.below(5) {
        0 => {
            let n = g.len(60);
            g.bytes(n)
        }
        _ => r::encode(t, &f).unwrap_or_default(),
    };
    if g.chance(1, 2) {
        gen::mutate(g, &mut d);
    } else if g.chance(1, 3) {
        let n = g.below(d.len() + 1);
        d.truncate(n);
    }
    (t, d)
}
fn fuzz_data(g: &mut Rng, c: &mut Ctx) -> Res {
    let (t, d) = data_case(g);
    c.case(&d, true);
    if let Some(x) = gen::parse_data(t, &d) {
        touch_data(&x);
    }
    Ok(())
}
fn small_messages(_: &mut Rng, c: &mut Ctx) -> Res {
    // Every truncation of a message with one record of each type, and every pointer value in it
    let mut g = Rng::new(77);
    for t in r::types() {
        let mut pool = vec![];
        let f = loop {
            let f = gen::fields(&mut g, t, &mut pool);
            if r::encode(t, &f).map_or(false, |e| e.len() < 300) {
                break f;
            }
        };
        let m = r::Msg {
            id: 1,
            flags: 0x8400,
            qs: vec![r::Q { name: vec![b"ab".to_vec()], ty: 255, class: 1 }],
            secs: [vec![r::Rec { name: vec![b"ab".to_vec()], ty: t, class: 1, ttl: 5, fields: f, at: (0, 0, 0) }], vec![], vec![]],
            end: 0,
        };
        let d = gen::enc_msg(&m).ok_or("harness")?;
        for n in 0..=d.len() {
            c.case(&d[..n], true);
            let real = Packet::try_from(&d[..n]);
            let exp = r::message(&d[..n]);
            ck!(real.is_ok() == exp.is_some(), "type {t}, {} cut to {n} bytes: accepted {}, expected {}", hx(&d), real.is_ok(), exp.is_some());
        }
        for i in 12..d.len() {
            for v in [0x00, 0x01, 0x3f, 0x40, 0x80, 0xc0, 0xc1, 0xff] {
                let mut e = d.clone();
                e[i] = v;
                c.case(&e, true);
                let real = Packet::try_from(&e[..]);
                let exp = r::message(&e);
                ck!(real.is_ok() == exp.is_some(), "type {t}, message {}: accepted {}, expected {}", hx(&e), real.is_ok(), exp.is_some());
                if let Ok(p) = real {
                    touch_packet(&p);
                }
            }
        }
    }
    Ok(())
}

// ---- names ----------------------------------------------------------------------------------
fn name_case(d: &[u8], p: usize, c: &mut Ctx) -> Res {
    let mut b = DnsBuffer::from(d);
    b.set_position(p).map_err(|_| "set_position".to_string())?;
    let real = b.extract_fqdn();
    let exp = r::name(d, p);
    c.case(d, exp.is_some());
    match (&real, &exp) {
        (Ok(n), Some((l, e))) => {
            ck!(gen::labels(n) == *l, "name at {p} of {}: labels {:?}, expected {:?}", hx(d), gen::labels(n), l);
            ck!(b.position() == *e, "name at {p} of {}: stopped at {}, expected {e}", hx(d), b.position());
            ck!(b.as_slice() == d, "data changed");
            let mut b = DnsBuffer::from(d);
            b.set_position(p).map_err(|_| "set_position".to_string())?;
            let n2 = FQDN::try_from(&mut b).map_err(|_| format!("FQDN::try_from rejects what extract_fqdn accepts: {p} of {}", hx(d)))?;
            ck!(n2 == *n && b.position() == *e, "FQDN::try_from differs from extract_fqdn at {p} of {}", hx(d));
            let _ = (n.to_string(), n.is_link_local(), n.is_root(), n.to_bytes());
        }
        (Err(_), None) => (),
        _ => return Err(format!("name at {p} of {}: accepted {}, expected {}", hx(d), real.is_ok(), exp.is_some())),
    }
    Ok(())
}
fn names_small(_: &mut Rng, c: &mut Ctx) -> Res {
    // All buffers of up to 6 bytes over bytes that matter, read from every position
    let al = [0u8, 1, 2, 3, 63, 64, 128, 191, 192, 193];
    for n in 0..=5usize {
        let mut ix = vec![0usize; n];
        loop {
            let d: Vec<u8> = ix.iter().map(|i| al[*i]).collect();
            for p in 0..=n {
                name_case(&d, p, c)?;
            }
            let mut k = 0;
            while k < n {
                ix[k] += 1;
                if ix[k] < al.len() {
                    break;
                }
                ix[k] = 0;
                k += 1;
            }
            if k == n {
                break;
            }
        }
    }
    // Label lengths and pointers at their limits
    for l in 1..64usize {
        for cut in 0..3usize {
            let mut d = vec![l as u8];
            d.extend(vec![b'x'; l]);
            d.push(0);
            d.truncate(l + 2 - cut);
            name_case(&d, 0, c)?;
        }
    }
    for t in [0usize, 1, 254, 255, 256, 257, 0x2fff, 0x3ffe, 0x3fff] {
        let mut d = vec![0u8; 0x4010];
        d[t] = 1;
        d[t + 1] = b'z';
        let p = 0x4004;
        d[p] = 2;
        d[p + 3] = 0xc0 | (t >> 8) as u8;
        d[p + 4] = t as u8;
        name_case(&d, p, c)?;
        name_case(&d, p + 3, c)?;
    }
    Ok(())
}
fn names_random(g: &mut Rng, c: &mut Ctx) -> Res {
    // Names written one after the other, with pointers to earlier labels and names
    let mut d = g.bytes(0);
    let pad = g.below(40);
    d.extend(vec![0; pad]);
    if g.chance(1, 20) {
        let n = g.range(200, 17000);
        d.extend(vec![0; n]);
    }
    let mut starts: Vec<usize> = vec![];
    for _ in 0..g.range(1, 8) {
        let s = d.len();
        let mut own = vec![];
        for _ in 0..g.below(4) {
            own.push(d.len());
            let l = gen::label(g);
            d.push(l.len() as u8);
            d.extend(l);
        }
        if !starts.is_empty() && g.chance(2, 3) {
            let mut t = *g.pick(&starts);
            if g.chance(1, 8) {
                t = s + g.below(6);
            }
            let t = t & 0x3fff;
            d.push(0xc0 | (t >> 8) as u8);
            d.push(t as u8);
        } else {
            d.push(0);
        }
        starts.extend(own);
        starts.push(s);
    }
    if g.chance(1, 3) {
        gen::mutate(g, &mut d);
    }
    for s in starts {
        if s <= d.len() {
            name_case(&d, s, c)?;
        }
    }
    Ok(())
}
fn fuzz_name(g: &mut Rng, c: &mut Ctx) -> Res {
    let n = g.len(40);
    let mut d = g.bytes(n);
    for x in d.iter_mut() {
        if g.chance(1, 2) {
            *x = *g.pick(&[0, 1, 2, 3, 4, 0xc0, 0xc0, 5, 6]);
        }
    }
    let p = g.below(d.len() + 1);
    name_case(&d, p, c)
}

// ---- record data ----------------------------------------------------------------------------
fn sized(t: u16, x: &RecordData, c: &mut Ctx) -> Res {
    let n = x.to_bytes().len();
    if let RecordData::SVCB(s) = x {
        let extra = 4 * s.params.len();
        if extra > 0 && x.byte_size() == n + extra {
            c.known.insert("C05 Svcb::byte_size counts 4 bytes too many for every parameter (its key and length are counted twice); SVCB with parameters".into());
            return Ok(());
        }
    }
    ck!(x.byte_size() == n, "type {t}: byte_size {} but {n} bytes are written for {x:?}", x.byte_size());
    Ok(())
}
fn data_layout(g: &mut Rng, c: &mut Ctx) -> Res {
    let t = *g.pick(&r::types());
    let mut pool = vec![];
    let f = gen::fields(g, t, &mut pool);
    let Some(e) = r::encode(t, &f) else { return Ok(()) };
    c.case(&e, true);
    layout_case(t, &f, &e, c)
}
fn layout_case(t: u16, f: &[V], e: &[u8], c: &mut Ctx) -> Res {
    let p = gen::parse_data(t, e).ok_or_else(|| format!("type {t}: {} is rejected", hx(e)))?;
    cmp_data(&p, t, f).map_err(|m| format!("from {}: {m}", hx(e)))?;
    if let Some(x) = gen::build(t, f) {
        ck!(r::same_data(t, &x.to_bytes(), e), "type {t}: {x:?} serialized as {}, expected {}", hx(&x.to_bytes()), hx(e));
        sized(t, &x, c)?;
    }
    sized(t, &p, c)?;
    let again = gen::parse_data(t, &p.to_bytes()).ok_or_else(|| format!("type {t}: own serialization {} is rejected", hx(&p.to_bytes())))?;
    ck!(again == p, "type {t}: {p:?} becomes {again:?} after a round trip");
    // Public parts that have no constructor or are easily confused
    match &p {
        #[cfg(feature = "dnssec")]
        RecordData::DNSKEY(k) | RecordData::CDNSKEY(k) => {
            let fl = f[0].n();
            ck!(k.zone_key == (fl & 0x100 != 0) && k.secure_entry_point == (fl & 1 != 0), "flags of key {}", hx(e));
            ck!(k.protocol() as u64 == f[1].n() && k.public_key == f[3].b(), "protocol or key of {}", hx(e));
            let a: u8 = k.algorithm.into();
            ck!(a as u64 == f[2].n(), "algorithm of {}", hx(e));
        }
        #[cfg(feature = "dnssec")]
        RecordData::DS(k) | RecordData::CDS(k) => {
            let (a, d): (u8, u8) = (k.algorithm.into(), k.digest_type.into());
            ck!(k.key_tag as u64 == f[0].n() && a as u64 == f[1].n() && d as u64 == f[2].n() && k.digest == f[3].b(), "fields of DS {}", hx(e));
        }
        #[cfg(feature = "dnssec")]
        RecordData::RRSIG(k) => {
            ck!(k.key_tag() as u64 == f[6].n() && k.signature() == f[8].b(), "fields of RRSIG {}", hx(e));
        }
        RecordData::A(x) => {
            ck!(x.inner().octets().to_vec() == f[0].b() && u32::from(x.clone()).to_be_bytes().to_vec() == f[0].b(), "address of {}", hx(e));
        }
        RecordData::AAAA(x) => ck!(x.inner().octets().to_vec() == f[0].b() && u128::from(x).to_be_bytes().to_vec() == f[0].b(), "address of {}", hx(e)),
        RecordData::APL(x) => {
            ck!(x.prefix as u64 == f[1].n() && x.n == (f[2].n() == 1) && x.afd_part.to_bytes() == f[3].b(), "fields of APL {}", hx(e));
            ck!(x.afd_part.byte_size() == f[3].b().len(), "size of the address of APL {}", hx(e));
        }
        RecordData::CSYNC(x) => {
            ck!(x.flags.immediate() == (f[1].n() & 1 != 0) && x.flags.soa_minimum() == (f[1].n() & 2 != 0), "flags of CSYNC {}", hx(e));
        }
        RecordData::SVCB(x) => {
            ck!(x.priority as u64 == f[0].n() && gen::labels(&x.target_name) == f[1].l(), "fields of SVCB {}", hx(e));
            svcb_params(x, &f[2].p(), e)?;
        }
        RecordData::IPSECKEY(x) => {
            ck!(x.gateway.gateway_type() as u64 == f[1].n(), "gateway type of {}", hx(e));
            ck!(x.gateway.byte_size() == x.gateway.to_bytes().len(), "size of the gateway of {}", hx(e));
        }
        _ => (),
    }
    Ok(())
}
fn svcb_params(x: &Svcb, m: &std::collections::BTreeMap<u16, Vec<u8>>, e: &[u8]) -> Res {
    ck!(x.params.len() == m.len(), "SVCB {}: {} parameters, expected {}", hx(e), x.params.len(), m.len());
    for (p, (k, v)) in x.params.iter().zip(m) {
        let mut w = k.to_be_bytes().to_vec();
        w.extend((v.len() as u16).to_be_bytes());
        w.extend(v);
        ck!(p.to_bytes() == w, "SVCB {}: parameter {p:?} written as {}, expected {}", hx(e), hx(&p.to_bytes()), hx(&w));
        ck!(p.byte_size() == w.len(), "SVCB {}: parameter {p:?} has size {}, expected {}", hx(e), p.byte_size(), w.len());
    }
    Ok(())
}
fn data_parse(g: &mut Rng, c: &mut Ctx) -> Res {
    let (t, d) = data_case(g);
    let real = gen::parse_data(t, &d);
    let exp = r::parse(t, &d, 0);
    c.case(&d, exp.is_some());
    ck!(real.is_some() == exp.is_some(), "type {t}: {} accepted {}, expected {}", hx(&d), real.is_some(), exp.is_some());
    if let (Some(x), Some((f, _))) = (real, exp) {
        cmp_data(&x, t, &f).map_err(|m| format!("from {}: {m}", hx(&d)))?;
        if r::encode(t, &f).is_some() {
            sized(t, &x, c)?;
        }
    }
    Ok(())
}
fn data_boundaries(_: &mut Rng, c: &mut Ctx) -> Res {
    // Every type, with its variable parts at 0, 1 and their maximum
    let mut g = Rng::new(5);
    for t in r::types() {
        for round in 0..40 {
            let mut pool = vec![];
            let mut f = gen::fields(&mut g, t, &mut pool);
            for (k, x) in r::kinds(t).iter().zip(0..) {
                use r::K::*;
                if t == 45 || t == 55 || t == 42 || t == 49 {
                    break;
                }
                let big = match round % 4 {
                    0 => 0,
                    1 => 1,
                    2 => usize::MAX,
                    _ => continue,
                };
                match k {
                    Str => f[x] = V::B(vec![7; big.min(255)]),
                    Utf8 => f[x] = V::B(vec![b'u'; big.min(255)]),
                    Tag => f[x] = V::B(vec![b'u'; big.clamp(1, 255)]),
                    Blob16 => f[x] = V::B(vec![9; big.min(65535)]),
                    Rest => f[x] = V::B(vec![3; big.min(700)]),
                    Strs => f[x] = V::BL(vec![vec![b's'; big.min(255)]; 3]),
                    Name => f[x] = V::L(vec![vec![b'n'; big.clamp(1, 63)]; big.min(3)]),
                    _ => (),
                }
            }
            let Some(e) = r::encode(t, &f) else { continue };
            c.case(&e, true);
            layout_case(t, &f, &e, c)?;
        }
    }
    if let Some(x) = gen::parse_data(42, &[0, 1, 8, 4, 10, 0, 0, 0]) {
        if x.to_bytes().len() == 8 {
            c.known.insert("C03 Apl::to_bytes keeps trailing zero octets of the address (RFC 3123 section 4 leaves them out); e.g. 10.0.0.0/8 is written with AFDLENGTH 4".into());
        }
    }
    let x = IpSecKey { precedence: 1, algorithm: maybe_dns::Algorithm::RSA, gateway: ipseckey::Gateway::None, public_key: vec![5] };
    if x.to_bytes().len() == 5 {
        c.known.insert("C03 IPSECKEY without gateway is written and read with one byte '.' in its place (RFC 4025 section 2.5: no bytes)".into());
    }
    Ok(())
}

// ---- compression ----------------------------------------------------------------------------
/// Walks a serialized message and checks every name in it: pointers lead to earlier positions
/// within 14 bits. Gives the number of pointers.
fn check_pointers(d: &[u8], m: &r::Msg) -> Result<usize, String> {
    fn one(d: &[u8], p: usize) -> Result<(usize, usize), String> {
        let mut i = p;
        loop {
            let l = *d.get(i).ok_or("name runs out of the message")? as usize;
            if l == 0 {
                return Ok((i + 1, 0));
            }
            if l >= 192 {
                let t = ((l - 192) << 8) | *d.get(i + 1).ok_or("pointer runs out")? as usize;
                ck_ptr(t < i && t < 0x4000, i, t)?;
                return Ok((i + 2, 1));
            }
            i += l + 1;
        }
    }
    fn ck_ptr(ok: bool, i: usize, t: usize) -> Result<(), String> {
        if ok { Ok(()) } else { Err(format!("pointer at {i} leads to {t}")) }
    }
    let mut n = 0;
    let mut p = 12;
    for _ in &m.qs {
        let (e, k) = one(d, p)?;
        n += k;
        p = e + 4;
    }
    for s in &m.secs {
        for rec in s {
            let (e, k) = one(d, rec.at.0)?;
            n += k;
            let w = &d[..rec.at.2];
            let mut q = e + 10;
            let lead: &[i32] = match rec.ty {
                2 | 5 | 12 => &[-1],
                6 | 14 => &[-1, -1],
                15 => &[2, -1],
                33 => &[6, -1],
                47 => &[-1],
                35 => {
                    q += 4;
                    for _ in 0..3 {
                        q += 1 + w[q] as usize;
                    }
                    &[-1]
                }
                _ => &[],
            };
            for x in lead {
                if *x < 0 {
                    let (e, k) = one(w, q)?;
                    n += k;
                    q = e;
                } else {
                    q += *x as usize;
                }
            }
        }
    }
    Ok(n)
}
fn strip(m: &r::Msg) -> r::Msg {
    let mut m = m.clone();
    m.end = 0;
    for s in m.secs.iter_mut() {
        for x in s.iter_mut() {
            x.at = (0, 0, 0);
            x.class = r::class_kept(x.class);
        }
    }
    m
}
fn compress_case(m: &r::Msg, c: &mut Ctx) -> Res {
    let Some(p) = gen::mk_packet(m) else { return Ok(()) };
    let d = p.to_bytes_compressed();
    let plain = p.to_bytes();
    let back = r::message(&d).ok_or_else(|| format!("compressed message cannot be read: {} (uncompressed {})", hx(&d), hx(&plain)))?;
    ck!(back.end == d.len(), "compressed message {} has bytes behind its sections", hx(&d));
    ck!(strip(&back) == strip(m), "compressed message {} reads as {back:?}, expected {m:?}", hx(&d));
    let n = check_pointers(&d, &back).map_err(|e| format!("{e} in {}", hx(&d)))?;
    c.case(&d, n > 0);
    ck!(d.len() <= plain.len(), "compression makes {} longer", hx(&plain));
    let q = Packet::try_from(&d[..]).map_err(|_| format!("compressed message is rejected: {}", hx(&d)))?;
    ck!(q == p, "compressed message {} parses to {q:?} instead of {p:?}", hx(&d));
    // Section counts and data lengths are what the reference reader found
    Ok(())
}
fn compression(g: &mut Rng, c: &mut Ctx) -> Res {
    let m = gen::msg(g, false);
    compress_case(&m, c)
}
fn compression_big(g: &mut Rng, c: &mut Ctx) -> Res {
    let m = gen::msg(g, true);
    compress_case(&m, c)
}

// ---- sizes, counts, lengths -----------------------------------------------------------------
fn sizes(g: &mut Rng, c: &mut Ctx) -> Res {
    let mut pool = vec![];
    // Names may also hold empty labels, which are not written
    let mut n = gen::name(g);
    if g.chance(1, 3) {
        let i = g.below(n.len() + 1);
        n.insert(i, vec![]);
    }
    let f = gen::fq(&n);
    c.case(&f.to_bytes(), true);
    ck!(f.byte_size() == f.to_bytes().len() && f.len() == f.to_bytes().len(), "name {n:?}: size {} and {}, written {}", f.byte_size(), f.len(), f.to_bytes().len());
    let q = gen::mk_q(&gen::q(g, &mut pool));
    ck!(q.byte_size() == q.to_bytes().len(), "{q:?}: size {}, written {}", q.byte_size(), q.to_bytes().len());
    ck!(q.query_type().byte_size() == q.query_type().to_bytes().len() && q.class().byte_size() == q.class().to_bytes().len(), "type or class of {q:?}");
    let t = *g.pick(&r::types());
    let fl = gen::fields(g, t, &mut pool);
    let Some(x) = gen::data(t, &fl) else { return Ok(()) };
    sized(t, &x, c)?;
    let rec = ResourceRecord::new(gen::fq(&n), gen::rtype(t), RecordClass::IN, 5, x.clone());
    let known = match &x {
        RecordData::SVCB(s) if x.byte_size() == x.to_bytes().len() + 4 * s.params.len() => 4 * s.params.len(),
        _ => 0,
    };
    ck!(rec.byte_size() == rec.to_bytes().len() + known, "{rec:?}: size {}, written {}", rec.byte_size(), rec.to_bytes().len());
    ck!(rec.record_type().byte_size() == rec.record_type().to_bytes().len() && rec.class().byte_size() == rec.class().to_bytes().len(), "type or class of {rec:?}");
    let mut m = gen::msg(g, false);
    for s in m.secs.iter_mut() {
        s.retain(|x| x.ty != 64);
    }
    if let Some(p) = gen::mk_packet(&m) {
        ck!(p.byte_size() == p.to_bytes().len(), "{p:?}: size {}, written {}", p.byte_size(), p.to_bytes().len());
        ck!(p.header().byte_size() == p.header().to_bytes().len() && p.header().byte_size() == 12, "header size");
    }
    let l: Vec<RecordData> = (0..g.below(5)).filter_map(|_| {
        let f = gen::fields(g, 15, &mut pool);
        gen::data(15, &f)
    }).collect();
    let s = ResourceRecordSet::new(&f, RecordType::MX, RecordClass::IN, 3, l.iter().collect());
    ck!(s.byte_size() == s.to_bytes().len(), "{s:?}: size {}, written {}", s.byte_size(), s.to_bytes().len());
    Ok(())
}
fn counts_lengths(g: &mut Rng, c: &mut Ctx) -> Res {
    let mut pool = vec![];
    let mut rec = gen::rec(g, &mut pool);
    if g.chance(1, 3) {
        rec.ty = *g.pick(&r::types());
        rec.fields = gen::fields(g, rec.ty, &mut pool);
    }
    let Some(x) = gen::mk_rec(&rec) else { return Ok(()) };
    let raw = x.data_raw();
    if raw.len() > 65535 {
        return Ok(());
    }
    let d = x.to_bytes();
    c.case(&d, true);
    let e = r::enc_name(&rec.name).len();
    ck!(d.len() >= e + 10, "record {x:?} is only {} bytes", d.len());
    let l = d[e + 8] as usize * 256 + d[e + 9] as usize;
    ck!(l == d.len() - e - 10, "record {}: data length field {l}, but {} data bytes follow", hx(&d), d.len() - e - 10);
    ck!(r::same_data(rec.ty, &d[e + 10..], &raw), "record {}: data differs from data_raw {}", hx(&d), hx(&raw));
    // The same record in compressed form, behind a question that shares its name
    let mut p = Packet::new_reply(g.u16());
    if g.chance(1, 2) {
        p.add_question(Question::new(gen::fq(&rec.name), QType::ANY, QClass::IN));
    }
    p.set_answers(vec![x.clone()]);
    if g.chance(1, 2) {
        p.add_additional(x);
    }
    let d = p.to_bytes_compressed();
    let mut pos = 12;
    let cnt = |i: usize| d[2 * i] as usize * 256 + d[2 * i + 1] as usize;
    ck!(cnt(2) == p.questions().len() && cnt(3) == 1 && cnt(4) == 0 && cnt(5) == p.additionals().len(), "counts in {}", hx(&d[..12]));
    for _ in 0..cnt(2) {
        pos = r::name(&d, pos).ok_or_else(|| format!("question name in {}", hx(&d)))?.1 + 4;
    }
    for _ in 0..cnt(3) + cnt(5) {
        let e = r::name(&d, pos).ok_or_else(|| format!("record name at {pos} in {}", hx(&d)))?.1;
        ck!(d.len() >= e + 10, "record at {pos} of {} is cut", hx(&d));
        pos = e + 10 + d[e + 8] as usize * 256 + d[e + 9] as usize;
    }
    ck!(pos == d.len(), "data lengths in {} lead to {pos}, message ends at {}", hx(&d), d.len());
    Ok(())
}

// ---- operations on sections -----------------------------------------------------------------
fn op_histories(g: &mut Rng, c: &mut Ctx) -> Res {
    let mut pool = vec![];
    let mut log = String::new();
    let mk_qs = |g: &mut Rng, pool: &mut Vec<r::Name>| -> Vec<Question> { (0..g.below(4)).map(|_| gen::mk_q(&gen::q(g, pool))).collect() };
    let one = |g: &mut Rng, pool: &mut Vec<r::Name>| -> ResourceRecord {
        loop {
            let x = gen::rec(g, pool);
            if let Some(x) = gen::mk_rec(&x) {
                return x;
            }
        }
    };
    let mut qs: Vec<Question> = vec![];
    let mut p = match g.below(4) {
        0 => Packet::new_query(g.u16(), true),
        1 => Packet::new_reply(g.u16()),
        2 => {
            qs = mk_qs(g, &mut pool);
            Packet::with_questions(g.u16(), false, qs.clone())
        }
        _ => {
            let m = gen::msg(g, false);
            let Some(b) = gen::mk_packet(&m) else { return Ok(()) };
            let d = if g.chance(1, 2) { b.to_bytes() } else { b.to_bytes_compressed() };
            match Packet::try_from(&d[..]) {
                Ok(p) => {
                    qs = p.questions().to_vec();
                    p
                }
                Err(_) => return Err(format!("own serialization {} rejected", hx(&d))),
            }
        }
    };
    let mut secs = [p.answers().to_vec(), p.authorities().to_vec(), p.additionals().to_vec()];
    // The stored counts: each operation sets the one of its section; a new header brings its own
    let mut cnt = [qs.len(), secs[0].len(), secs[1].len(), secs[2].len()];
    for _ in 0..g.range(1, 10) {
        let s = g.below(3);
        let op = g.below(13);
        match op {
            0 => {
                let q = gen::mk_q(&gen::q(g, &mut pool));
                qs.push(q.clone());
                p.add_question(q);
                log += "add_question;";
            }
            1 => {
                qs = mk_qs(g, &mut pool);
                p.set_questions(qs.clone());
                log += "set_questions;";
            }
            2 => {
                let t = p.take_questions();
                ck!(t == qs, "take_questions gives {t:?}, expected {qs:?} after {log}");
                qs.clear();
                log += "take_questions;";
            }
            3 | 4 => {
                let x = one(g, &mut pool);
                secs[s].push(x.clone());
                match s {
                    0 => p.add_answer(x),
                    1 => p.add_authority(x),
                    _ => p.add_additional(x),
                }
                log += &format!("add {s};");
            }
            5 | 6 => {
                let l: Vec<ResourceRecord> = (0..g.below(4)).map(|_| one(g, &mut pool)).collect();
                secs[s] = l.clone();
                match s {
                    0 => p.set_answers(l),
                    1 => p.set_authorities(l),
                    _ => p.set_additionals(l),
                }
                log += &format!("set {s};");
            }
            7 => {
                let t = match s {
                    0 => p.take_answers(),
                    1 => p.take_authorities(),
                    _ => p.take_additionals(),
                };
                ck!(t == secs[s], "take of section {s} gives other records after {log}");
                secs[s].clear();
                log += &format!("take {s};");
            }
            8 => {
                p.set_id(g.u16());
                p.set_recursion_desired(g.chance(1, 2));
                p.set_truncation(g.chance(1, 2));
                p.set_query_response(g.chance(1, 2));
                p.set_response_code(ResponseCode::Refused);
                p.set_opcode(OpCode::from(g.below(4) as u8));
                p.set_authoritative_answer(g.chance(1, 2));
                p.set_recursion_available(g.chance(1, 2));
                log += "flags;";
            }
            9 => {
                let mut h = [0u8; 12];
                for (i, x) in h.iter_mut().enumerate() {
                    if i < 2 || (i >= 4 && g.chance(1, 2)) {
                        *x = if i >= 4 && i % 2 == 0 && g.chance(3, 4) { 0 } else { g.below(8) as u8 };
                    }
                }
                for i in 0..4 {
                    cnt[i] = h[4 + 2 * i] as usize * 256 + h[5 + 2 * i] as usize;
                }
                p.set_header(Header::try_from(&mut DnsBuffer::from(&h[..])).map_err(|e| format!("header {}: {e:?}", hx(&h)))?);
                log += &format!("set_header {};", hx(&h));
            }
            10 => {
                let q = gen::mk_q(&gen::q(g, &mut pool));
                p.questions_mut().push(q.clone());
                qs.push(q);
                log += "questions_mut push;";
            }
            _ => log += "nothing;",
        }
        match op {
            0..=2 => cnt[0] = qs.len(),
            3..=7 => cnt[1 + s] = secs[s].len(),
            _ => {}
        }
        ck!(p.questions() == &qs[..], "questions differ after {log}");
        ck!(p.answers() == &secs[0][..], "answers differ after {log}");
        ck!(p.authorities() == &secs[1][..], "authorities differ after {log}");
        ck!(p.additionals() == &secs[2][..], "additionals differ after {log}");
        let h = p.header().to_bytes();
        let n = |i: usize| h[2 * i] as usize * 256 + h[2 * i + 1] as usize;
        ck!(
            n(2) == cnt[0] && n(3) == cnt[1] && n(4) == cnt[2] && n(5) == cnt[3],
            "stored counts {} after {log}, expected {cnt:?}",
            hx(&h[4..])
        );
    }
    if g.chance(1, 3) {
        // Changes through questions_mut do not touch the stored count, but what is written counts
        for _ in 0..g.below(3) {
            let q = gen::mk_q(&gen::q(g, &mut pool));
            p.questions_mut().push(q.clone());
            qs.push(q);
            log += "questions_mut push;";
        }
        if !qs.is_empty() && g.chance(1, 2) {
            p.questions_mut().remove(0);
            qs.remove(0);
            log += "questions_mut remove;";
        }
    }
    if g.chance(1, 5) {
        p.set_header(Header::new_query(7, true));
        log += "set_header;";
    }
    for d in [p.to_bytes(), p.to_bytes_compressed()] {
        c.case(&d, !log.is_empty());
        let m = r::message(&d).ok_or_else(|| format!("message {} after {log} cannot be read", hx(&d)))?;
        ck!(m.end == d.len(), "message {} after {log}: sections end at {}", hx(&d), m.end);
        ck!(m.qs.len() == qs.len() && m.secs[0].len() == secs[0].len() && m.secs[1].len() == secs[1].len() && m.secs[2].len() == secs[2].len(),
            "message {} after {log}: counts {} {} {} {}", hx(&d), m.qs.len(), m.secs[0].len(), m.secs[1].len(), m.secs[2].len());
        for (a, b) in qs.iter().zip(&m.qs) {
            cmp_q(a, b).map_err(|e| format!("message {} after {log}: {e}", hx(&d)))?;
        }
        for (a, b) in secs.iter().flatten().zip(m.secs.iter().flatten()) {
            cmp_record(a, b).map_err(|e| format!("message {} after {log}: {e}", hx(&d)))?;
        }
    }
    Ok(())
}

// ---- confinement ----------------------------------------------------------------------------
fn confinement(g: &mut Rng, c: &mut Ctx) -> Res {
    // A record whose data length is off by a few or random, with well-formed bytes behind it
    let mut pool = vec![];
    let mut d = vec![0, 1, 0x84, 0, 0, 0, 0, 2, 0, 0, 0, 0];
    let rec = gen::rec(g, &mut pool);
    let Some(e) = r::enc_record(&rec) else { return Ok(()) };
    let nl = r::enc_name(&rec.name).len();
    d.extend(&e);
    let true_len = e.len() - nl - 10;
    let len = match g.below(5) {
        0 => true_len,
        1 => true_len.saturating_sub(g.range(1, 4)),
        2 => true_len + g.range(1, 4),
        3 => 0,
        _ => g.below(true_len + 30),
    } as u16;
    d[12 + nl + 8..12 + nl + 10].copy_from_slice(&len.to_be_bytes());
    let behind = match g.below(3) {
        0 => vec![],
        1 => {
            let n = g.below(60);
            g.bytes(n)
        }
        _ => r::enc_record(&gen::rec(g, &mut pool)).unwrap_or_default(),
    };
    d.extend(behind);
    let mut b = DnsBuffer::from(&d[..]);
    b.set_position(12).map_err(|_| "set_position".to_string())?;
    let real = ResourceRecord::try_from(&mut b);
    let exp = r::record(&d, 12);
    c.case(&d, true);
    ck!(real.is_ok() == exp.is_some(), "record at 12 of {} with data length {len}: accepted {}, expected {}", hx(&d), real.is_ok(), exp.is_some());
    if let (Ok(x), Some(y)) = (&real, &exp) {
        ck!(b.position() == 12 + nl + 10 + len as usize, "record at 12 of {} with data length {len}: reading continues at {}", hx(&d), b.position());
        cmp_record(x, y).map_err(|m| format!("record at 12 of {}: {m}", hx(&d)))?;
    }
    let real = Packet::try_from(&d[..]);
    let exp = r::message(&d);
    ck!(real.is_ok() == exp.is_some(), "message {}: accepted {}, expected {}", hx(&d), real.is_ok(), exp.is_some());
    if let (Ok(p), Some(m)) = (&real, &exp) {
        cmp_msg(p, m).map_err(|e| format!("message {}: {e}", hx(&d)))?;
    }
    Ok(())
}

// ---- buffer ---------------------------------------------------------------------------------
fn buffer_ops(g: &mut Rng, c: &mut Ctx) -> Res {
    let n = g.len(70);
    let d = g.bytes(n);
    let mut b = DnsBuffer::from(&d[..]);
    let mut p = 0usize;
    let mut log = String::new();
    ck!(b.position() == 0 && b.remaining() == d.len(), "new buffer over {n} bytes: position {}, remaining {}", b.position(), b.remaining());
    for _ in 0..g.range(1, 14) {
        let rem = d.len() - p;
        let n = match g.below(8) {
            0 => rem,
            1 => rem + 1,
            2 => usize::MAX - g.below(3),
            3 => 0,
            4 => rem + 2 + g.below(9),
            _ => g.below(8),
        };
        let err = |what: &str, log: &str| Err(format!("{what} over {} after {log}", hx(&d)));
        match g.below(12) {
            0 => {
                log += &format!("peek {n};");
                match b.peek_bytes(n) {
                    Ok(s) => if n > rem || *s != d[p..p + n] { return err("peek_bytes", &log) },
                    Err(_) => if n <= rem { return err("peek_bytes rejected", &log) },
                }
            }
            1 | 2 => {
                log += &format!("bytes {n};");
                let ok = match b.extract_bytes(n) {
                    Ok(s) => { if n > rem || *s != d[p..p + n] { return err("extract_bytes", &log) } true }
                    Err(_) => { if n <= rem { return err("extract_bytes rejected", &log) } false }
                };
                if ok { p += n }
            }
            3 => {
                log += "u8;";
                match b.extract_u8() {
                    Ok(x) => { if rem < 1 || x != d[p] { return err("extract_u8", &log) } p += 1 }
                    Err(_) => if rem >= 1 { return err("extract_u8 rejected", &log) },
                }
            }
            4 => {
                log += "u16;";
                match b.extract_u16() {
                    Ok(x) => { if rem < 2 || x != u16::from_be_bytes([d[p], d[p + 1]]) { return err("extract_u16", &log) } p += 2 }
                    Err(_) => if rem >= 2 { return err("extract_u16 rejected", &log) },
                }
            }
            5 => {
                log += "u32;";
                match b.extract_u32() {
                    Ok(x) => { if rem < 4 || x != u32::from_be_bytes([d[p], d[p + 1], d[p + 2], d[p + 3]]) { return err("extract_u32", &log) } p += 4 }
                    Err(_) => if rem >= 4 { return err("extract_u32 rejected", &log) },
                }
            }
            6 => {
                log += "string;";
                let fits = rem >= 1 && rem >= 1 + d[p] as usize;
                match b.extract_character_string() {
                    Ok(x) => { if !fits || x != d[p + 1..p + 1 + d[p] as usize] { return err("extract_character_string", &log) } p += 1 + d[p] as usize }
                    Err(_) => { if fits { return err("extract_character_string rejected", &log) } return Ok(()); }
                }
            }
            7 => {
                log += "text;";
                let fits = rem >= 1 && rem >= 1 + d[p] as usize && std::str::from_utf8(&d[p + 1..p + 1 + d[p] as usize]).is_ok();
                match b.extract_string() {
                    Ok(x) => { if !fits || x.as_bytes() != &d[p + 1..p + 1 + d[p] as usize] { return err("extract_string", &log) } p += 1 + d[p] as usize }
                    Err(_) => { if fits { return err("extract_string rejected", &log) } return Ok(()); }
                }
            }
            8 => {
                log += &format!("advance {n};");
                match b.advance(n) {
                    Ok(()) => { if n > rem { return err("advance", &log) } p += n }
                    Err(_) => if n <= rem { return err("advance rejected", &log) },
                }
            }
            9 => {
                log += &format!("set_position {n};");
                match b.set_position(n) {
                    Ok(()) => { if n > d.len() { return err("set_position", &log) } p = n }
                    Err(_) => if n <= d.len() { return err("set_position rejected", &log) },
                }
            }
            10 => {
                log += &format!("sub {n};");
                match b.sub_buffer(n) {
                    Ok(mut s) => {
                        if n > rem || s.position() != p || s.remaining() != n || s.as_slice() != &d[..p + n] { return err("sub_buffer", &log) }
                        if s.extract_bytes(n + 1).is_ok() { return err("sub_buffer reads behind its end", &log) }
                        match s.extract_bytes(n) { Ok(x) if *x == d[p..p + n] => (), _ => return err("sub_buffer does not read its bytes", &log) }
                    }
                    Err(_) => if n <= rem { return err("sub_buffer rejected", &log) },
                }
            }
            _ => {
                log += "type;";
                match b.extract_u16_as::<QType>() {
                    Ok(x) => { if rem < 2 || u16::from(x) != u16::from_be_bytes([d[p], d[p + 1]]) { return err("extract_u16_as", &log) } p += 2 }
                    Err(_) => { if rem >= 2 { if r::is_qtype(u16::from_be_bytes([d[p], d[p + 1]])) { return err("extract_u16_as rejected", &log) } return Ok(()); } }
                }
            }
        }
        ck!(b.position() == p, "position {} instead of {p} over {} after {log}", b.position(), hx(&d));
        ck!(b.remaining() == d.len() - p && b.as_slice() == &d[..], "remaining or data over {} after {log}", hx(&d));
    }
    c.case(&[d, log.into_bytes()].concat(), true);
    Ok(())
}
fn buffer_small(_: &mut Rng, c: &mut Ctx) -> Res {
    // Every length 0..6, position and read length
    for n in 0..=6usize {
        let d: Vec<u8> = (0..n).map(|i| [0x81u8, 0x42, 0xc3, 0x24, 0xf5, 0x66][i]).collect();
        for p in 0..=n {
            for l in (0..=8).chain([usize::MAX - 6, usize::MAX - 1, usize::MAX]) {
                let mut b = DnsBuffer::from(&d[..]);
                b.set_position(p).map_err(|_| format!("set_position {p} of {n}"))?;
                c.case(&[n as u8, p as u8, l as u8], true);
                let fits = l <= n - p;
                let ok = b.extract_bytes(l).map(|s| s.to_vec());
                ck!(ok.is_ok() == fits && ok.map_or(true, |s| s == d[p..p + l]), "extract_bytes({l}) at {p} of {n}");
                ck!(b.position() == if fits { p + l } else { p }, "position after extract_bytes({l}) at {p} of {n}: {}", b.position());
            }
            for w in [1usize, 2, 4] {
                let mut b = DnsBuffer::from(&d[..]);
                b.set_position(p).map_err(|_| format!("set_position {p} of {n}"))?;
                let v = match w { 1 => b.extract_u8().ok().map(|x| x as u64), 2 => b.extract_u16().ok().map(|x| x as u64), _ => b.extract_u32().ok().map(|x| x as u64) };
                let fits = w <= n - p;
                let e = if fits { Some(d[p..p + w].iter().fold(0u64, |a, x| (a << 8) | *x as u64)) } else { None };
                ck!(v == e && b.position() == if fits { p + w } else { p }, "{w} byte integer at {p} of {n}: {v:?}, position {}", b.position());
            }
        }
    }
    Ok(())
}

// ---- codes ----------------------------------------------------------------------------------
fn codes(_: &mut Rng, c: &mut Ctx) -> Res {
    use std::fmt::Debug;
    fn table16<T: TryFrom<u16> + Copy + PartialEq + Debug>(c: &mut Ctx, what: &str, t: &[(u16, T)], mask: u16) -> Res
    where u16: From<T> {
        for v in 0..=65535u16 {
            c.case(&[what.as_bytes(), &v.to_be_bytes()].concat(), true);
            let exp = t.iter().find(|x| x.0 == v & mask).map(|x| x.1);
            let real = T::try_from(v).ok();
            ck!(real == exp, "{what}: code {v} gives {real:?}, expected {exp:?}");
        }
        for (n, x) in t {
            ck!(u16::from(*x) == *n, "{what}: {x:?} has code {}, expected {n}", u16::from(*x));
        }
        Ok(())
    }
    fn table8<T: TryFrom<u8> + Copy + PartialEq + Debug>(c: &mut Ctx, what: &str, t: &[(u8, T)]) -> Res
    where u8: From<T> {
        for v in 0..=255u8 {
            c.case(&[what.as_bytes(), &[v]].concat(), true);
            let exp = t.iter().find(|x| x.0 == v).map(|x| x.1);
            let real = T::try_from(v).ok();
            ck!(real == exp, "{what}: code {v} gives {real:?}, expected {exp:?}");
        }
        for (n, x) in t {
            ck!(u8::from(*x) == *n, "{what}: {x:?} has code {}, expected {n}", u8::from(*x));
        }
        Ok(())
    }
    macro_rules! ty { ($e:ident; $($n:literal $v:ident),*) => { vec![$(($n as u16, $e::$v)),*] } }
    let mut rt = ty!(RecordType; 1 A, 2 NS, 5 CNAME, 6 SOA, 10 NULL, 11 WKS, 12 PTR, 13 HINFO, 14 MINFO, 15 MX, 16 TXT, 28 AAAA, 29 LOC, 33 SRV, 35 NAPTR, 41 OPT, 42 APL, 44 SSHFP, 45 IPSECKEY, 49 DHCID, 52 TLSA, 55 HIP, 61 OPENPGPKEY, 62 CSYNC, 64 SVCB, 108 EUI48, 109 EUI64, 249 TKEY, 250 TSIG, 256 URI, 257 CAA);
    let mut qt = ty!(QType; 1 A, 2 NS, 5 CNAME, 6 SOA, 10 NULL, 11 WKS, 12 PTR, 13 HINFO, 14 MINFO, 15 MX, 16 TXT, 28 AAAA, 29 LOC, 33 SRV, 35 NAPTR, 41 OPT, 42 APL, 44 SSHFP, 45 IPSECKEY, 49 DHCID, 52 TLSA, 55 HIP, 61 OPENPGPKEY, 62 CSYNC, 64 SVCB, 108 EUI48, 109 EUI64, 249 TKEY, 250 TSIG, 256 URI, 257 CAA, 252 AXFR, 253 MAILB, 254 MAILA, 255 ANY);
    #[cfg(feature = "dnssec")]
    {
        rt.extend(ty!(RecordType; 43 DS, 46 RRSIG, 47 NSEC, 48 DNSKEY, 59 CDS, 60 CDNSKEY));
        qt.extend(ty!(QType; 43 DS, 46 RRSIG, 47 NSEC, 48 DNSKEY, 59 CDS, 60 CDNSKEY));
    }
    rt.dedup();
    qt.dedup();
    table16(c, "RecordType", &rt, 0xffff)?;
    table16(c, "QType", &qt, 0xffff)?;
    for (n, t) in &rt {
        ck!(*t as u16 == *n && t.to_bytes() == n.to_be_bytes(), "{t:?} is written as {}", *t as u16);
    }
    for (n, t) in &qt {
        ck!(*t as u16 == *n && t.to_bytes() == n.to_be_bytes(), "{t:?} is written as {}", *t as u16);
    }
    let qc = [(1, QClass::IN), (2, QClass::CS), (3, QClass::CH), (4, QClass::HS), (254, QClass::NONE), (255, QClass::ANY)];
    table16(c, "QClass", &qc, 0x7fff)?;
    for (n, t) in &qc {
        ck!(*t as u16 == *n && t.to_bytes() == n.to_be_bytes(), "{t:?} is written as {}", *t as u16);
    }
    for v in 0..=65535u16 {
        let e = match v & 0x7fff { 1 => RecordClass::IN, 2 => RecordClass::CS, 3 => RecordClass::CH, 4 => RecordClass::HS, x => RecordClass::UdpPayloadSize(x) };
        let x = RecordClass::from(v);
        ck!(x == e && u16::from(x) == v & 0x7fff && x.to_bytes() == (v & 0x7fff).to_be_bytes(), "RecordClass: {v} gives {x:?}");
    }
    let rc = [ResponseCode::NoError, ResponseCode::FormatError, ResponseCode::ServerFailure, ResponseCode::NameError, ResponseCode::NotImplemented, ResponseCode::Refused, ResponseCode::YXDomain, ResponseCode::YXRRSet, ResponseCode::NXRRSet, ResponseCode::NotAuth, ResponseCode::NotZone];
    let oc = [OpCode::StandardQuery, OpCode::InverseQuery, OpCode::ServerStatusRequest];
    for v in 0..=255u8 {
        c.case(&[b'r', v], true);
        let x = ResponseCode::try_from(v).ok();
        ck!(x == rc.get(v as usize).copied(), "ResponseCode: {v} gives {x:?}");
        let x = OpCode::from(v);
        ck!(x == *oc.get(v as usize).unwrap_or(&OpCode::Reserved), "OpCode: {v} gives {x:?}");
    }
    for (i, x) in rc.iter().enumerate() {
        ck!(*x as usize == i, "{x:?} has code {}", *x as u8);
    }
    for (i, x) in oc.iter().enumerate() {
        ck!(*x as usize == i, "{x:?} has code {}", *x as u8);
    }
    use maybe_dns::Algorithm as Al;
    table8(c, "Algorithm", &[(0, Al::Reserved), (1, Al::RSA), (2, Al::DSA), (3, Al::ECDSA), (4, Al::Ed25519), (6, Al::Ed448)])?;
    use sshfp::FingerprintType as Fp;
    table8(c, "FingerprintType", &[(0, Fp::Reserved), (1, Fp::SHA1)])?;
    use tlsa::*;
    table8(c, "CertUsage", &[(0, CertUsage::Ca), (1, CertUsage::ServiceCertificateConstraint), (2, CertUsage::TrustAnchor), (3, CertUsage::DomainIssuedCertificate)])?;
    table8(c, "Selector", &[(0, Selector::Full), (1, Selector::SubjectPublicKeyInfo)])?;
    table8(c, "MatchingType", &[(0, MatchingType::ExactMatch), (1, MatchingType::SHA256), (2, MatchingType::SHA512)])?;
    use naptr::Flag;
    table8(c, "NAPTR flag", &[(b'S', Flag::S), (b'A', Flag::A), (b'U', Flag::U), (b'P', Flag::P)])?;
    use dhcid::IdentifierType as Id;
    table16(c, "IdentifierType", &[(0, Id::ChaddrOfDhcpRequest), (1, Id::ClientIdentifierOption), (2, Id::DUID)], 0xffff)?;
    let mut modes = vec![(1, tkey::Mode::ServerAssignment), (2, tkey::Mode::DiffieHellmanExchange), (3, tkey::Mode::GssApiNegotiation), (4, tkey::Mode::ResolverAssignment), (5, tkey::Mode::KeyDeletion)];
    for v in 6..=65534u16 {
        modes.push((v, tkey::Mode::Available(v)));
    }
    // (kept sorted by code, starting at 1)
    for v in 0..=65535u16 {
        c.case(&[b"TKEY mode".as_slice(), &v.to_be_bytes()].concat(), true);
        let exp = if v == 0 { None } else { modes.get(v as usize - 1).map(|x| x.1) };
        let real = tkey::Mode::try_from(v).ok();
        ck!(real == exp, "TKEY mode: code {v} gives {real:?}, expected {exp:?}");
    }
    for (n, m) in &modes {
        ck!(u16::from(*m) == *n, "TKEY mode {m:?} has code {}", u16::from(*m));
    }
    use tkey::Error as Te;
    let mut te = vec![(0, Te::None), (16, Te::BadSig), (17, Te::BadKey), (18, Te::BadTime), (19, Te::BadMode), (20, Te::BadName), (21, Te::BadAlg)];
    for v in 1..16 {
        te.push((v, Te::NonExtendedRcode(v)));
    }
    table16(c, "TKEY error", &te, 0xffff)?;
    use tsig::Error as Se;
    table16(c, "TSIG error", &[(0, Se::None), (16, Se::BadSig), (17, Se::BadKey), (18, Se::BadTime), (22, Se::BadTrunc)], 0xffff)?;
    // Enumerations without a public name, seen through records
    for v in 0..=65535u16 {
        let mut d = vec![0, 0, 0, 1];
        d.extend(v.to_be_bytes());
        let x = gen::parse_data(62, &d);
        ck!(x.is_some() == (v < 4), "CSYNC flags {v:#x} accepted: {}", x.is_some());
        if let Some(RecordData::CSYNC(y)) = &x {
            ck!(y.flags.immediate() == (v & 1 != 0) && y.flags.soa_minimum() == (v & 2 != 0), "CSYNC flags {v:#x}");
            for (a, b) in [(false, false), (false, true), (true, false), (true, true)] {
                let mut f = y.flags;
                f.set_immediate(a);
                ck!(f.immediate() == a && f.soa_minimum() == y.flags.soa_minimum(), "set_immediate({a}) on {v:#x}");
                f.set_soa_minimum(b);
                ck!(f.immediate() == a && f.soa_minimum() == b && u16::from(f) == a as u16 | (b as u16) << 1, "set_soa_minimum({b}) on {v:#x}");
            }
        }
        let val: Vec<u8> = match v { 3 => vec![1, 2], 4 => vec![1, 2, 3, 4], 6 => vec![0; 16], _ => vec![] };
        let mut d = vec![0, 1, 0];
        d.extend(v.to_be_bytes());
        d.extend((val.len() as u16).to_be_bytes());
        d.extend(&val);
        c.case(&d, true);
        let x = gen::parse_data(64, &d);
        ck!(x.is_some() == r::param_key(v), "parameter key {v} accepted: {}", x.is_some());
        if let Some(RecordData::SVCB(s)) = &x {
            let p = s.params.iter().next().ok_or("no parameter")?;
            let n = format!("{p:?}");
            let e = match v { 0 => "Mandatory", 1 => "Alpn", 2 => "NoDefaultAlpn", 3 => "Port", 4 => "IpV4Hint", 5 => "Ech", 6 => "IpV6Hint", 65535 => "Invalid", _ => "Private" };
            ck!(n.split(|c: char| !c.is_alphanumeric()).next() == Some(e), "parameter key {v} is {n}, expected {e}");
            ck!(s.to_bytes() == d, "parameter key {v} is written as {}", hx(&s.to_bytes()));
        }
        // ... and as a listed mandatory key
        let mut d = vec![0, 1, 0, 0, 0, 0, 2];
        d.extend(v.to_be_bytes());
        let x = gen::parse_data(64, &d);
        ck!(x.is_some() == r::param_key(v), "mandatory key {v} accepted: {}", x.is_some());
        if let Some(x) = &x {
            ck!(x.to_bytes() == d, "mandatory key {v} is written as {}", hx(&x.to_bytes()));
        }
    }
    #[cfg(feature = "dnssec")]
    for v in 0..=255u8 {
        c.case(&[b'd', v], true);
        let names = [(1, "RSA_MD5"), (3, "DSA_SHA1"), (5, "RSA_SHA1"), (8, "RSA_SHA256"), (10, "RSA_SHA512"), (13, "ECDSA_P256"), (14, "ECDSA_P384"), (15, "ED25519"), (16, "ED448"), (252, "Indirect"), (253, "PrivateDns"), (254, "PrivateOid")];
        let e = names.iter().find(|x| x.0 == v).map(|x| x.1.to_string());
        let x = gen::parse_data(43, &[0, 1, v, 2, 9]);
        let (n, k) = match &x { Some(RecordData::DS(d)) => (Some(format!("{:?}", d.algorithm)), Some(u8::from(d.algorithm))), _ => (None, None) };
        ck!(n == e && k.map_or(true, |k| k == v), "DNSSEC algorithm {v} is {n:?} (code {k:?}), expected {e:?}");
        let names = [(1, "SHA1"), (2, "SHA256"), (4, "SHA384"), (5, "SHA512")];
        let e = names.iter().find(|x| x.0 == v).map(|x| x.1.to_string());
        let x = gen::parse_data(43, &[0, 1, 8, v, 9]);
        let (n, k) = match &x { Some(RecordData::DS(d)) => (Some(format!("{:?}", d.digest_type)), Some(u8::from(d.digest_type))), _ => (None, None) };
        ck!(n == e && k.map_or(true, |k| k == v), "digest type {v} is {n:?} (code {k:?}), expected {e:?}");
    }
    // Every data type announces its own type code
    let mut g = Rng::new(9);
    for t in r::types() {
        let f = gen::fields(&mut g, t, &mut vec![]);
        let Some(d) = gen::data(t, &f) else { continue };
        ck!(gen::data_type(&d) == t, "record type {t} parses as data of type {}", gen::data_type(&d));
        let n = match &d {
            RecordData::A(x) => x.record_type(), RecordData::NS(x) => x.record_type(), RecordData::CNAME(x) => x.record_type(), RecordData::SOA(x) => x.record_type(),
            RecordData::NULL(x) => x.record_type(), RecordData::WKS(x) => x.record_type(), RecordData::PTR(x) => x.record_type(), RecordData::HINFO(x) => x.record_type(),
            RecordData::MINFO(x) => x.record_type(), RecordData::MX(x) => x.record_type(), RecordData::TXT(x) => x.record_type(), RecordData::AAAA(x) => x.record_type(),
            RecordData::LOC(x) => x.record_type(), RecordData::SRV(x) => x.record_type(), RecordData::NAPTR(x) => x.record_type(), RecordData::OPT(x) => x.record_type(),
            RecordData::APL(x) => x.record_type(), RecordData::SSHFP(x) => x.record_type(), RecordData::IPSECKEY(x) => x.record_type(), RecordData::DHCID(x) => x.record_type(),
            RecordData::TLSA(x) => x.record_type(), RecordData::HIP(x) => x.record_type(), RecordData::OPENPGPKEY(x) => x.record_type(), RecordData::CSYNC(x) => x.record_type(),
            RecordData::SVCB(x) => x.record_type(), RecordData::EUI48(x) => x.record_type(), RecordData::EUI64(x) => x.record_type(), RecordData::TKEY(x) => x.record_type(),
            RecordData::TSIG(x) => x.record_type(), RecordData::URI(x) => x.record_type(), RecordData::CAA(x) => x.record_type(),
            #[cfg(feature = "dnssec")]
            RecordData::DS(x) => x.record_type(),
            #[cfg(feature = "dnssec")]
            RecordData::RRSIG(x) => x.record_type(),
            #[cfg(feature = "dnssec")]
            RecordData::NSEC(x) => x.record_type(),
            #[cfg(feature = "dnssec")]
            RecordData::DNSKEY(x) => x.record_type(),
            // CDS and CDNSKEY share the data types of DS and DNSKEY
            #[cfg(feature = "dnssec")]
            RecordData::CDS(_) => RecordType::CDS,
            #[cfg(feature = "dnssec")]
            RecordData::CDNSKEY(_) => RecordType::CDNSKEY,
        };
        ck!(u16::from(n) == t, "data of type {t} announces {n:?}");
    }
    // Findings in the numbering that are left as they are (see KNOWN_FINDINGS)
    if u8::from(Al::RSA) == 1 && u8::from(Al::DSA) == 2 {
        c.known.insert("C09 IPSECKEY and HIP use the SSHFP algorithm numbers (RSA=1, DSA=2); their registry has DSA=1, RSA=2".into());
    }
    #[cfg(feature = "dnssec")]
    if gen::parse_data(43, &[0, 1, 8, 5, 9]).is_some() {
        c.known.insert("C09 digest type 5 is taken for SHA-512; the DS registry assigns 5 to GOST R 34.11-2012".into());
    }
    Ok(())
}

// ---- header ---------------------------------------------------------------------------------
fn header_bits(_: &mut Rng, c: &mut Ctx) -> Res {
    let rcs: Vec<ResponseCode> = (0..=10u8).filter_map(|x| ResponseCode::try_from(x).ok()).collect();
    ck!(rcs.len() == 11, "response codes");
    let ocs = [OpCode::StandardQuery, OpCode::InverseQuery, OpCode::ServerStatusRequest, OpCode::Reserved];
    for fl in 0..=65535u16 {
        let mut d = vec![0x12, 0x34];
        d.extend(fl.to_be_bytes());
        d.extend([0xa1, 0xb2, 0xc3, 0xd4, 0xe5, 0xf6, 0x07, 0x18, 0x99]);
        c.case(&d, true);
        let mut b = DnsBuffer::from(&d[..]);
        let h = Header::try_from(&mut b);
        ck!(h.is_ok() == (fl & 15 <= 10), "header with flags {fl:04x}: accepted {}", h.is_ok());
        let Ok(h) = h else { continue };
        ck!(b.position() == 12, "header of {} bytes", b.position());
        ck!(h.to_bytes() == d[..12], "header {} is written as {}", hx(&d[..12]), hx(&h.to_bytes()));
        let bit = |n: u32| fl >> n & 1 != 0;
        ck!(h.query_response() == bit(15) && h.authoritative_answer() == bit(10) && h.truncation() == bit(9) && h.recursion_desired() == bit(8) && h.recursion_available() == bit(7),
            "flag accessors of {fl:04x}");
        ck!(h.response_code() as u16 == fl & 15, "response code of {fl:04x}: {:?}", h.response_code());
        ck!(h.opcode() == ocs[((fl >> 11 & 15) as usize).min(3)], "operation code of {fl:04x}: {:?}", h.opcode());
        let after = |f: &dyn Fn(&mut Header)| -> Result<u16, String> {
            let mut x = h.clone();
            f(&mut x);
            let o = x.to_bytes();
            if o[..2] != d[..2] || o[4..] != d[4..12] {
                return Err(format!("a setter on {fl:04x} changes identifier or counts: {}", hx(&o)));
            }
            Ok(u16::from_be_bytes([o[2], o[3]]))
        };
        for v in [false, true] {
            let set = |n: u32| if v { fl | 1 << n } else { fl & !(1 << n) };
            ck!(after(&|x| x.set_recursion_desired(v))? == set(8), "set_recursion_desired({v}) on {fl:04x}");
            ck!(after(&|x| x.set_truncation(v))? == set(9), "set_truncation({v}) on {fl:04x}");
            ck!(after(&|x| x.set_authoritative_answer(v))? == set(10), "set_authoritative_answer({v}) on {fl:04x}");
            let e = if v { fl | 0x8000 } else { fl & !0x8000 & !0x80 & !15 };
            ck!(after(&|x| x.set_query_response(v))? == e, "set_query_response({v}) on {fl:04x}: {:04x}", after(&|x| x.set_query_response(v))?);
            let e = if v { fl | 0x8080 } else { fl & !0x80 };
            ck!(after(&|x| x.set_recursion_available(v))? == e, "set_recursion_available({v}) on {fl:04x}");
        }
        for (i, rc) in rcs.iter().enumerate() {
            let e = fl & !15 | i as u16 | if i > 0 { 0x8000 } else { 0 };
            ck!(after(&|x| x.set_response_code(*rc))? == e, "set_response_code({rc:?}) on {fl:04x}: {:04x}", after(&|x| x.set_response_code(*rc))?);
        }
        for (i, oc) in ocs.iter().enumerate() {
            ck!(after(&|x| x.set_opcode(*oc))? == fl & !0x7800 | (i as u16) << 11, "set_opcode({oc:?}) on {fl:04x}: {:04x}", after(&|x| x.set_opcode(*oc))?);
        }
    }
    for id in [0u16, 1, 0x1234, 0xffff] {
        for rd in [false, true] {
            let h = Header::new_query(id, rd).to_bytes();
            let mut e = id.to_be_bytes().to_vec();
            e.extend([rd as u8, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
            ck!(h == e, "new_query({id}, {rd}) is {}", hx(&h));
            ck!(Packet::new_query(id, rd).to_bytes() == e, "Packet::new_query({id}, {rd})");
            ck!(Packet::with_questions(id, rd, vec![]).to_bytes() == e, "Packet::with_questions({id}, {rd})");
        }
        for (i, oc) in ocs.iter().enumerate() {
            let h = Header::new_reply(id, *oc).to_bytes();
            let mut e = id.to_be_bytes().to_vec();
            e.extend([0x80 | (i as u8) << 3, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
            ck!(h == e, "new_reply({id}, {oc:?}) is {}", hx(&h));
        }
        let mut e = id.to_be_bytes().to_vec();
        e.extend([0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        ck!(Packet::new_reply(id).to_bytes() == e, "Packet::new_reply({id})");
    }
    for n in 0..12 {
        let d = vec![0u8; n];
        ck!(Header::try_from(&mut DnsBuffer::from(&d[..])).is_err(), "header of {n} bytes accepted");
    }
    Ok(())
}
fn header_random(g: &mut Rng, c: &mut Ctx) -> Res {
    // The same through a packet, with random identifiers and counts
    let mut d = g.bytes(12);
    d[3] = d[3] & 0xf0 | g.below(11) as u8;
    let mut b = DnsBuffer::from(&d[..]);
    let h = Header::try_from(&mut b).map_err(|_| format!("header {} rejected", hx(&d)))?;
    c.case(&d, true);
    ck!(h.to_bytes() == d, "header {} is written as {}", hx(&d), hx(&h.to_bytes()));
    let mut e = d.clone();
    e[4..12].fill(0);
    let mut p = Packet::try_from(&e[..]).map_err(|_| format!("message {} rejected", hx(&e)))?;
    let mut fl = u16::from_be_bytes([d[2], d[3]]);
    let mut id = u16::from_be_bytes([d[0], d[1]]);
    let mut log = String::new();
    for _ in 0..g.below(8) {
        let v = g.chance(1, 2);
        let set = |fl: u16, n: u32| if v { fl | 1 << n } else { fl & !(1 << n) };
        match g.below(8) {
            0 => { p.set_recursion_desired(v); fl = set(fl, 8); log += "rd;" }
            1 => { p.set_truncation(v); fl = set(fl, 9); log += "tc;" }
            2 => { p.set_authoritative_answer(v); fl = set(fl, 10); log += "aa;" }
            3 => { p.set_query_response(v); fl = if v { fl | 0x8000 } else { fl & !0x808f }; log += "qr;" }
            4 => { p.set_recursion_available(v); fl = if v { fl | 0x8080 } else { fl & !0x80 }; log += "ra;" }
            5 => {
                let k = g.below(11) as u8;
                p.set_response_code(ResponseCode::try_from(k).map_err(|_| "response code".to_string())?);
                fl = fl & !15 | k as u16 | if k > 0 { 0x8000 } else { 0 };
                log += "rcode;"
            }
            6 => {
                let k = g.below(4) as u8;
                p.set_opcode(OpCode::from(k));
                fl = fl & !0x7800 | (k as u16) << 11;
                log += "opcode;"
            }
            _ => { id = g.u16(); p.set_id(id); log += "id;" }
        }
        let bit = |n: u32| fl >> n & 1 != 0;
        ck!(p.id() == id && p.query_response() == bit(15) && p.authoritative_answer() == bit(10) && p.truncation() == bit(9) && p.recursion_desired() == bit(8) && p.recursion_available() == bit(7)
            && p.response_code() as u16 == fl & 15 && p.opcode() as u16 == (fl >> 11 & 15).min(3), "accessors after {log} on {}: expected flags {fl:04x}", hx(&d));
    }
    let o = p.to_bytes();
    ck!(o[..2] == id.to_be_bytes() && o[2..4] == fl.to_be_bytes() && o[4..] == [0; 8], "after {log} on {}: {}", hx(&d), hx(&o));
    Ok(())
}

// ---- bitmaps --------------------------------------------------------------------------------
fn bitmap_data(s: &std::collections::BTreeSet<u16>) -> Vec<(u16, Vec<V>)> {
    let mut v = vec![(62u16, vec![V::N(7), V::N(2), V::S(s.clone())])];
    if r::dnssec() {
        v.push((47, vec![V::L(vec![b"next".to_vec()]), V::S(s.clone())]));
    }
    v
}
fn bitmap_case(s: &std::collections::BTreeSet<u16>, c: &mut Ctx) -> Res {
    for (t, f) in bitmap_data(s) {
        let e = r::encode(t, &f).ok_or("harness")?;
        c.case(&e, !s.is_empty());
        let x = gen::build(t, &f).ok_or("harness")?;
        ck!(x.to_bytes() == e, "type {t}, types {s:?}: written {}, expected {}", hx(&x.to_bytes()), hx(&e));
        ck!(x.byte_size() == e.len(), "type {t}, types {s:?}: size {}, expected {}", x.byte_size(), e.len());
        let p = gen::parse_data(t, &e).ok_or_else(|| format!("type {t}: {} rejected", hx(&e)))?;
        ck!(p == x, "type {t}: {} parses to {p:?}, expected {x:?}", hx(&e));
    }
    #[cfg(feature = "dnssec")]
    {
        // The compressed form carries the same bitmap
        let x = gen::build(47, &[V::L(vec![b"next".to_vec()]), V::S(s.clone())]).ok_or("harness")?;
        let mut p = Packet::new_reply(1);
        p.add_answer(ResourceRecord::new(FQDN::new("a"), RecordType::NSEC, RecordClass::IN, 1, x.clone()));
        let d = p.to_bytes_compressed();
        let m = r::message(&d).ok_or_else(|| format!("types {s:?}: compressed NSEC {} cannot be read", hx(&d)))?;
        ck!(m.secs[0][0].fields[1].s() == *s, "types {s:?}: compressed NSEC {}", hx(&d));
        let e = r::enc_bitmap(s);
        ck!(d.ends_with(&e), "types {s:?}: compressed NSEC {} does not end with {}", hx(&d), hx(&e));
    }
    Ok(())
}
fn bitmaps(g: &mut Rng, c: &mut Ctx) -> Res {
    bitmap_case(&gen::type_set(g), c)
}
fn bitmaps_small(_: &mut Rng, c: &mut Ctx) -> Res {
    // All sets of at most two types, and all single bits in the first windows
    let ts = r::types();
    bitmap_case(&Default::default(), c)?;
    for a in &ts {
        for b in &ts {
            bitmap_case(&[*a, *b].into_iter().collect(), c)?;
        }
    }
    for w in 0..=255u8 {
        for bit in 0..256usize {
            let n = bit / 8 + 1;
            let mut bm = vec![w, n as u8];
            bm.extend(vec![0; n]);
            bm[2 + bit / 8] = 0x80 >> (bit % 8);
            let mut d = vec![0, 0, 0, 7, 0, 2];
            d.extend(&bm);
            c.case(&d, true);
            let exp = r::parse(62, &d, 0);
            let real = gen::parse_data(62, &d);
            ck!(real.is_some() == exp.is_some(), "window {w} bit {bit}: accepted {}, expected {}", real.is_some(), exp.is_some());
            if let (Some(x), Some((f, _))) = (&real, &exp) {
                cmp_data(x, 62, f)?;
            }
            if r::dnssec() {
                let mut d = vec![0];
                d.extend(&bm);
                let exp = r::parse(47, &d, 0);
                let real = gen::parse_data(47, &d);
                ck!(real.is_some() == exp.is_some(), "NSEC window {w} bit {bit}: accepted {}, expected {}", real.is_some(), exp.is_some());
                if let (Some(x), Some((f, _))) = (&real, &exp) {
                    cmp_data(x, 47, f)?;
                }
            }
        }
    }
    Ok(())
}
fn bitmaps_bad(g: &mut Rng, c: &mut Ctx) -> Res {
    let s = gen::type_set(g);
    let mut e = r::enc_bitmap(&s);
    match g.below(4) {
        0 => {
            let n = g.below(e.len() + 1);
            e.truncate(n)
        }
        1 => {
            // A window with many octets
            let n = g.range(0, 40);
            e = vec![g.below(3) as u8, n as u8];
            e.extend(vec![0; n]);
            if n > 0 && g.chance(1, 2) {
                let k = g.below(n);
                e[2 + k] = 1 << g.below(8);
            }
        }
        _ => gen::mutate(g, &mut e),
    }
    for t in [62u16, 47] {
        if !r::is_type(t) {
            continue;
        }
        let mut d = if t == 62 { vec![0, 0, 0, 1, 0, 0] } else { vec![1, b'a', 0] };
        d.extend(&e);
        let exp = r::parse(t, &d, 0);
        let real = gen::parse_data(t, &d);
        c.case(&d, true);
        ck!(real.is_some() == exp.is_some(), "type {t}: {} accepted {}, expected {}", hx(&d), real.is_some(), exp.is_some());
        if let (Some(x), Some((f, _))) = (&real, &exp) {
            cmp_data(x, t, f).map_err(|m| format!("{}: {m}", hx(&d)))?;
        }
    }
    Ok(())
}

// ---- key tags -------------------------------------------------------------------------------
#[cfg(not(feature = "dnssec"))]
fn key_tags(_: &mut Rng, _: &mut Ctx) -> Res {
    Ok(())
}
#[cfg(feature = "dnssec")]
fn key_tags(g: &mut Rng, c: &mut Ctx) -> Res {
    use ring::digest as rd;
    let f = {
        let mut f = gen::fields(g, 48, &mut vec![]);
        if g.chance(1, 3) {
            let n = g.range(0, 600);
            f[3] = V::B(vec![0xff; n]);
        }
        f
    };
    let e = r::encode(48, &f).ok_or("harness")?;
    let Some(RecordData::DNSKEY(k)) = gen::parse_data(48, &e) else { return Err(format!("key {} rejected", hx(&e))) };
    // RFC 4034 appendix B, word by word
    let mut ac = 0u64;
    for (i, b) in e.iter().enumerate() {
        ac += if i & 1 == 1 { *b as u64 } else { (*b as u64) << 8 };
    }
    ac += ac >> 16 & 0xffff;
    let tag = (ac & 0xffff) as u16;
    let owner = gen::name(g);
    for (dt, alg) in [(1u8, &rd::SHA1_FOR_LEGACY_USE_ONLY), (2, &rd::SHA256), (4, &rd::SHA384), (5, &rd::SHA512)] {
        let mut x = r::enc_name(&owner);
        x.extend(&e);
        c.case(&x, true);
        let ds = Ds::try_from_dnskey(&gen::fq(&owner), &k, dt.try_into().map_err(|_| format!("digest type {dt}"))?).map_err(|_| "try_from_dnskey fails".to_string())?;
        ck!(ds.key_tag == tag, "key {}: tag {}, expected {tag}", hx(&e), ds.key_tag);
        let (a, b): (u8, u8) = (ds.algorithm.into(), ds.digest_type.into());
        ck!(a == e[3] && b == dt, "DS of key {}: algorithm {a}, digest type {b}", hx(&e));
        let h = rd::digest(alg, &x);
        ck!(ds.digest == h.as_ref(), "DS of key {} for {owner:?}: digest {}, expected {}", hx(&e), hx(&ds.digest), hx(h.as_ref()));
    }
    Ok(())
}

// ---- record sets ----------------------------------------------------------------------------
fn record_sets(g: &mut Rng, c: &mut Ctx) -> Res {
    let t = *g.pick(&[1u16, 2, 15, 16, 28, 33, 10, 6, 44, 257, 13]);
    let mut pool = vec![];
    let name = gen::name(g);
    let mut data: Vec<(RecordData, Vec<u8>)> = vec![];
    for _ in 0..g.below(7) {
        if !data.is_empty() && g.chance(1, 4) {
            let x = g.pick(&data).clone();
            data.push(x);
            continue;
        }
        let mut f = gen::fields(g, t, &mut pool);
        if t == 10 {
            let n = g.below(4);
            f = vec![V::B((0..n).map(|_| g.below(3) as u8 * 127).collect())];
        }
        let Some(e) = r::encode(t, &f) else { continue };
        if let Some(x) = gen::data(t, &f) {
            if e.len() <= 65535 {
                data.push((x, e));
            }
        }
    }
    let class = g.range(1, 4) as u16;
    let ttl = g.u32();
    let fq = gen::fq(&name);
    let mut sorted: Vec<Vec<u8>> = data.iter().map(|x| x.1.clone()).collect();
    sorted.sort();
    let mut exp = vec![];
    for d in &sorted {
        exp.extend(r::enc_name(&name));
        exp.extend(t.to_be_bytes());
        exp.extend(class.to_be_bytes());
        exp.extend(ttl.to_be_bytes());
        exp.extend((d.len() as u16).to_be_bytes());
        exp.extend(d);
    }
    c.case(&exp, data.len() > 1);
    for _ in 0..3 {
        for i in (1..data.len()).rev() {
            let j = g.below(i + 1);
            data.swap(i, j);
        }
        let mut s = ResourceRecordSet::new(&fq, gen::rtype(t), gen::rclass(class), ttl, data.iter().map(|x| &x.0).collect());
        ck!(*s.name() == fq && s.set_type() == gen::rtype(t) && s.set_class() == gen::rclass(class) && s.ttl() == ttl, "accessors of a set");
        ck!(s.records().len() == data.len() && s.records().iter().zip(&data).all(|(a, b)| **a == b.0), "records of a set");
        ck!(s.to_bytes() == exp, "set {s:?} is written as {}, expected {}", hx(&s.to_bytes()), hx(&exp));
        ck!(s.byte_size() == exp.len(), "set {s:?} has size {}, expected {}", s.byte_size(), exp.len());
        s.canonical_reorder();
        let got: Vec<Vec<u8>> = s.records().iter().map(|x| x.to_bytes()).collect();
        ck!(got == sorted, "canonical_reorder gives {got:?}, expected {sorted:?}");
        ck!(s.to_bytes() == exp, "set after canonical_reorder is written as {}, expected {}", hx(&s.to_bytes()), hx(&exp));
    }
    Ok(())
}

// ---- service parameters ---------------------------------------------------------------------
fn params(g: &mut Rng, c: &mut Ctx) -> Res {
    let f = gen::fields(g, 64, &mut vec![]);
    let Some(e) = r::encode(64, &f) else { return Ok(()) };
    c.case(&e, !f[2].p().is_empty());
    layout_case(64, &f, &e, c)?;
    // Parameters in another order on the wire give the same value
    let mut ps: Vec<(u16, Vec<u8>)> = f[2].p().into_iter().collect();
    for i in (1..ps.len()).rev() {
        let j = g.below(i + 1);
        ps.swap(i, j);
    }
    let mut d = (f[0].n() as u16).to_be_bytes().to_vec();
    d.extend(r::enc_name(&f[1].l()));
    for (k, v) in ps {
        d.extend(k.to_be_bytes());
        d.extend((v.len() as u16).to_be_bytes());
        d.extend(v);
    }
    let Some(RecordData::SVCB(x)) = gen::parse_data(64, &d) else { return Err(format!("SVCB {} rejected", hx(&d))) };
    svcb_params(&x, &f[2].p(), &d)?;
    ck!(x.to_bytes() == e, "SVCB {} is written as {}, expected {}", hx(&d), hx(&x.to_bytes()), hx(&e));
    Ok(())
}
fn params_bad(g: &mut Rng, c: &mut Ctx) -> Res {
    let f = gen::fields(g, 64, &mut vec![]);
    let mut d = (f[0].n() as u16).to_be_bytes().to_vec();
    d.extend(r::enc_name(&f[1].l()));
    for _ in 0..g.range(1, 4) {
        let (mut k, mut v) = gen::param(g);
        match g.below(6) {
            0 => { v.pop(); }
            1 => v.push(g.u8()),
            2 => k = g.u16(),
            _ => (),
        }
        let mut l = v.len();
        match g.below(6) {
            0 => l += g.range(1, 3),
            1 => l = l.saturating_sub(g.range(1, 3)),
            _ => (),
        }
        d.extend(k.to_be_bytes());
        d.extend((l as u16).to_be_bytes());
        d.extend(v);
    }
    if g.chance(1, 4) {
        gen::mutate(g, &mut d);
    }
    let exp = r::parse(64, &d, 0);
    let real = gen::parse_data(64, &d);
    c.case(&d, true);
    ck!(real.is_some() == exp.is_some(), "SVCB {} accepted {}, expected {}", hx(&d), real.is_some(), exp.is_some());
    if let (Some(RecordData::SVCB(x)), Some((f, _))) = (&real, &exp) {
        svcb_params(x, &f[2].p(), &d)?;
        ck!(Some(x.to_bytes()) == r::encode(64, f), "SVCB {} is written as {}", hx(&d), hx(&x.to_bytes()));
    }
    Ok(())
}

// ---- whole messages -------------------------------------------------------------------------
fn round_trip(g: &mut Rng, c: &mut Ctx) -> Res {
    let m = gen::msg(g, g.clone().chance(1, 20));
    let Some(p) = gen::mk_packet(&m) else { return Ok(()) };
    cmp_msg(&p, &m)?;
    let d = p.to_bytes();
    c.case(&d, true);
    let e = gen::enc_msg(&m).ok_or("harness")?;
    let back = r::message(&d).ok_or_else(|| format!("message {} cannot be read, expected {}", hx(&d), hx(&e)))?;
    ck!(back.end == d.len() && d.len() == e.len(), "message {}: {} bytes, sections end at {}", hx(&d), d.len(), back.end);
    ck!(strip(&back) == strip(&m), "message {} reads as {back:?}, expected {m:?}", hx(&d));
    let q = Packet::try_from(&d[..]).map_err(|_| format!("own serialization {} rejected", hx(&d)))?;
    ck!(q == p, "message {} parses to {q:?}, expected {p:?}", hx(&d));
    cmp_msg(&q, &m)?;
    let mut b = DnsBuffer::from(&d[..]);
    let q = Packet::try_from(&mut b).map_err(|_| format!("own serialization {} rejected", hx(&d)))?;
    ck!(q == p && b.position() == d.len(), "message {} through a buffer, stopped at {}", hx(&d), b.position());
    Ok(())
}

/// A name from a text, its labels, its text and back
fn text_case(s: &str, c: &mut Ctx) -> Res {
    let exp: Vec<Vec<u8>> = s.split('.').filter(|x| !x.is_empty()).map(|x| x.as_bytes().to_vec()).collect();
    c.case(s.as_bytes(), exp.len() > 1);
    for (how, f) in [("new", FQDN::new(s)), ("from", FQDN::from(s))] {
        ck!(gen::labels(&f) == exp, "FQDN::{how}({s:?}) has labels {:?}", gen::labels(&f));
        let shown = f.to_string();
        let want = exp.iter().map(|l| String::from_utf8(l.clone()).unwrap()).collect::<Vec<_>>().join(".");
        ck!(shown == want, "FQDN::{how}({s:?}) prints as {shown:?}, not {want:?}");
        ck!(gen::labels(&FQDN::new(&shown)) == exp, "{shown:?} does not read back as the same name");
        ck!(FQDN::new(&shown) == f, "{shown:?} reads back as another name");
    }
    let parts: Vec<&str> = s.split('.').filter(|x| !x.is_empty()).collect();
    ck!(gen::labels(&FQDN::from(parts.as_slice())) == exp, "a name from {parts:?}");
    let mut f = FQDN::new("");
    for p in &parts {
        f.append_label(p);
    }
    ck!(gen::labels(&f) == exp, "labels {parts:?} appended one by one");
    Ok(())
}
fn names_text(g: &mut Rng, c: &mut Ctx) -> Res {
    let n = g.below(7);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 || g.chance(1, 8) {
            s.push('.');
        }
        if g.chance(1, 6) {
            continue;
        }
        let k = if g.chance(1, 10) { g.range(60, 70) } else { g.range(1, 8) };
        for _ in 0..k {
            s.push(*g.pick(&['a', 'Z', '0', '-', '_', ' ', '\\', '\0', '\u{7f}', 'é', '‧', '。', '𝒹', '\u{fffd}', '*', '@', '\n']));
        }
    }
    if g.chance(1, 4) {
        s.push('.');
    }
    text_case(&s, c)
}
fn names_text_small(_: &mut Rng, c: &mut Ctx) -> Res {
    let al = ['.', 'a', 'B', 'é'];
    for n in 0..8u32 {
        for mut k in 0..4usize.pow(n) {
            let mut s = String::new();
            for _ in 0..n {
                s.push(al[k % 4]);
                k /= 4;
            }
            text_case(&s, c)?;
        }
    }
    Ok(())
}
