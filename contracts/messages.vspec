@mod resource
@spec
use crate::rdata::{rd_val, lemma_rbs};
/// The record type with a given code
pub open spec fn rt_of(c: u16) -> RecordType { choose|t: RecordType| t.code() == c }
pub broadcast proof fn lemma_rt_of(t: RecordType) ensures rt_of(#[trigger] t.code()) == t
{ let u = rt_of(t.code()); assert(u.code() == t.code()); codes_resource_recordtype(t, u); }
/// A resource record as a value
pub ghost struct RV { pub name: Seq<Seq<u8>>, pub t: RecordType, pub class: u16, pub flush: bool, pub ttl: u32, pub w: Ws }
/// The class field: bit 15 is the cache-flush bit of RFC 6762 where that is supported
pub open spec fn flush_of(x: u16) -> bool {
@if mdns
    x >= 0x8000
@endif
@ifnot mdns
    false
@endif
}
pub open spec fn set_flush(c: u16, f: bool) -> u16 { if f { c | 0x8000 } else { c } }
/// The resource record at `p` in `d` and where it ends (RFC 1035 section 4.1.3)
pub open spec fn rr_dec(d: Seq<u8>, p: int) -> Option<(RV, int)> {
    match name_at(d, p, p) {
        None => None,
        Some(n) => {
            let e = name_end(d, p);
            let len = be16(d, e + 8) as int;
            if e + 10 > d.len() || !RecordType::valid(be16(d, e)) || e + 10 + len > d.len() { None }
            else {
                let t = rt_of(be16(d, e));
                match rd_val(t, d.subrange(0, e + 10 + len), e + 10) {
                    None => None,
                    Some(w) => Some((RV { name: n, t, class: be16(d, e + 2) & 0x7FFF, flush: flush_of(be16(d, e + 2)), ttl: be32(d, e + 4), w }, e + 10 + len)),
                }
            }
        }
    }
}
impl ResourceRecord {
    pub open spec fn flushv(&self) -> bool {
@if mdns
        self.cache_flush
@endif
@ifnot mdns
        false
@endif
    }
    pub open spec fn rv(&self) -> RV { RV { name: self.a_name.ls(), t: self.a_type, class: self.a_class.code(), flush: self.flushv(), ttl: self.time_to_live, w: self.rdata.rfields() } }
    pub open spec fn enc(&self) -> Seq<u8> {
        enc_name(self.a_name.ls()) + enc16(self.a_type.code()) + enc16(set_flush(self.a_class.code(), self.flushv())) + enc32(self.time_to_live)
            + enc16(self.rdata.rbytes().len() as u16) + self.rdata.rbytes()
    }
}
/// The records the wire form can carry
impl ResourceRecord {
    pub open spec fn rep(&self) -> bool {
        name_ok(self.a_name.ls()) && self.rdata.rtype() == self.a_type && self.rdata.rrep() && self.rdata.rbytes().len() <= 65535 && self.a_class.code() < 0x8000
    }
}
/// A record as written is read back, and reading stops behind it
pub proof fn rt_record(x: ResourceRecord, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, x.enc()),
    ensures rr_dec(d, p) == Some((x.rv(), p + x.enc().len())),
{
    hide(crate::rdata::rd_val); hide(name_at); hide(name_end); hide(crate::rdata::RecordData::rbytes); hide(crate::rdata::RecordData::rrep);
    broadcast use lemma_rt_of;
    let (n, b) = (enc_name(x.a_name.ls()), x.rdata.rbytes());
    let c = set_flush(x.a_class.code(), x.flushv());
    let (t2, c2, l4, b2) = (enc16(x.a_type.code()), enc16(c), enc32(x.time_to_live), enc16(b.len() as u16));
    lemma_at_split(d, p, n + t2 + c2 + l4 + b2, b);
    lemma_at_split(d, p, n + t2 + c2 + l4, b2);
    lemma_at_split(d, p, n + t2 + c2, l4);
    lemma_at_split(d, p, n + t2, c2);
    lemma_at_split(d, p, n, t2);
    let e = p + n.len();
    rt_name1(d, p, x.a_name.ls());
    lemma_at_16(d, e, x.a_type.code()); lemma_at_16(d, e + 2, c); lemma_at_32(d, e + 4, x.time_to_live); lemma_at_16(d, e + 8, b.len() as u16);
    lemma_code_valid(x.a_type);
    let k = x.a_class.code();
    assert(k < 0x8000 ==> (k | 0x8000) & 0x7FFF == k && k & 0x7FFF == k && (k | 0x8000) >= 0x8000) by(bit_vector);
    let s = d.subrange(0, e + 10 + b.len());
    assert(s.subrange(e + 10, e + 10 + b.len()) =~= d.subrange(e + 10, e + 10 + b.len()));
    crate::rdata::rt_rdata(x.rdata, s, e + 10);
}
@fn ResourceRecord::new [params=a_name,a_type,a_class,ttl,rdata]
    ensures r.a_name == a_name, r.a_type == a_type, r.a_class == a_class, r.time_to_live == ttl, r.rdata == rdata, !r.flushv(),
@fn ResourceRecord::name
    ensures r == &self.a_name,
@fn ResourceRecord::set_name [params=self,name]
    ensures *final(self) == (ResourceRecord { a_name: name, ..*old(self) }),
@fn ResourceRecord::record_type
    ensures r == &self.a_type,
@fn ResourceRecord::set_record_type [params=self,record_type]
    ensures *final(self) == (ResourceRecord { a_type: record_type, ..*old(self) }),
@if mdns
@fn ResourceRecord::cache_flush
    ensures r == self.cache_flush,
@fn ResourceRecord::set_cache_flush [params=self,flush]
    ensures *final(self) == (ResourceRecord { cache_flush: flush, ..*old(self) }),
@endif
@fn ResourceRecord::class
    ensures r == &self.a_class,
@fn ResourceRecord::set_class [params=self,class]
    ensures *final(self) == (ResourceRecord { a_class: class, ..*old(self) }),
@fn ResourceRecord::time_to_live
    ensures r == self.time_to_live,
@fn ResourceRecord::set_time_to_live [params=self,ttl]
    ensures *final(self) == (ResourceRecord { time_to_live: ttl, ..*old(self) }),
@fn ResourceRecord::data
    ensures r == &self.rdata,
@fn ResourceRecord::take_data
    ensures r == self.rdata,
@fn ResourceRecord::set_data [params=self,data]
    ensures *final(self) == (ResourceRecord { rdata: data, ..*old(self) }),
@fn ResourceRecord::data_raw
    requires self.rdata.rbytes().len() <= 0x7FFF_FFFF,
    ensures r@ == self.rdata.rbytes(),
@impl ResourceRecord::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool {
        final(v).same(v) && match r {
            Ok(x) => rr_dec(v.data@, v.pos as int) == Some((x.rv(), final(v).pos as int)) && x.rdata.rtype() == x.a_type,
            Err(_) => rr_dec(v.data@, v.pos as int) is None,
        }
    }
@fn ResourceRecord::TryFrom<&mut DnsBuffer>::try_from [params=buffer; muts=rdata_buffer]
@head
    hide(rd_val); hide(name_at); hide(name_end);
    broadcast use lemma_rt_of;
    proof {
        assert(forall|x: u16| #![trigger x & 0x8000u16] (x & 0x8000u16 > 0) == (x >= 0x8000)) by(bit_vector);
        assert(forall|x: u16| #![trigger x & !0x8000u16] (x & !0x8000u16) & 0x7FFF == x & 0x7FFF) by(bit_vector);
        assert(1u16 << 15u16 == 0x8000u16) by(bit_vector);
        assert(forall|d: Seq<u8>, p: int, q: int| #![trigger d.subrange(p, q)] 0 <= p && q == p + 4 && q <= d.len() ==> be32(d.subrange(p, q), 0) == be32(d, p));
    }
@impl ResourceRecord::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { self.enc() }
    open spec fn bs_extra(&self) -> nat { self.rdata.rbs() }
@fn ResourceRecord::ByteConvertible::byte_size
@head
    proof { lemma_rbs(self.rdata); }
@fn ResourceRecord::ByteConvertible::to_bytes [muts=buffer]
@head
    proof { assert(1u16 << 15u16 == 0x8000u16) by(bit_vector); assert(self.a_type as u16 == self.a_type.code()); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod question
@spec
pub open spec fn qt_of(c: u16) -> QType { choose|t: QType| t.code() == c }
pub broadcast proof fn lemma_qt_of(t: QType) ensures qt_of(#[trigger] t.code()) == t
{ let u = qt_of(t.code()); assert(u.code() == t.code()); codes_question_qtype(t, u); }
pub open spec fn qc_of(c: u16) -> QClass { choose|t: QClass| t.code() == c }
pub broadcast proof fn lemma_qc_of(t: QClass) ensures qc_of(#[trigger] t.code()) == t
{ let u = qc_of(t.code()); assert(u.code() == t.code()); codes_question_qclass(t, u); }
/// A question as a value
pub ghost struct QV { pub name: Seq<Seq<u8>>, pub t: QType, pub class: QClass, pub unicast: bool }
/// The question at `p` in `d` and where it ends (RFC 1035 section 4.1.2)
pub open spec fn q_dec(d: Seq<u8>, p: int) -> Option<(QV, int)> {
    match name_at(d, p, p) {
        None => None,
        Some(n) => {
            let e = name_end(d, p);
            if e + 4 > d.len() || !QType::valid(be16(d, e)) || !QClass::valid(be16(d, e + 2) & 0x7FFF) { None }
            else { Some((QV { name: n, t: qt_of(be16(d, e)), class: qc_of(be16(d, e + 2) & 0x7FFF), unicast: crate::resource::flush_of(be16(d, e + 2)) }, e + 4)) }
        }
    }
}
impl Question {
    pub open spec fn uni(&self) -> bool {
@if mdns
        self.unicast_response
@endif
@ifnot mdns
        false
@endif
    }
    pub open spec fn qv(&self) -> QV { QV { name: self.q_name.ls(), t: self.q_type, class: self.q_class, unicast: self.uni() } }
    pub open spec fn enc(&self) -> Seq<u8> { enc_name(self.q_name.ls()) + enc16(self.q_type.code()) + enc16(crate::resource::set_flush(self.q_class.code(), self.uni())) }
}
/// A question as written is read back, and reading stops behind it
pub proof fn rt_question(x: Question, d: Seq<u8>, p: int)
    requires name_ok(x.q_name.ls()), at(d, p, x.enc()),
    ensures q_dec(d, p) == Some((x.qv(), p + x.enc().len())),
{
    hide(name_at); hide(name_end);
    broadcast use {lemma_qt_of, lemma_qc_of};
    let n = enc_name(x.q_name.ls());
    let c = crate::resource::set_flush(x.q_class.code(), x.uni());
    lemma_at_split(d, p, n + enc16(x.q_type.code()), enc16(c));
    lemma_at_split(d, p, n, enc16(x.q_type.code()));
    let e = p + n.len();
    rt_name1(d, p, x.q_name.ls());
    lemma_at_16(d, e, x.q_type.code()); lemma_at_16(d, e + 2, c);
    let k = x.q_class.code();
    assert(k < 0x8000 ==> (k | 0x8000) & 0x7FFF == k && k & 0x7FFF == k && (k | 0x8000) >= 0x8000) by(bit_vector);
}
@fn Question::new [params=q_name,q_type,q_class]
    ensures r.q_name == q_name, r.q_type == q_type, r.q_class == q_class, !r.uni(),
@fn Question::name
    ensures r == &self.q_name,
@fn Question::set_name [params=self,name]
    ensures *final(self) == (Question { q_name: name, ..*old(self) }),
@fn Question::query_type
    ensures r == &self.q_type,
@fn Question::set_query_type [params=self,query_type]
    ensures *final(self) == (Question { q_type: query_type, ..*old(self) }),
@fn Question::class
    ensures r == &self.q_class,
@fn Question::set_class [params=self,class]
    ensures *final(self) == (Question { q_class: class, ..*old(self) }),
@if mdns
@fn Question::unicast_response
    ensures r == self.unicast_response,
@fn Question::set_unicast_response [params=self,unicast]
    ensures *final(self) == (Question { unicast_response: unicast, ..*old(self) }),
@endif
@impl Question::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool {
        final(v).same(v) && match r {
            Ok(x) => q_dec(v.data@, v.pos as int) == Some((x.qv(), final(v).pos as int)),
            Err(_) => q_dec(v.data@, v.pos as int) is None,
        }
    }
@fn Question::TryFrom<&mut DnsBuffer>::try_from [params=buffer]
@head
    hide(name_at); hide(name_end);
    broadcast use {lemma_qt_of, lemma_qc_of};
    proof {
        assert(forall|x: u16| #![trigger x & 0x8000u16] (x & 0x8000u16 > 0) == (x >= 0x8000)) by(bit_vector);
        assert(forall|x: u16| #![trigger x & !0x8000u16] (x & !0x8000u16) & 0x7FFF == x & 0x7FFF) by(bit_vector);
        assert(1u16 << 15u16 == 0x8000u16) by(bit_vector);
    }
@impl Question::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { self.enc() }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Question::ByteConvertible::byte_size
@fn Question::ByteConvertible::to_bytes [muts=buffer]
@head
    proof { assert(1u16 << 15u16 == 0x8000u16) by(bit_vector); assert(self.q_type as u16 == self.q_type.code()); assert(self.q_class as u16 == self.q_class.code()); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
