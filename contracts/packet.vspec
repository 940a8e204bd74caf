@mod packet
@spec
use crate::question::{QV, q_dec};
use crate::resource::{RV, rr_dec};
use crate::rdata::{RecordData, lemma_rbs};
use crate::header::setw;
pub open spec fn qvs(s: Seq<Question>) -> Seq<QV> { s.map_values(|x: Question| x.qv()) }
pub open spec fn rvs(s: Seq<ResourceRecord>) -> Seq<RV> { s.map_values(|x: ResourceRecord| x.rv()) }
pub broadcast proof fn lemma_qvs_push(s: Seq<Question>, x: Question) ensures #[trigger] qvs(s.push(x)) == qvs(s).push(x.qv()) { assert(qvs(s.push(x)) =~= qvs(s).push(x.qv())); }
pub broadcast proof fn lemma_rvs_push(s: Seq<ResourceRecord>, x: ResourceRecord) ensures #[trigger] rvs(s.push(x)) == rvs(s).push(x.rv()) { assert(rvs(s.push(x)) =~= rvs(s).push(x.rv())); }
/// `n` questions from `p` on, and where they end
pub open spec fn dec_qs(d: Seq<u8>, p: int, n: int) -> Option<(Seq<QV>, int)> decreases n {
    if n <= 0 { Some((Seq::empty(), p)) }
    else { match dec_qs(d, p, n - 1) { None => None, Some((s, e)) => match q_dec(d, e) { None => None, Some((x, f)) => Some((s.push(x), f)) } } }
}
/// `n` resource records from `p` on, and where they end
pub open spec fn dec_rs(d: Seq<u8>, p: int, n: int) -> Option<(Seq<RV>, int)> decreases n {
    if n <= 0 { Some((Seq::empty(), p)) }
    else { match dec_rs(d, p, n - 1) { None => None, Some((s, e)) => match rr_dec(d, e) { None => None, Some((x, f)) => Some((s.push(x), f)) } } }
}
pub proof fn lemma_dec_qs_none(d: Seq<u8>, p: int, i: int, n: int)
    ensures i <= n && dec_qs(d, p, i) is None ==> dec_qs(d, p, n) is None
    decreases n - i
{ if i < n { lemma_dec_qs_none(d, p, i, n - 1); } }
pub proof fn lemma_dec_rs_none(d: Seq<u8>, p: int, i: int, n: int)
    ensures i <= n && dec_rs(d, p, i) is None ==> dec_rs(d, p, n) is None
    decreases n - i
{ if i < n { lemma_dec_rs_none(d, p, i, n - 1); } }
pub open spec fn enc_qs(s: Seq<Question>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { enc_qs(s.drop_last()) + s.last().enc() } }
pub open spec fn enc_rs(s: Seq<ResourceRecord>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { enc_rs(s.drop_last()) + s.last().enc() } }
/// What byte_size may count too much over a section (0 but for the known finding in SVCB)
pub open spec fn ext_rs(s: Seq<ResourceRecord>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { ext_rs(s.drop_last()) + s.last().rdata.rbs() } }
pub proof fn lemma_enc_qs_step(s: Seq<Question>, i: int)
    requires 0 <= i < s.len(),
    ensures enc_qs(s.take(i + 1)) == enc_qs(s.take(i)) + s[i].enc(), enc_qs(s.take(i + 1)).len() <= enc_qs(s).len(), s[i].enc().len() <= enc_qs(s).len(), s.take(0).len() == 0,
    decreases s.len()
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i + 1 < s.len() { lemma_enc_qs_step(s.drop_last(), i); assert(s.drop_last().take(i + 1) =~= s.take(i + 1)); assert(s.drop_last()[i] == s[i]); }
    else { assert(s.take(i + 1) =~= s); }
}
pub proof fn lemma_enc_rs_step(s: Seq<ResourceRecord>, i: int)
    requires 0 <= i < s.len(),
    ensures enc_rs(s.take(i + 1)) == enc_rs(s.take(i)) + s[i].enc(), enc_rs(s.take(i + 1)).len() <= enc_rs(s).len(), s[i].enc().len() <= enc_rs(s).len(),
        ext_rs(s.take(i + 1)) == ext_rs(s.take(i)) + s[i].rdata.rbs(), ext_rs(s.take(i + 1)) <= enc_rs(s.take(i + 1)).len(), s.take(0).len() == 0,
        s[i].rdata.rbs() <= s[i].enc().len(),
    decreases s.len()
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    lemma_rbs(s[i].rdata);
    lemma_ext(s.take(i + 1));
    if i + 1 < s.len() { lemma_enc_rs_step(s.drop_last(), i); assert(s.drop_last().take(i + 1) =~= s.take(i + 1)); assert(s.drop_last()[i] == s[i]); }
    else { assert(s.take(i + 1) =~= s); }
}
pub proof fn lemma_ext(s: Seq<ResourceRecord>) ensures ext_rs(s) <= enc_rs(s).len() decreases s.len()
{ if s.len() > 0 { lemma_ext(s.drop_last()); lemma_rbs(s.last().rdata); } }
pub proof fn lemma_dec_qs_zero(d: Seq<u8>, p: int) ensures dec_qs(d, p, 0) == Some((Seq::<QV>::empty(), p)) { }
pub proof fn lemma_dec_qs_step(d: Seq<u8>, p: int, i: int) requires 0 <= i
    ensures dec_qs(d, p, i + 1) == (match dec_qs(d, p, i) { None => None, Some((s, e)) => match q_dec(d, e) { None => None, Some((x, f)) => Some((s.push(x), f)) } }) { }
pub proof fn lemma_dec_rs_zero(d: Seq<u8>, p: int) ensures dec_rs(d, p, 0) == Some((Seq::<RV>::empty(), p)) { }
pub proof fn lemma_dec_rs_step(d: Seq<u8>, p: int, i: int) requires 0 <= i
    ensures dec_rs(d, p, i + 1) == (match dec_rs(d, p, i) { None => None, Some((s, e)) => match rr_dec(d, e) { None => None, Some((x, f)) => Some((s.push(x), f)) } }) { }
/// A whole message as a value: header fields and the four sections
pub ghost struct PK { pub h: Ws, pub q: Seq<QV>, pub an: Seq<RV>, pub au: Seq<RV>, pub ad: Seq<RV> }
/// The message at `p` in `d` and where it ends (RFC 1035 section 4.1)
pub open spec fn pk_dec(d: Seq<u8>, p: int) -> Option<(PK, int)> {
    match val_of::<Header>(d, p) {
        None => None,
        Some(h) => match dec_qs(d, end_of::<Header>(d, p), wnth(h, 2)->N16_0 as int) {
            None => None,
            Some((q, e1)) => match dec_rs(d, e1, wnth(h, 3)->N16_0 as int) {
                None => None,
                Some((an, e2)) => match dec_rs(d, e2, wnth(h, 4)->N16_0 as int) {
                    None => None,
                    Some((au, e3)) => match dec_rs(d, e3, wnth(h, 5)->N16_0 as int) {
                        None => None,
                        Some((ad, e4)) => Some((PK { h, q, an, au, ad }, e4)),
                    },
                },
            },
        },
    }
}
impl Packet {
    pub open spec fn pv(&self) -> PK { PK { h: self.header.fields(), q: qvs(self.questions@), an: rvs(self.answers@), au: rvs(self.authorities@), ad: rvs(self.additional@) } }
    /// The header counts tell the section sizes
    pub open spec fn counts(&self) -> bool {
        self.header.ques_count == self.questions@.len() as u16 && self.header.ans_count == self.answers@.len() as u16
            && self.header.auth_count == self.authorities@.len() as u16 && self.header.add_count == self.additional@.len() as u16
    }
    pub open spec fn hdr_bytes(&self) -> Seq<u8> {
        enc16(self.header.id) + enc16(self.header.w()) + enc16(self.questions@.len() as u16) + enc16(self.answers@.len() as u16)
            + enc16(self.authorities@.len() as u16) + enc16(self.additional@.len() as u16)
    }
    pub open spec fn sections_same(&self, o: &Packet) -> bool { self.questions@ == o.questions@ && self.answers@ == o.answers@ && self.authorities@ == o.authorities@ && self.additional@ == o.additional@ }
    pub open spec fn no_sections(&self) -> bool { self.questions@.len() == 0 && self.answers@.len() == 0 && self.authorities@.len() == 0 && self.additional@.len() == 0 }
    /// Only the flag word of the header changed, to `w`
    pub open spec fn flags_set(&self, o: &Packet, w: u16) -> bool { self.header.w() == w && self.header.rest_same(&o.header) && self.sections_same(o) && (o.header.wf() ==> self.header.wf()) }
}
pub open spec fn qs_rep(s: Seq<Question>) -> bool { forall|i: int| 0 <= i < s.len() ==> name_ok((#[trigger] s[i]).q_name.ls()) }
pub open spec fn rs_rep(s: Seq<ResourceRecord>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).rep() }
pub proof fn rt_questions(s: Seq<Question>, d: Seq<u8>, p: int)
    requires qs_rep(s), at(d, p, enc_qs(s)),
    ensures dec_qs(d, p, s.len() as int) == Some((qvs(s), p + enc_qs(s).len())),
    decreases s.len()
{
    hide(q_dec);
    if s.len() == 0 { assert(qvs(s) =~= Seq::empty()); }
    else {
        let r = s.drop_last();
        lemma_at_split(d, p, enc_qs(r), s.last().enc());
        assert forall|i: int| 0 <= i < r.len() implies name_ok((#[trigger] r[i]).q_name.ls()) by { assert(r[i] == s[i]); }
        rt_questions(r, d, p);
        assert(name_ok(s[s.len() - 1].q_name.ls()));
        crate::question::rt_question(s.last(), d, p + enc_qs(r).len());
        assert(qvs(r).push(s.last().qv()) =~= qvs(s));
    }
}
pub proof fn rt_records(s: Seq<ResourceRecord>, d: Seq<u8>, p: int)
    requires rs_rep(s), at(d, p, enc_rs(s)),
    ensures dec_rs(d, p, s.len() as int) == Some((rvs(s), p + enc_rs(s).len())),
    decreases s.len()
{
    hide(rr_dec); hide(ResourceRecord::rep); hide(ResourceRecord::enc);
    if s.len() == 0 { assert(rvs(s) =~= Seq::empty()); }
    else {
        let r = s.drop_last();
        lemma_at_split(d, p, enc_rs(r), s.last().enc());
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).rep() by { assert(r[i] == s[i]); }
        rt_records(r, d, p);
        assert(s[s.len() - 1].rep());
        crate::resource::rt_record(s.last(), d, p + enc_rs(r).len());
        assert(rvs(r).push(s.last().rv()) =~= rvs(s));
    }
}
/// The messages the wire form can carry
impl Packet {
    pub open spec fn rep(&self) -> bool {
        self.header.wf() && self.counts() && qs_rep(self.questions@) && rs_rep(self.answers@) && rs_rep(self.authorities@) && rs_rep(self.additional@)
            && self.questions@.len() <= 65535 && self.answers@.len() <= 65535 && self.authorities@.len() <= 65535 && self.additional@.len() <= 65535
    }
}
/// A message as written is read back
pub proof fn rt_packet(x: Packet, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, x.enc()),
    ensures pk_dec(d, p) == Some((x.pv(), p + x.enc().len())),
{
    hide(dec_qs); hide(dec_rs); hide(enc_qs); hide(enc_rs); hide(rs_rep); hide(qs_rep);
    let h = x.hdr_bytes();
    let (q, an, au, ad) = (x.questions@, x.answers@, x.authorities@, x.additional@);
    lemma_at_split(d, p, h + enc_qs(q) + enc_rs(an) + enc_rs(au), enc_rs(ad));
    lemma_at_split(d, p, h + enc_qs(q) + enc_rs(an), enc_rs(au));
    lemma_at_split(d, p, h + enc_qs(q), enc_rs(an));
    lemma_at_split(d, p, h, enc_qs(q));
    reveal_with_fuel(encs, 7); reveal_with_fuel(oks, 7); reveal_with_fuel(has_tail, 7); reveal_with_fuel(wnth, 7);
    assert(encs(Header::layout(), x.header.fields()) =~= h);
    rt_layout(Header::layout(), x.header.fields(), d, p);
    rt_questions(q, d, p + 12);
    let e1 = p + 12 + enc_qs(q).len();
    rt_records(an, d, e1);
    rt_records(au, d, e1 + enc_rs(an).len());
    rt_records(ad, d, e1 + enc_rs(an).len() + enc_rs(au).len());
}
@fn Packet::new_query [params=id,recursion_desired]
    ensures r.header.fresh(id, if recursion_desired { 0x0100 } else { 0 }), r.header.wf(), r.no_sections(),
@fn Packet::new_reply [params=id]
    ensures r.header.fresh(id, 0x8000), r.header.wf(), r.no_sections(),
@head
    proof { assert(0x8000u16 | (0u16 << 11u16) == 0x8000) by(bit_vector); }
@fn Packet::with_questions [params=id,rc,questions; muts=header]
    ensures r.header.id == id, r.header.w() == (if rc { 0x0100u16 } else { 0 }), r.header.wf(), r.questions == questions,
        r.answers@.len() == 0, r.authorities@.len() == 0, r.additional@.len() == 0, r.counts(),
@fn Packet::id
    ensures r == self.header.id,
@fn Packet::set_id [params=self,id]
    ensures final(self).header.id == id, final(self).header.w() == old(self).header.w(), final(self).sections_same(old(self)), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@fn Packet::recursion_desired
    ensures r == (self.header.w() & 0x0100 != 0),
@fn Packet::truncation
    ensures r == (self.header.w() & 0x0200 != 0),
@fn Packet::authoritative_answer
    ensures r == (self.header.w() & 0x0400 != 0),
@fn Packet::query_response
    ensures r == (self.header.w() & 0x8000 != 0),
@fn Packet::recursion_available
    ensures r == (self.header.w() & 0x0080 != 0),
@fn Packet::opcode
    ensures OpCode::f_post(((self.header.w() >> 11u16) & 15u16) as u8, r),
@fn Packet::response_code
    requires self.header.wf(),
    ensures r.code() == (self.header.w() & 0x000F) as u8,
@fn Packet::set_recursion_desired [params=self,rd]
    ensures final(self).flags_set(old(self), setw(old(self).header.w(), 0x0100, if rd { 0x0100 } else { 0 })),
@fn Packet::set_truncation [params=self,truncation]
    ensures final(self).flags_set(old(self), setw(old(self).header.w(), 0x0200, if truncation { 0x0200 } else { 0 })),
@fn Packet::set_authoritative_answer [params=self,aa]
    ensures final(self).flags_set(old(self), setw(old(self).header.w(), 0x0400, if aa { 0x0400 } else { 0 })),
@fn Packet::set_opcode [params=self,op_code]
    ensures final(self).flags_set(old(self), setw(old(self).header.w(), 0x7800, (op_code.code() as u16) << 11u16)),
@fn Packet::set_query_response [params=self,qr]
    ensures final(self).flags_set(old(self), if qr { setw(old(self).header.w(), 0x8000, 0x8000) } else { setw(setw(setw(old(self).header.w(), 0x8000, 0), 0x0080, 0), 0x000F, 0) }),
@fn Packet::set_response_code [params=self,response_code]
    ensures final(self).flags_set(old(self), if response_code.code() == 0 { setw(old(self).header.w(), 0x000F, response_code.code() as u16) } else { setw(setw(old(self).header.w(), 0x000F, response_code.code() as u16), 0x8000, 0x8000) }),
@fn Packet::set_recursion_available [params=self,ra]
    ensures final(self).flags_set(old(self), if ra { setw(setw(old(self).header.w(), 0x0080, 0x0080), 0x8000, 0x8000) } else { setw(old(self).header.w(), 0x0080, 0) }),
@fn Packet::header
    ensures r == &self.header,
@fn Packet::set_header [params=self,header]
    ensures final(self).header == header, final(self).sections_same(old(self)),
@fn Packet::questions
    ensures r@ == self.questions@,
@fn Packet::take_questions [params=self]
    ensures r@ == old(self).questions@, final(self).questions@.len() == 0, final(self).header.ques_count == 0,
        final(self).answers@ == old(self).answers@, final(self).header.ans_count == old(self).header.ans_count, final(self).authorities@ == old(self).authorities@, final(self).header.auth_count == old(self).header.auth_count, final(self).additional@ == old(self).additional@, final(self).header.add_count == old(self).header.add_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@fn Packet::add_question [params=self,question]
    ensures final(self).questions@ == old(self).questions@.push(question), final(self).header.ques_count == final(self).questions@.len() as u16,
        final(self).answers@ == old(self).answers@, final(self).header.ans_count == old(self).header.ans_count, final(self).authorities@ == old(self).authorities@, final(self).header.auth_count == old(self).header.auth_count, final(self).additional@ == old(self).additional@, final(self).header.add_count == old(self).header.add_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@head
    proof { axiom_len_q(self.questions); axiom_len_rr(self.answers); axiom_len_rr(self.authorities); axiom_len_rr(self.additional); }
@fn Packet::set_questions [params=self,questions]
    ensures final(self).questions == questions, final(self).header.ques_count == questions@.len() as u16,
        final(self).answers@ == old(self).answers@, final(self).header.ans_count == old(self).header.ans_count, final(self).authorities@ == old(self).authorities@, final(self).header.auth_count == old(self).header.auth_count, final(self).additional@ == old(self).additional@, final(self).header.add_count == old(self).header.add_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@fn Packet::answers
    ensures r@ == self.answers@,
@fn Packet::take_answers [params=self]
    ensures r@ == old(self).answers@, final(self).answers@.len() == 0, final(self).header.ans_count == 0,
        final(self).questions@ == old(self).questions@, final(self).header.ques_count == old(self).header.ques_count, final(self).authorities@ == old(self).authorities@, final(self).header.auth_count == old(self).header.auth_count, final(self).additional@ == old(self).additional@, final(self).header.add_count == old(self).header.add_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@fn Packet::add_answer [params=self,answer]
    ensures final(self).answers@ == old(self).answers@.push(answer), final(self).header.ans_count == final(self).answers@.len() as u16,
        final(self).questions@ == old(self).questions@, final(self).header.ques_count == old(self).header.ques_count, final(self).authorities@ == old(self).authorities@, final(self).header.auth_count == old(self).header.auth_count, final(self).additional@ == old(self).additional@, final(self).header.add_count == old(self).header.add_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@head
    proof { axiom_len_q(self.questions); axiom_len_rr(self.answers); axiom_len_rr(self.authorities); axiom_len_rr(self.additional); }
@fn Packet::set_answers [params=self,answers]
    ensures final(self).answers == answers, final(self).header.ans_count == answers@.len() as u16,
        final(self).questions@ == old(self).questions@, final(self).header.ques_count == old(self).header.ques_count, final(self).authorities@ == old(self).authorities@, final(self).header.auth_count == old(self).header.auth_count, final(self).additional@ == old(self).additional@, final(self).header.add_count == old(self).header.add_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@fn Packet::authorities
    ensures r@ == self.authorities@,
@fn Packet::take_authorities [params=self]
    ensures r@ == old(self).authorities@, final(self).authorities@.len() == 0, final(self).header.auth_count == 0,
        final(self).questions@ == old(self).questions@, final(self).header.ques_count == old(self).header.ques_count, final(self).answers@ == old(self).answers@, final(self).header.ans_count == old(self).header.ans_count, final(self).additional@ == old(self).additional@, final(self).header.add_count == old(self).header.add_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@fn Packet::add_authority [params=self,auth]
    ensures final(self).authorities@ == old(self).authorities@.push(auth), final(self).header.auth_count == final(self).authorities@.len() as u16,
        final(self).questions@ == old(self).questions@, final(self).header.ques_count == old(self).header.ques_count, final(self).answers@ == old(self).answers@, final(self).header.ans_count == old(self).header.ans_count, final(self).additional@ == old(self).additional@, final(self).header.add_count == old(self).header.add_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@head
    proof { axiom_len_q(self.questions); axiom_len_rr(self.answers); axiom_len_rr(self.authorities); axiom_len_rr(self.additional); }
@fn Packet::set_authorities [params=self,authorities]
    ensures final(self).authorities == authorities, final(self).header.auth_count == authorities@.len() as u16,
        final(self).questions@ == old(self).questions@, final(self).header.ques_count == old(self).header.ques_count, final(self).answers@ == old(self).answers@, final(self).header.ans_count == old(self).header.ans_count, final(self).additional@ == old(self).additional@, final(self).header.add_count == old(self).header.add_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@fn Packet::additionals
    ensures r@ == self.additional@,
@fn Packet::take_additionals [params=self]
    ensures r@ == old(self).additional@, final(self).additional@.len() == 0, final(self).header.add_count == 0,
        final(self).questions@ == old(self).questions@, final(self).header.ques_count == old(self).header.ques_count, final(self).answers@ == old(self).answers@, final(self).header.ans_count == old(self).header.ans_count, final(self).authorities@ == old(self).authorities@, final(self).header.auth_count == old(self).header.auth_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@fn Packet::add_additional [params=self,add]
    ensures final(self).additional@ == old(self).additional@.push(add), final(self).header.add_count == final(self).additional@.len() as u16,
        final(self).questions@ == old(self).questions@, final(self).header.ques_count == old(self).header.ques_count, final(self).answers@ == old(self).answers@, final(self).header.ans_count == old(self).header.ans_count, final(self).authorities@ == old(self).authorities@, final(self).header.auth_count == old(self).header.auth_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@head
    proof { axiom_len_q(self.questions); axiom_len_rr(self.answers); axiom_len_rr(self.authorities); axiom_len_rr(self.additional); }
@fn Packet::set_additionals [params=self,additionals]
    ensures final(self).additional == additionals, final(self).header.add_count == additionals@.len() as u16,
        final(self).questions@ == old(self).questions@, final(self).header.ques_count == old(self).header.ques_count, final(self).answers@ == old(self).answers@, final(self).header.ans_count == old(self).header.ans_count, final(self).authorities@ == old(self).authorities@, final(self).header.auth_count == old(self).header.auth_count,
        final(self).header.id == old(self).header.id, final(self).header.w() == old(self).header.w(), old(self).counts() ==> final(self).counts(), old(self).header.wf() ==> final(self).header.wf(),
@spec
impl Packet {
    pub open spec fn enc(&self) -> Seq<u8> { self.hdr_bytes() + enc_qs(self.questions@) + enc_rs(self.answers@) + enc_rs(self.authorities@) + enc_rs(self.additional@) }
    pub open spec fn ext(&self) -> nat { ext_rs(self.answers@) + ext_rs(self.authorities@) + ext_rs(self.additional@) }
    pub open spec fn small(&self) -> bool { self.enc().len() <= 0x7FFF_FFFF }
}
/// A section listed completely: the loop over it has seen everything
pub proof fn lemma_all_q(s: Seq<Question>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }
pub proof fn lemma_all_r(s: Seq<ResourceRecord>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }
pub proof fn lemma_none_q(s: Seq<Question>) ensures enc_qs(s.take(0)) == Seq::<u8>::empty() { }
pub proof fn lemma_none_r(s: Seq<ResourceRecord>) ensures enc_rs(s.take(0)) == Seq::<u8>::empty(), ext_rs(s.take(0)) == 0 { }
pub proof fn lemma_hdr_len(p: Packet) ensures p.hdr_bytes().len() == 12, p.header.bc_bytes().len() == 12 { reveal_with_fuel(encs, 7); }
/// The header with the counts replaced by the section sizes
pub proof fn lemma_hdr_copied(p: Packet, b: Seq<u8>)
    requires b.len() == 12, b.subrange(0, 4) == p.header.bc_bytes().subrange(0, 4), b.subrange(4, 6) == enc16(p.questions@.len() as u16),
        b.subrange(6, 8) == enc16(p.answers@.len() as u16), b.subrange(8, 10) == enc16(p.authorities@.len() as u16), b.subrange(10, 12) == enc16(p.additional@.len() as u16),
    ensures b == p.hdr_bytes(),
{
    reveal_with_fuel(encs, 7);
    assert(b.subrange(0, 4) =~= enc16(p.header.id) + enc16(p.header.w()));
    assert(b =~= b.subrange(0, 4) + b.subrange(4, 6) + b.subrange(6, 8) + b.subrange(8, 10) + b.subrange(10, 12));
    assert(b =~= p.hdr_bytes());
}
@impl Packet::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { self.enc() }
    open spec fn bs_extra(&self) -> nat { self.ext() }
@fn Packet::ByteConvertible::byte_size [muts=size; attr=#[verifier::loop_isolation(false)]]
@head
    hide(enc_qs); hide(enc_rs); hide(ext_rs); hide(ResourceRecord::enc); hide(Question::enc); hide(RecordData::rbs);
    proof { lemma_none_q(self.questions@); lemma_none_r(self.answers@); lemma_none_r(self.authorities@); lemma_none_r(self.additional@); lemma_hdr_len(*self); }
@loop 1
    invariant $s@.len() == self.questions@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.questions@[k],
        size == 12 + enc_qs(self.questions@.take($i as int)).len(),
@lhead 1
    proof { lemma_enc_qs_step(self.questions@, $i as int); }
@lafter 1
    proof { lemma_all_q(self.questions@); }
@loop 2
    invariant $s@.len() == self.answers@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.answers@[k],
        size == 12 + enc_qs(self.questions@).len() + enc_rs(self.answers@.take($i as int)).len() + ext_rs(self.answers@.take($i as int)),
@lhead 2
    proof { lemma_enc_rs_step(self.answers@, $i as int); }
@lafter 2
    proof { lemma_all_r(self.answers@); }
@loop 3
    invariant $s@.len() == self.authorities@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.authorities@[k],
        size == 12 + enc_qs(self.questions@).len() + enc_rs(self.answers@).len() + ext_rs(self.answers@) + enc_rs(self.authorities@.take($i as int)).len() + ext_rs(self.authorities@.take($i as int)),
@lhead 3
    proof { lemma_enc_rs_step(self.authorities@, $i as int); lemma_ext(self.answers@); }
@lafter 3
    proof { lemma_all_r(self.authorities@); }
@loop 4
    invariant $s@.len() == self.additional@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.additional@[k],
        size == 12 + enc_qs(self.questions@).len() + enc_rs(self.answers@).len() + ext_rs(self.answers@) + enc_rs(self.authorities@).len() + ext_rs(self.authorities@) + enc_rs(self.additional@.take($i as int)).len() + ext_rs(self.additional@.take($i as int)),
@lhead 4
    proof { lemma_enc_rs_step(self.additional@, $i as int); lemma_ext(self.answers@); lemma_ext(self.authorities@); }
@lafter 4
    proof { lemma_all_r(self.additional@); }
@alt Packet::ByteConvertible::byte_size [attr=#[verifier::loop_isolation(false)]]
@head
    hide(enc_qs); hide(enc_rs); hide(ext_rs); hide(ResourceRecord::enc); hide(Question::enc); hide(RecordData::rbs);
    proof { lemma_none_q(self.questions@); lemma_none_r(self.answers@); lemma_none_r(self.authorities@); lemma_none_r(self.additional@); lemma_hdr_len(*self); lemma_ext(self.answers@); lemma_ext(self.authorities@); lemma_ext(self.additional@); }
@loop 1
    invariant $s@.len() == self.questions@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.questions@[k],
        __a1 == enc_qs(self.questions@.take($i as int)).len(),
@lhead 1
    proof { lemma_enc_qs_step(self.questions@, $i as int); }
@lafter 1
    proof { lemma_all_q(self.questions@); }
@loop 2
    invariant $s@.len() == self.answers@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.answers@[k],
        __a2 == enc_rs(self.answers@.take($i as int)).len() + ext_rs(self.answers@.take($i as int)),
@lhead 2
    proof { lemma_enc_rs_step(self.answers@, $i as int); }
@lafter 2
    proof { lemma_all_r(self.answers@); }
@loop 3
    invariant $s@.len() == self.authorities@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.authorities@[k],
        __a3 == enc_rs(self.authorities@.take($i as int)).len() + ext_rs(self.authorities@.take($i as int)),
@lhead 3
    proof { lemma_enc_rs_step(self.authorities@, $i as int); lemma_ext(self.answers@); }
@lafter 3
    proof { lemma_all_r(self.authorities@); }
@loop 4
    invariant $s@.len() == self.additional@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.additional@[k],
        __a4 == enc_rs(self.additional@.take($i as int)).len() + ext_rs(self.additional@.take($i as int)),
@lhead 4
    proof { lemma_enc_rs_step(self.additional@, $i as int); lemma_ext(self.answers@); lemma_ext(self.authorities@); }
@lafter 4
    proof { lemma_all_r(self.additional@); }
@fn Packet::ByteConvertible::to_bytes [muts=byte_len,bin; attr=#[verifier::loop_isolation(false)]]
@head
    hide(enc_qs); hide(enc_rs); hide(ext_rs); hide(ResourceRecord::enc); hide(Question::enc); hide(RecordData::rbs); hide(Packet::hdr_bytes);
    proof { lemma_none_q(self.questions@); lemma_none_r(self.answers@); lemma_none_r(self.authorities@); lemma_none_r(self.additional@); lemma_hdr_len(*self); }
@loop 1
    invariant $s@.len() == self.questions@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.questions@[k],
        byte_len == 12 + enc_qs(self.questions@.take($i as int)).len(),
@lhead 1
    proof { lemma_enc_qs_step(self.questions@, $i as int); }
@lafter 1
    proof { lemma_all_q(self.questions@); }
@loop 2
    invariant $s@.len() == self.answers@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.answers@[k],
        byte_len == 12 + enc_qs(self.questions@).len() + enc_rs(self.answers@.take($i as int)).len() + ext_rs(self.answers@.take($i as int)),
@lhead 2
    proof { lemma_enc_rs_step(self.answers@, $i as int); }
@lafter 2
    proof { lemma_all_r(self.answers@); }
@loop 3
    invariant $s@.len() == self.authorities@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.authorities@[k],
        byte_len == 12 + enc_qs(self.questions@).len() + enc_rs(self.answers@).len() + ext_rs(self.answers@) + enc_rs(self.authorities@.take($i as int)).len() + ext_rs(self.authorities@.take($i as int)),
@lhead 3
    proof { lemma_enc_rs_step(self.authorities@, $i as int); lemma_ext(self.answers@); }
@lafter 3
    proof { lemma_all_r(self.authorities@); }
@loop 4
    invariant $s@.len() == self.additional@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.additional@[k],
        byte_len == 12 + enc_qs(self.questions@).len() + enc_rs(self.answers@).len() + ext_rs(self.answers@) + enc_rs(self.authorities@).len() + ext_rs(self.authorities@) + enc_rs(self.additional@.take($i as int)).len() + ext_rs(self.additional@.take($i as int)),
@lhead 4
    proof { lemma_enc_rs_step(self.additional@, $i as int); lemma_ext(self.answers@); lemma_ext(self.authorities@); }
@lafter 4
    proof { lemma_all_r(self.additional@); }
@lbefore 5
    proof {
        assert(bin@.subrange(0, 4) =~= self.header.bc_bytes().subrange(0, 4));
        assert(bin@.subrange(4, 6) =~= enc16(self.questions@.len() as u16));
        assert(bin@.subrange(6, 8) =~= enc16(self.answers@.len() as u16));
        assert(bin@.subrange(8, 10) =~= enc16(self.authorities@.len() as u16));
        assert(bin@.subrange(10, 12) =~= enc16(self.additional@.len() as u16));
        lemma_hdr_copied(*self, bin@);
    }
@loop 5
    invariant $s@.len() == self.questions@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.questions@[k],
        bin@ == self.hdr_bytes() + enc_qs(self.questions@.take($i as int)),
@lhead 5
    proof { lemma_enc_qs_step(self.questions@, $i as int); }
@lafter 5
    proof { lemma_all_q(self.questions@); }
@loop 6
    invariant $s@.len() == self.answers@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.answers@[k],
        bin@ == self.hdr_bytes() + enc_qs(self.questions@) + enc_rs(self.answers@.take($i as int)),
@lhead 6
    proof { lemma_enc_rs_step(self.answers@, $i as int); }
@lafter 6
    proof { lemma_all_r(self.answers@); }
@loop 7
    invariant $s@.len() == self.authorities@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.authorities@[k],
        bin@ == self.hdr_bytes() + enc_qs(self.questions@) + enc_rs(self.answers@) + enc_rs(self.authorities@.take($i as int)),
@lhead 7
    proof { lemma_enc_rs_step(self.authorities@, $i as int); }
@lafter 7
    proof { lemma_all_r(self.authorities@); }
@loop 8
    invariant $s@.len() == self.additional@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.additional@[k],
        bin@ == self.hdr_bytes() + enc_qs(self.questions@) + enc_rs(self.answers@) + enc_rs(self.authorities@) + enc_rs(self.additional@.take($i as int)),
@lhead 8
    proof { lemma_enc_rs_step(self.additional@, $i as int); }
@lafter 8
    proof { lemma_all_r(self.additional@); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@alt Packet::ByteConvertible::to_bytes [muts=bin; attr=#[verifier::loop_isolation(false)]]
@head
    hide(enc_qs); hide(enc_rs); hide(ext_rs); hide(ResourceRecord::enc); hide(Question::enc); hide(RecordData::rbs); hide(Packet::hdr_bytes);
    proof { lemma_none_q(self.questions@); lemma_none_r(self.answers@); lemma_none_r(self.authorities@); lemma_none_r(self.additional@); lemma_hdr_len(*self); }
@lbefore 1
    proof {
        assert(bin@.subrange(0, 4) =~= self.header.bc_bytes().subrange(0, 4));
        assert(bin@.subrange(4, 6) =~= enc16(self.questions@.len() as u16));
        assert(bin@.subrange(6, 8) =~= enc16(self.answers@.len() as u16));
        assert(bin@.subrange(8, 10) =~= enc16(self.authorities@.len() as u16));
        assert(bin@.subrange(10, 12) =~= enc16(self.additional@.len() as u16));
        lemma_hdr_copied(*self, bin@);
    }
@loop 1
    invariant $s@.len() == self.questions@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.questions@[k],
        bin@ == self.hdr_bytes() + enc_qs(self.questions@.take($i as int)),
@lhead 1
    proof { lemma_enc_qs_step(self.questions@, $i as int); }
@lafter 1
    proof { lemma_all_q(self.questions@); }
@loop 2
    invariant $s@.len() == self.answers@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.answers@[k],
        bin@ == self.hdr_bytes() + enc_qs(self.questions@) + enc_rs(self.answers@.take($i as int)),
@lhead 2
    proof { lemma_enc_rs_step(self.answers@, $i as int); }
@lafter 2
    proof { lemma_all_r(self.answers@); }
@loop 3
    invariant $s@.len() == self.authorities@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.authorities@[k],
        bin@ == self.hdr_bytes() + enc_qs(self.questions@) + enc_rs(self.answers@) + enc_rs(self.authorities@.take($i as int)),
@lhead 3
    proof { lemma_enc_rs_step(self.authorities@, $i as int); }
@lafter 3
    proof { lemma_all_r(self.authorities@); }
@loop 4
    invariant $s@.len() == self.additional@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.additional@[k],
        bin@ == self.hdr_bytes() + enc_qs(self.questions@) + enc_rs(self.answers@) + enc_rs(self.authorities@) + enc_rs(self.additional@.take($i as int)),
@lhead 4
    proof { lemma_enc_rs_step(self.additional@, $i as int); }
@lafter 4
    proof { lemma_all_r(self.additional@); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@impl Packet::TryFrom<&[u8]>
    #[verifier::prophetic] open spec fn tf_pre(v: &[u8]) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: &[u8], r: Result<Self, DnsError>) -> bool {
        match r {
            Ok(x) => pk_dec(v@, 0) is Some && pk_dec(v@, 0)->Some_0.0 == x.pv() && x.counts() && x.header.wf(),
            Err(_) => pk_dec(v@, 0) is None,
        }
    }
@fn Packet::TryFrom<&[u8]>::try_from
@impl Packet::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool {
        final(v).same(v) && match r {
            Ok(x) => pk_dec(v.data@, v.pos as int) == Some((x.pv(), final(v).pos as int)) && x.counts() && x.header.wf(),
            Err(_) => pk_dec(v.data@, v.pos as int) is None,
        }
    }
@fn Packet::TryFrom<&mut DnsBuffer>::try_from [params=buffer; muts=packet,questions,answers,authorities,additionals; attr=#[verifier::loop_isolation(false)]]
@head
    hide(val_of); hide(end_of); hide(q_dec); hide(rr_dec); hide(dec_qs); hide(dec_rs);
    broadcast use {lemma_qvs_push, lemma_rvs_push};
    let ghost d = buffer.data@;
    proof { reveal_with_fuel(wnth, 7); }
@lbefore 1
    let ghost p0 = buffer.pos as int;
    proof { lemma_dec_qs_zero(d, p0); assert(qvs(questions@) =~= Seq::empty()); }
@loop 1
    invariant buffer.wf(), buffer.data@ == d, dec_qs(d, p0, $i as int) == Some((qvs(questions@), buffer.pos as int)), questions@.len() == $i, $i <= $n,
@lhead 1
    proof { lemma_dec_qs_step(d, p0, $i as int); lemma_dec_qs_none(d, p0, $i + 1, $n as int); }
@lbefore 2
    let ghost p1 = buffer.pos as int;
    proof { lemma_dec_rs_zero(d, p1); assert(rvs(answers@) =~= Seq::empty()); }
@loop 2
    invariant buffer.wf(), buffer.data@ == d, dec_rs(d, p1, $i as int) == Some((rvs(answers@), buffer.pos as int)), answers@.len() == $i, $i <= $n,
@lhead 2
    proof { lemma_dec_rs_step(d, p1, $i as int); lemma_dec_rs_none(d, p1, $i + 1, $n as int); }
@lbefore 3
    let ghost p2 = buffer.pos as int;
    proof { lemma_dec_rs_zero(d, p2); assert(rvs(authorities@) =~= Seq::empty()); }
@loop 3
    invariant buffer.wf(), buffer.data@ == d, dec_rs(d, p2, $i as int) == Some((rvs(authorities@), buffer.pos as int)), authorities@.len() == $i, $i <= $n,
@lhead 3
    proof { lemma_dec_rs_step(d, p2, $i as int); lemma_dec_rs_none(d, p2, $i + 1, $n as int); }
@lbefore 4
    let ghost p3 = buffer.pos as int;
    proof { lemma_dec_rs_zero(d, p3); assert(rvs(additionals@) =~= Seq::empty()); }
@loop 4
    invariant buffer.wf(), buffer.data@ == d, dec_rs(d, p3, $i as int) == Some((rvs(additionals@), buffer.pos as int)), additionals@.len() == $i, $i <= $n,
@lhead 4
    proof { lemma_dec_rs_step(d, p3, $i as int); lemma_dec_rs_none(d, p3, $i + 1, $n as int); }
