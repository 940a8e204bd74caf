@mod header
@spec
/// The flag word as it stands in the message, from the bit field's byte order
#[verifier::inline]
pub open spec fn swp(b: u16) -> u16 { ((b & 0xFF) << 8u16) | (b >> 8u16) }
#[verifier::inline]
pub open spec fn setw(w: u16, m: u16, v: u16) -> u16 { (w & !m) | v }
impl Header {
    /// The second 16-bit word of the header (RFC 1035 section 4.1.1)
    pub open spec fn w(&self) -> u16 { swp(self.flags.bits()) }
    /// The response code is an assigned one
    pub open spec fn wf(&self) -> bool { ResponseCode::valid((self.w() & 0x000F) as u8) }
    pub open spec fn rest_same(&self, o: &Header) -> bool {
        self.id == o.id && self.ques_count == o.ques_count && self.ans_count == o.ans_count && self.auth_count == o.auth_count && self.add_count == o.add_count
    }
    pub open spec fn layout() -> Ks { kc(K::U16, kc(K::U16, kc(K::U16, kc(K::U16, kc(K::U16, kc(K::U16, kn())))))) }
    pub open spec fn fresh(&self, id: u16, w: u16) -> bool { self.id == id && self.w() == w && self.ques_count == 0 && self.ans_count == 0 && self.auth_count == 0 && self.add_count == 0 }
}
impl Rec for Header {
    open spec fn fields(&self) -> Ws { wc(W::N16(self.id), wc(W::N16(self.w()), wc(W::N16(self.ques_count), wc(W::N16(self.ans_count), wc(W::N16(self.auth_count), wc(W::N16(self.add_count), wn())))))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { ResponseCode::valid((wnth(w, 1)->N16_0 & 0x000F) as u8) }
}
impl VTransmute for OpCode { open spec fn tcode(self) -> u8 { self.code() as u8 } #[verifier::external_body] fn v_tcode(self) -> (r: u8) { unimplemented!() } }
impl VTransmute for ResponseCode { open spec fn tcode(self) -> u8 { self.code() as u8 } #[verifier::external_body] fn v_tcode(self) -> (r: u8) { unimplemented!() } }
/// Writing different fields of the flag word commutes
pub proof fn lemma_hdr_commute()
    ensures
        forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x8000, a), 0x0080, b)] (a == 0 || a == 0x8000) && (b == 0 || b == 0x0080) ==> setw(setw(w, 0x8000, a), 0x0080, b) == setw(setw(w, 0x0080, b), 0x8000, a),
        forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x8000, a), 0x000F, b)] (a == 0 || a == 0x8000) && b <= 15 ==> setw(setw(w, 0x8000, a), 0x000F, b) == setw(setw(w, 0x000F, b), 0x8000, a),
        forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x0080, a), 0x8000, b)] (a == 0 || a == 0x0080) && (b == 0 || b == 0x8000) ==> setw(setw(w, 0x0080, a), 0x8000, b) == setw(setw(w, 0x8000, b), 0x0080, a),
        forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x0080, a), 0x000F, b)] (a == 0 || a == 0x0080) && b <= 15 ==> setw(setw(w, 0x0080, a), 0x000F, b) == setw(setw(w, 0x000F, b), 0x0080, a),
        forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x000F, a), 0x8000, b)] a <= 15 && (b == 0 || b == 0x8000) ==> setw(setw(w, 0x000F, a), 0x8000, b) == setw(setw(w, 0x8000, b), 0x000F, a),
        forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x000F, a), 0x0080, b)] a <= 15 && (b == 0 || b == 0x0080) ==> setw(setw(w, 0x000F, a), 0x0080, b) == setw(setw(w, 0x0080, b), 0x000F, a),
{
    assert(forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x8000, a), 0x0080, b)] (a == 0 || a == 0x8000) && (b == 0 || b == 0x0080) ==> setw(setw(w, 0x8000, a), 0x0080, b) == setw(setw(w, 0x0080, b), 0x8000, a)) by(bit_vector);
    assert(forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x8000, a), 0x000F, b)] (a == 0 || a == 0x8000) && b <= 15 ==> setw(setw(w, 0x8000, a), 0x000F, b) == setw(setw(w, 0x000F, b), 0x8000, a)) by(bit_vector);
    assert(forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x0080, a), 0x8000, b)] (a == 0 || a == 0x0080) && (b == 0 || b == 0x8000) ==> setw(setw(w, 0x0080, a), 0x8000, b) == setw(setw(w, 0x8000, b), 0x0080, a)) by(bit_vector);
    assert(forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x0080, a), 0x000F, b)] (a == 0 || a == 0x0080) && b <= 15 ==> setw(setw(w, 0x0080, a), 0x000F, b) == setw(setw(w, 0x000F, b), 0x0080, a)) by(bit_vector);
    assert(forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x000F, a), 0x8000, b)] a <= 15 && (b == 0 || b == 0x8000) ==> setw(setw(w, 0x000F, a), 0x8000, b) == setw(setw(w, 0x8000, b), 0x000F, a)) by(bit_vector);
    assert(forall|w: u16, a: u16, b: u16| #![trigger setw(setw(w, 0x000F, a), 0x0080, b)] a <= 15 && (b == 0 || b == 0x0080) ==> setw(setw(w, 0x000F, a), 0x0080, b) == setw(setw(w, 0x0080, b), 0x000F, a)) by(bit_vector);
}
/// How the accessors of the bit field act on the flag word
pub proof fn lemma_hdr_bits()
    ensures
        forall|b: u16| #![trigger (b >> 0u16) & 1u16] ((b >> 0u16) & 1u16) == (if swp(b) & 0x0100 != 0 { 1u16 } else { 0u16 }),
        forall|b: u16| #![trigger (b >> 1u16) & 1u16] ((b >> 1u16) & 1u16) == (if swp(b) & 0x0200 != 0 { 1u16 } else { 0u16 }),
        forall|b: u16| #![trigger (b >> 2u16) & 1u16] ((b >> 2u16) & 1u16) == (if swp(b) & 0x0400 != 0 { 1u16 } else { 0u16 }),
        forall|b: u16| #![trigger (b >> 3u16) & 15u16] ((b >> 3u16) & 15u16) == ((swp(b) >> 11u16) & 15u16),
        forall|b: u16| #![trigger (b >> 7u16) & 1u16] ((b >> 7u16) & 1u16) == (if swp(b) & 0x8000 != 0 { 1u16 } else { 0u16 }),
        forall|b: u16| #![trigger (b >> 8u16) & 15u16] ((b >> 8u16) & 15u16) == (swp(b) & 15u16),
        forall|b: u16| #![trigger (b >> 15u16) & 1u16] ((b >> 15u16) & 1u16) == (if swp(b) & 0x0080 != 0 { 1u16 } else { 0u16 }),
        forall|b: u16, v: u16| #![trigger (b & !(1u16 << 0u16)) | (v << 0u16)] v <= 1 ==> swp((b & !(1u16 << 0u16)) | (v << 0u16)) == setw(swp(b), 0x0100, if v == 1 { 0x0100 } else { 0 }),
        forall|b: u16, v: u16| #![trigger (b & !(1u16 << 1u16)) | (v << 1u16)] v <= 1 ==> swp((b & !(1u16 << 1u16)) | (v << 1u16)) == setw(swp(b), 0x0200, if v == 1 { 0x0200 } else { 0 }),
        forall|b: u16, v: u16| #![trigger (b & !(1u16 << 2u16)) | (v << 2u16)] v <= 1 ==> swp((b & !(1u16 << 2u16)) | (v << 2u16)) == setw(swp(b), 0x0400, if v == 1 { 0x0400 } else { 0 }),
        forall|b: u16, v: u16| #![trigger (b & !(15u16 << 3u16)) | (v << 3u16)] v <= 15 ==> swp((b & !(15u16 << 3u16)) | (v << 3u16)) == setw(swp(b), 0x7800, v << 11u16),
        forall|b: u16, v: u16| #![trigger (b & !(1u16 << 7u16)) | (v << 7u16)] v <= 1 ==> swp((b & !(1u16 << 7u16)) | (v << 7u16)) == setw(swp(b), 0x8000, if v == 1 { 0x8000 } else { 0 }),
        forall|b: u16, v: u16| #![trigger (b & !(15u16 << 8u16)) | (v << 8u16)] v <= 15 ==> swp((b & !(15u16 << 8u16)) | (v << 8u16)) == setw(swp(b), 0x000F, v),
        forall|b: u16, v: u16| #![trigger (b & !(1u16 << 15u16)) | (v << 15u16)] v <= 1 ==> swp((b & !(1u16 << 15u16)) | (v << 15u16)) == setw(swp(b), 0x0080, if v == 1 { 0x0080 } else { 0 }),
        swp(0) == 0,
{
    assert(forall|b: u16| #![trigger (b >> 0u16) & 1u16] ((b >> 0u16) & 1u16) == (if swp(b) & 0x0100 != 0 { 1u16 } else { 0u16 })) by(bit_vector);
    assert(forall|b: u16| #![trigger (b >> 1u16) & 1u16] ((b >> 1u16) & 1u16) == (if swp(b) & 0x0200 != 0 { 1u16 } else { 0u16 })) by(bit_vector);
    assert(forall|b: u16| #![trigger (b >> 2u16) & 1u16] ((b >> 2u16) & 1u16) == (if swp(b) & 0x0400 != 0 { 1u16 } else { 0u16 })) by(bit_vector);
    assert(forall|b: u16| #![trigger (b >> 3u16) & 15u16] ((b >> 3u16) & 15u16) == ((swp(b) >> 11u16) & 15u16)) by(bit_vector);
    assert(forall|b: u16| #![trigger (b >> 7u16) & 1u16] ((b >> 7u16) & 1u16) == (if swp(b) & 0x8000 != 0 { 1u16 } else { 0u16 })) by(bit_vector);
    assert(forall|b: u16| #![trigger (b >> 8u16) & 15u16] ((b >> 8u16) & 15u16) == (swp(b) & 15u16)) by(bit_vector);
    assert(forall|b: u16| #![trigger (b >> 15u16) & 1u16] ((b >> 15u16) & 1u16) == (if swp(b) & 0x0080 != 0 { 1u16 } else { 0u16 })) by(bit_vector);
    assert(forall|b: u16, v: u16| #![trigger (b & !(1u16 << 0u16)) | (v << 0u16)] v <= 1 ==> swp((b & !(1u16 << 0u16)) | (v << 0u16)) == setw(swp(b), 0x0100, if v == 1 { 0x0100 } else { 0 })) by(bit_vector);
    assert(forall|b: u16, v: u16| #![trigger (b & !(1u16 << 1u16)) | (v << 1u16)] v <= 1 ==> swp((b & !(1u16 << 1u16)) | (v << 1u16)) == setw(swp(b), 0x0200, if v == 1 { 0x0200 } else { 0 })) by(bit_vector);
    assert(forall|b: u16, v: u16| #![trigger (b & !(1u16 << 2u16)) | (v << 2u16)] v <= 1 ==> swp((b & !(1u16 << 2u16)) | (v << 2u16)) == setw(swp(b), 0x0400, if v == 1 { 0x0400 } else { 0 })) by(bit_vector);
    assert(forall|b: u16, v: u16| #![trigger (b & !(15u16 << 3u16)) | (v << 3u16)] v <= 15 ==> swp((b & !(15u16 << 3u16)) | (v << 3u16)) == setw(swp(b), 0x7800, v << 11u16)) by(bit_vector);
    assert(forall|b: u16, v: u16| #![trigger (b & !(1u16 << 7u16)) | (v << 7u16)] v <= 1 ==> swp((b & !(1u16 << 7u16)) | (v << 7u16)) == setw(swp(b), 0x8000, if v == 1 { 0x8000 } else { 0 })) by(bit_vector);
    assert(forall|b: u16, v: u16| #![trigger (b & !(15u16 << 8u16)) | (v << 8u16)] v <= 15 ==> swp((b & !(15u16 << 8u16)) | (v << 8u16)) == setw(swp(b), 0x000F, v)) by(bit_vector);
    assert(forall|b: u16, v: u16| #![trigger (b & !(1u16 << 15u16)) | (v << 15u16)] v <= 1 ==> swp((b & !(1u16 << 15u16)) | (v << 15u16)) == setw(swp(b), 0x0080, if v == 1 { 0x0080 } else { 0 })) by(bit_vector);
    assert(swp(0) == 0) by(bit_vector);
}
pub proof fn lemma_hdr_bytes()
    ensures
        forall|b: u16| #![trigger b & 0xFF] (swp(b) / 256) as u8 == (b & 0xFF) as u8 && (swp(b) % 256) as u8 == (b >> 8u16) as u8,
        forall|x: u16, y: u16| #![trigger x | (y << 8u16)] x < 256 && y < 256 ==> swp(x | (y << 8u16)) == add(mul(x, 256), y),
{
    assert(forall|b: u16| #![trigger b & 0xFF] (swp(b) / 256) as u8 == (b & 0xFF) as u8 && (swp(b) % 256) as u8 == (b >> 8u16) as u8) by(bit_vector);
    assert(forall|x: u16, y: u16| #![trigger x | (y << 8u16)] x < 256 && y < 256 ==> swp(x | (y << 8u16)) == add(mul(x, 256), y)) by(bit_vector);
}
/// Flags are independent: replacing the bits of one mask leaves every disjoint mask alone, and sets its own
pub proof fn lemma_hdr_independent(w: u16, m: u16, v: u16, n: u16)
    requires v & !m == 0,
    ensures m & n == 0 ==> setw(w, m, v) & n == w & n, setw(w, m, v) & m == v,
{
    assert(v & !m == 0 && m & n == 0 ==> setw(w, m, v) & n == w & n) by(bit_vector);
    assert(v & !m == 0 ==> setw(w, m, v) & m == v) by(bit_vector);
}
@fn Header::new_query [params=id,recursion_desired]
    ensures r.fresh(id, if recursion_desired { 0x0100 } else { 0 }), r.wf(),
@head
    proof { lemma_hdr_bits();
        assert(setw(setw(0, 0x7800, 0u16 << 11u16), 0x0100, 0x0100) == 0x0100 && setw(setw(0, 0x7800, 0u16 << 11u16), 0x0100, 0) == 0) by(bit_vector);
        assert(setw(setw(0, 0x0100, 0x0100), 0x7800, 0u16 << 11u16) == 0x0100 && setw(setw(0, 0x0100, 0), 0x7800, 0u16 << 11u16) == 0 && setw(0, 0x0100, 0x0100) == 0x0100 && setw(0, 0x0100, 0) == 0) by(bit_vector);
        assert(0x0100u16 & 0x000F == 0 && 0u16 & 0x000F == 0) by(bit_vector); }
@fn Header::new_reply [params=id,opcode]
    ensures r.fresh(id, 0x8000 | ((opcode.code() as u16) << 11u16)), r.wf(),
@head
    proof { lemma_hdr_bits();
        assert(forall|v: u16| #![trigger v << 11u16] v <= 15 ==> setw(setw(0, 0x7800, v << 11u16), 0x8000, 0x8000) == 0x8000 | (v << 11u16)) by(bit_vector);
        assert(forall|v: u16| #![trigger v << 11u16] v <= 15 ==> setw(setw(0, 0x8000, 0x8000), 0x7800, v << 11u16) == 0x8000 | (v << 11u16)) by(bit_vector);
        assert(forall|v: u16| #![trigger v << 11u16] v <= 15 ==> (0x8000 | (v << 11u16)) & 0x000F == 0) by(bit_vector); }
@fn Header::recursion_desired
    ensures r == (self.w() & 0x0100 != 0),
@head
    proof { lemma_hdr_bits(); }
@fn Header::truncation
    ensures r == (self.w() & 0x0200 != 0),
@head
    proof { lemma_hdr_bits(); }
@fn Header::authoritative_answer
    ensures r == (self.w() & 0x0400 != 0),
@head
    proof { lemma_hdr_bits(); }
@fn Header::query_response
    ensures r == (self.w() & 0x8000 != 0),
@head
    proof { lemma_hdr_bits(); }
@fn Header::recursion_available
    ensures r == (self.w() & 0x0080 != 0),
@head
    proof { lemma_hdr_bits(); }
@fn Header::opcode
    ensures OpCode::f_post(((self.w() >> 11u16) & 15u16) as u8, r),
@head
    proof { lemma_hdr_bits(); }
@fn Header::response_code
    requires self.wf(),
    ensures r.code() == (self.w() & 0x000F) as u8,
@head
    proof { lemma_hdr_bits(); }
@fn Header::set_recursion_desired [params=self,rd]
    ensures final(self).w() == setw(old(self).w(), 0x0100, if rd { 0x0100 } else { 0 }), final(self).rest_same(old(self)),
        old(self).wf() ==> final(self).wf(),
@head
    proof { lemma_hdr_bits();
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x000F, v)] v <= 15 ==> setw(w, 0x000F, v) & 0x000F == v) by(bit_vector);
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x7800, v << 11u16)] v <= 15 ==> setw(w, 0x7800, v << 11u16) & 0x000F == w & 0x000F) by(bit_vector);
        assert(forall|w: u16, m: u16, v: u16| #![trigger setw(w, m, v)] m & 0x000F == 0 && v & 0x000F == 0 ==> setw(w, m, v) & 0x000F == w & 0x000F) by(bit_vector);
        assert(0x0100u16 & 0x000F == 0 && 0x0200u16 & 0x000F == 0 && 0x0400u16 & 0x000F == 0 && 0x8000u16 & 0x000F == 0 && 0x0080u16 & 0x000F == 0 && 0u16 & 0x000F == 0) by(bit_vector); }
@fn Header::set_truncation [params=self,tc]
    ensures final(self).w() == setw(old(self).w(), 0x0200, if tc { 0x0200 } else { 0 }), final(self).rest_same(old(self)),
        old(self).wf() ==> final(self).wf(),
@head
    proof { lemma_hdr_bits();
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x000F, v)] v <= 15 ==> setw(w, 0x000F, v) & 0x000F == v) by(bit_vector);
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x7800, v << 11u16)] v <= 15 ==> setw(w, 0x7800, v << 11u16) & 0x000F == w & 0x000F) by(bit_vector);
        assert(forall|w: u16, m: u16, v: u16| #![trigger setw(w, m, v)] m & 0x000F == 0 && v & 0x000F == 0 ==> setw(w, m, v) & 0x000F == w & 0x000F) by(bit_vector);
        assert(0x0100u16 & 0x000F == 0 && 0x0200u16 & 0x000F == 0 && 0x0400u16 & 0x000F == 0 && 0x8000u16 & 0x000F == 0 && 0x0080u16 & 0x000F == 0 && 0u16 & 0x000F == 0) by(bit_vector); }
@fn Header::set_authoritative_answer [params=self,aa]
    ensures final(self).w() == setw(old(self).w(), 0x0400, if aa { 0x0400 } else { 0 }), final(self).rest_same(old(self)),
        old(self).wf() ==> final(self).wf(),
@head
    proof { lemma_hdr_bits();
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x000F, v)] v <= 15 ==> setw(w, 0x000F, v) & 0x000F == v) by(bit_vector);
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x7800, v << 11u16)] v <= 15 ==> setw(w, 0x7800, v << 11u16) & 0x000F == w & 0x000F) by(bit_vector);
        assert(forall|w: u16, m: u16, v: u16| #![trigger setw(w, m, v)] m & 0x000F == 0 && v & 0x000F == 0 ==> setw(w, m, v) & 0x000F == w & 0x000F) by(bit_vector);
        assert(0x0100u16 & 0x000F == 0 && 0x0200u16 & 0x000F == 0 && 0x0400u16 & 0x000F == 0 && 0x8000u16 & 0x000F == 0 && 0x0080u16 & 0x000F == 0 && 0u16 & 0x000F == 0) by(bit_vector); }
@fn Header::set_opcode [params=self,opcode]
    ensures final(self).w() == setw(old(self).w(), 0x7800, (opcode.code() as u16) << 11u16), final(self).rest_same(old(self)),
        old(self).wf() ==> final(self).wf(),
@head
    proof { lemma_hdr_bits();
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x000F, v)] v <= 15 ==> setw(w, 0x000F, v) & 0x000F == v) by(bit_vector);
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x7800, v << 11u16)] v <= 15 ==> setw(w, 0x7800, v << 11u16) & 0x000F == w & 0x000F) by(bit_vector);
        assert(forall|w: u16, m: u16, v: u16| #![trigger setw(w, m, v)] m & 0x000F == 0 && v & 0x000F == 0 ==> setw(w, m, v) & 0x000F == w & 0x000F) by(bit_vector);
        assert(0x0100u16 & 0x000F == 0 && 0x0200u16 & 0x000F == 0 && 0x0400u16 & 0x000F == 0 && 0x8000u16 & 0x000F == 0 && 0x0080u16 & 0x000F == 0 && 0u16 & 0x000F == 0) by(bit_vector); }
@fn Header::set_query_response [params=self,qr]
    ensures final(self).w() == (if qr { setw(old(self).w(), 0x8000, 0x8000) } else { setw(setw(setw(old(self).w(), 0x8000, 0), 0x0080, 0), 0x000F, 0) }), final(self).rest_same(old(self)),
        old(self).wf() ==> final(self).wf(),
@head
    proof { lemma_hdr_bits(); lemma_hdr_commute();
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x000F, v)] v <= 15 ==> setw(w, 0x000F, v) & 0x000F == v) by(bit_vector);
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x7800, v << 11u16)] v <= 15 ==> setw(w, 0x7800, v << 11u16) & 0x000F == w & 0x000F) by(bit_vector);
        assert(forall|w: u16, m: u16, v: u16| #![trigger setw(w, m, v)] m & 0x000F == 0 && v & 0x000F == 0 ==> setw(w, m, v) & 0x000F == w & 0x000F) by(bit_vector);
        assert(0x0100u16 & 0x000F == 0 && 0x0200u16 & 0x000F == 0 && 0x0400u16 & 0x000F == 0 && 0x8000u16 & 0x000F == 0 && 0x0080u16 & 0x000F == 0 && 0u16 & 0x000F == 0) by(bit_vector); }
@fn Header::set_response_code [params=self,response_code]
    ensures final(self).w() == (if response_code.code() == 0 { setw(old(self).w(), 0x000F, response_code.code() as u16) } else { setw(setw(old(self).w(), 0x000F, response_code.code() as u16), 0x8000, 0x8000) }), final(self).rest_same(old(self)),
        old(self).wf() ==> final(self).wf(),
@head
    proof { lemma_hdr_bits(); lemma_hdr_commute();
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x000F, v)] v <= 15 ==> setw(w, 0x000F, v) & 0x000F == v) by(bit_vector);
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x7800, v << 11u16)] v <= 15 ==> setw(w, 0x7800, v << 11u16) & 0x000F == w & 0x000F) by(bit_vector);
        assert(forall|w: u16, m: u16, v: u16| #![trigger setw(w, m, v)] m & 0x000F == 0 && v & 0x000F == 0 ==> setw(w, m, v) & 0x000F == w & 0x000F) by(bit_vector);
        assert(0x0100u16 & 0x000F == 0 && 0x0200u16 & 0x000F == 0 && 0x0400u16 & 0x000F == 0 && 0x8000u16 & 0x000F == 0 && 0x0080u16 & 0x000F == 0 && 0u16 & 0x000F == 0) by(bit_vector); }
@fn Header::set_recursion_available [params=self,ra]
    ensures final(self).w() == (if ra { setw(setw(old(self).w(), 0x0080, if ra { 0x0080 } else { 0 }), 0x8000, 0x8000) } else { setw(old(self).w(), 0x0080, if ra { 0x0080 } else { 0 }) }), final(self).rest_same(old(self)),
        old(self).wf() ==> final(self).wf(),
@head
    proof { lemma_hdr_bits(); lemma_hdr_commute();
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x000F, v)] v <= 15 ==> setw(w, 0x000F, v) & 0x000F == v) by(bit_vector);
        assert(forall|w: u16, v: u16| #![trigger setw(w, 0x7800, v << 11u16)] v <= 15 ==> setw(w, 0x7800, v << 11u16) & 0x000F == w & 0x000F) by(bit_vector);
        assert(forall|w: u16, m: u16, v: u16| #![trigger setw(w, m, v)] m & 0x000F == 0 && v & 0x000F == 0 ==> setw(w, m, v) & 0x000F == w & 0x000F) by(bit_vector);
        assert(0x0100u16 & 0x000F == 0 && 0x0200u16 & 0x000F == 0 && 0x0400u16 & 0x000F == 0 && 0x8000u16 & 0x000F == 0 && 0x0080u16 & 0x000F == 0 && 0u16 & 0x000F == 0) by(bit_vector); }
@impl Header::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Header::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 7); }
@fn Header::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 7); lemma_hdr_bytes(); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@impl Header::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) && (r is Ok ==> r->Ok_0.wf()) }
@fn Header::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 7); reveal_with_fuel(wnth, 7); lemma_hdr_bits(); lemma_hdr_bytes(); }
