@mod rdata::txt
@spec
impl Txt { pub open spec fn layout() -> Ks { kc(K::Strs, kn()) } }
impl Rec for Txt {
    open spec fn fields(&self) -> Ws { wc(W::L(strs_of(self.0@)), wn()) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn norm(w: Ws) -> Ws { match w { Ws::Cons(W::L(l), r) => wc(W::L(l.map_values(|x: Seq<u8>| lossy(x))), *r), _ => w } }
}
/// The values the wire form can carry
impl Txt { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_txt(x: Txt, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Txt::renc(x.fields())), p + Txt::renc(x.fields()).len() == d.len(),
    ensures val_of::<Txt>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 2); broadcast use {axiom_string_utf8, axiom_lossy}; rt_layout(Txt::layout(), x.fields(), d, p); let l = strs_of(x.0@); assert forall|i: int| 0 <= i < l.len() implies lossy(l[i]) == l[i] by { assert(l[i] == sbytes(x.0@[i])); } assert(l.map_values(|y: Seq<u8>| lossy(y)) =~= l); }
@impl Txt::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Txt::TryFrom<&mut DnsBuffer>::try_from [params=buffer; muts=txt_store]
@head
    broadcast use {lemma_strs_push, lemma_opt_pre_push};
    proof { reveal_with_fuel(decs, 2); }
@loop 1
    invariant buffer.wf(), old(buffer).wf(), buffer.data@ == old(buffer).data@,
        lossy_all(dec_strs(buffer.data@, old(buffer).pos as int)) == opt_pre(strs_of(txt_store@), lossy_all(dec_strs(buffer.data@, buffer.pos as int))),
    decreases buffer.rest(),
@lhead 1
    proof { lemma_lossy_step(buffer.data@, buffer.pos as int); }
@lafter 1
    proof { assert(dec_strs(buffer.data@, buffer.pos as int) == Some(Seq::<Seq<u8>>::empty()));
        assert(strs_of(txt_store@) + Seq::<Seq<u8>>::empty().map_values(|x: Seq<u8>| lossy(x)) =~= strs_of(txt_store@)); }
@impl Txt::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Txt::ByteConvertible::byte_size [muts=acc]
@head
    proof { reveal_with_fuel(encs, 2); }
@loop 1
    invariant $s@.len() == self.0@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.0@[k],
        acc == enc_strs(strs_of(self.0@).take($i as int)).len(), self.bc_bytes().len() <= 0x7FFF_FFFF,
@lhead 1
    proof { lemma_enc_strs_step(strs_of(self.0@), $i as int); }
@lafter 1
    proof { assert(strs_of(self.0@).take(self.0@.len() as int) =~= strs_of(self.0@)); }
@alt Txt::ByteConvertible::byte_size [muts=acc]
@head
    proof { reveal_with_fuel(encs, 2); }
@loop 1
    invariant $s@.len() == self.0@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.0@[k],
        acc + $i == enc_strs(strs_of(self.0@).take($i as int)).len(), self.bc_bytes().len() <= 0x7FFF_FFFF,
@lhead 1
    proof { lemma_enc_strs_step(strs_of(self.0@), $i as int); }
@lafter 1
    proof { assert(strs_of(self.0@).take(self.0@.len() as int) =~= strs_of(self.0@)); }
@fn Txt::ByteConvertible::to_bytes [muts=buff]
@head
    proof { reveal_with_fuel(encs, 2); }
@loop 1
    invariant $s@.len() == self.0@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.0@[k],
        buff@ == enc_strs(strs_of(self.0@).take($i as int)), self.bc_bytes().len() <= 0x7FFF_FFFF,
@lhead 1
    proof { lemma_enc_strs_step(strs_of(self.0@), $i as int); }
@lafter 1
    proof { assert(strs_of(self.0@).take(self.0@.len() as int) =~= strs_of(self.0@)); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::caa
@spec
impl Caa { pub open spec fn layout() -> Ks { kc(K::U8, kc(K::Str, kc(K::Rest, kn()))) } }
impl Rec for Caa {
    open spec fn fields(&self) -> Ws { wc(W::N8(if self.issuer_critical { 128 } else { 0 }), wc(W::B(sbytes(self.tag)), wc(W::B(self.value@), wn()))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { wnth(w, 1)->B_0.len() > 0 }
    open spec fn norm(w: Ws) -> Ws { wc(W::N8(if wnth(w, 0)->N8_0 >= 128 { 128 } else { 0 }), wc(W::B(lossy(wnth(w, 1)->B_0)), wc(wnth(w, 2), wn()))) }
}
/// The values the wire form can carry
impl Caa { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) && sbytes(self.tag).len() > 0 } }
pub proof fn rt_caa(x: Caa, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Caa::renc(x.fields())), p + Caa::renc(x.fields()).len() == d.len(),
    ensures val_of::<Caa>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 4); broadcast use {axiom_string_utf8, axiom_lossy}; rt_layout(Caa::layout(), x.fields(), d, p); }
@impl Caa::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Caa::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 4); reveal_with_fuel(wnth, 4); assert(forall|x: u8| #![trigger x & 0x80] (x & 0x80 != 0) == (x >= 128)) by(bit_vector); }
@impl Caa::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Caa::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 4); }
@fn Caa::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 4); assert(1u8 << 7u8 == 128u8 && 0u8 << 7u8 == 0u8) by(bit_vector); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@if dnssec
@mod rdata::dnssec
@spec
impl DnsKey {
    pub open spec fn layout() -> Ks { kc(K::U16, kc(K::U8, kc(K::U8, kc(K::Rest, kn())))) }
    pub open spec fn flags(&self) -> u16 { add(if self.zone_key { 256u16 } else { 0 }, if self.secure_entry_point { 1u16 } else { 0 }) }
}
impl Rec for DnsKey {
    open spec fn fields(&self) -> Ws { wc(W::N16(self.flags()), wc(W::N8(self.protocol), wc(W::N8(self.algorithm.code()), wc(W::B(self.public_key@), wn())))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { Algorithm::valid(wnth(w, 2)->N8_0) }
    open spec fn norm(w: Ws) -> Ws { match w { Ws::Cons(W::N16(f), r) => wc(W::N16(f & 0x0101), *r), _ => w } }
}
/// The values the wire form can carry
impl DnsKey { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_dnskey(x: DnsKey, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, DnsKey::renc(x.fields())), p + DnsKey::renc(x.fields()).len() == d.len(),
    ensures val_of::<DnsKey>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 5); assert(257u16 & 0x0101 == 257 && 256u16 & 0x0101 == 256 && 1u16 & 0x0101 == 1 && 0u16 & 0x0101 == 0) by(bit_vector); rt_layout(DnsKey::layout(), x.fields(), d, p); }
@impl DnsKey::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@impl DnsKey::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn DnsKey::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 5); reveal_with_fuel(wnth, 5);
        assert(forall|x: u16| #![trigger x & 0x0101] x & 0x0101 == add(if x & 0x0100 != 0 { 256u16 } else { 0 }, if x & 0x0001 != 0 { 1u16 } else { 0 })) by(bit_vector); }
@fn DnsKey::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 5); }
@fn DnsKey::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 5);
        assert(((1u16 << 8) | 1u16) == 257u16 && ((1u16 << 8) | 0u16) == 256u16 && ((0u16 << 8) | 1u16) == 1u16 && ((0u16 << 8) | 0u16) == 0u16) by(bit_vector); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@endif
@mod rdata::tsig
@spec
impl Tsig { pub open spec fn layout() -> Ks { kc(K::Name, kc(K::Fix(6), kc(K::U16, kc(K::Blob16, kc(K::U16, kc(K::U16, kc(K::Blob16, kn()))))))) } }
impl Rec for Tsig {
    open spec fn fields(&self) -> Ws { wc(W::L(self.algorithm.ls()), wc(W::B(enc64(self.time_signed).subrange(2, 8)), wc(W::N16(self.fudge), wc(W::B(self.mac@), wc(W::N16(self.original_id), wc(W::N16(self.error.code()), wc(W::B(self.other_data@), wn()))))))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { Error::valid(wnth(w, 5)->N16_0) }
}
/// The values the wire form can carry
impl Tsig { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) && self.time_signed < 0x1_0000_0000_0000 } }
pub proof fn rt_tsig(x: Tsig, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Tsig::renc(x.fields())), p + Tsig::renc(x.fields()).len() == d.len(),
    ensures val_of::<Tsig>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 8); rt_layout(Tsig::layout(), x.fields(), d, p); }
@impl Tsig::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) && (r matches Ok(x) ==> x.time_signed < 0x1_0000_0000_0000) }
@impl Tsig::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Tsig::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 8); reveal_with_fuel(wnth, 8);
        assert(forall|h: u64, l: u64| #![trigger (h << 32u64) | l] h < 0x1_0000 && l < 0x1_0000_0000 ==> (h << 32u64) | l == h * 0x1_0000_0000 + l) by(bit_vector); }
@tail
    proof { if __ret is Ok { assert(enc64(__ret->Ok_0.time_signed).subrange(2, 8) =~= wnth(Self::rdec(old(buffer).data@, old(buffer).pos as int)->Some_0.0, 1)->B_0); } }
@fn Tsig::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 8); }
@fn Tsig::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 8); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::naptr
@spec
pub open spec fn flag_bytes(v: Seq<Flag>) -> Seq<u8> { v.map_values(|x: Flag| x.code()) }
/// The flags the enumeration has, in order
pub open spec fn known_flags(b: Seq<u8>) -> Seq<u8> decreases b.len() {
    if b.len() == 0 { b } else { let r = known_flags(b.drop_last()); if Flag::valid(b.last()) { r.push(b.last()) } else { r } }
}
pub broadcast proof fn lemma_flags_push(v: Seq<Flag>, x: Flag)
    ensures #[trigger] flag_bytes(v.push(x)) == flag_bytes(v).push(x.code())
{ assert(flag_bytes(v.push(x)) =~= flag_bytes(v).push(x.code())); }
impl Naptr { pub open spec fn layout() -> Ks { kc(K::U16, kc(K::U16, kc(K::Str, kc(K::Str, kc(K::Str, kc(K::Name, kn())))))) } }
impl Rec for Naptr {
    open spec fn fields(&self) -> Ws { wc(W::N16(self.order), wc(W::N16(self.preference), wc(W::B(flag_bytes(self.flags@)), wc(W::B(self.service@), wc(W::B(sbytes(self.regexp)), wc(W::L(self.replacement.ls()), wn())))))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { is_utf8(wnth(w, 4)->B_0) }
    open spec fn norm(w: Ws) -> Ws { wc(wnth(w, 0), wc(wnth(w, 1), wc(W::B(known_flags(wnth(w, 2)->B_0)), wc(wnth(w, 3), wc(wnth(w, 4), wc(wnth(w, 5), wn())))))) }
}
pub proof fn lemma_known(v: Seq<Flag>) ensures known_flags(flag_bytes(v)) == flag_bytes(v) decreases v.len()
{
    if v.len() > 0 {
        lemma_known(v.drop_last());
        assert(flag_bytes(v).drop_last() =~= flag_bytes(v.drop_last()));
        assert(flag_bytes(v.drop_last()).push(v.last().code()) =~= flag_bytes(v));
    } else { assert(flag_bytes(v) =~= Seq::<u8>::empty()); }
}
/// The values the wire form can carry
impl Naptr { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_naptr(x: Naptr, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Naptr::renc(x.fields())), p + Naptr::renc(x.fields()).len() == d.len(),
    ensures val_of::<Naptr>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 7); broadcast use axiom_string_utf8; lemma_known(x.flags@); rt_layout(Naptr::layout(), x.fields(), d, p); }
@impl Naptr::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@impl Naptr::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Naptr::TryFrom<&mut DnsBuffer>::try_from [params=buffer; loops=1]
@head
    broadcast use lemma_flags_push;
    proof { reveal_with_fuel(decs, 7); reveal_with_fuel(wnth, 7); }
@loop 1
    invariant flag_bytes(__a1@) == known_flags(__src1@.take($i as int)), $s@.len() == __src1@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == __src1@[k],
@lhead 1
    proof { assert(__src1@.take($i + 1).drop_last() =~= __src1@.take($i as int)); assert(__src1@.take($i + 1).last() == __src1@[$i as int]); }
@lafter 1
    proof { assert(__src1@.take(__src1@.len() as int) =~= __src1@); }
@fn Naptr::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 7); }
@fn Naptr::ByteConvertible::to_bytes [loops=1]
@head
    proof { reveal_with_fuel(encs, 7); }
@loop 1
    invariant $s@.len() == self.flags@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.flags@[k],
        __a1@ =~= flag_bytes(self.flags@).take($i as int),
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::hip
@spec
impl Hip {
    pub open spec fn servers(&self) -> Seq<Seq<Seq<u8>>> { match self.rendevous_server { Some(v) => names_of(v@), None => Seq::empty() } }
}
impl Rec for Hip {
    open spec fn fields(&self) -> Ws { wc(W::N8(self.public_key_algorithm.code()), wc(W::B(self.hit@), wc(W::B(self.public_key@), wc(W::N8(if self.rendevous_server is Some { 1 } else { 0 }), wc(W::NL(self.servers()), wn()))))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> {
        if p + 4 > d.len() || p + 4 + d[p] + be16(d, p + 2) > d.len() { None }
        else {
            let h = p + 4; let k = h + d[p]; let n = k + be16(d, p + 2);
            match dec_names(d, n) {
                Some(l) => Some((wc(W::N8(d[p + 1]), wc(W::B(d.subrange(h, k)), wc(W::B(d.subrange(k, n)), wc(W::N8(if n < d.len() { 1 } else { 0 }), wc(W::NL(l), wn()))))), d.len() as int)),
                None => None,
            }
        }
    }
    open spec fn renc(w: Ws) -> Seq<u8> {
        seq![wnth(w, 1)->B_0.len() as u8, wnth(w, 0)->N8_0] + enc16(wnth(w, 2)->B_0.len() as u16) + wnth(w, 1)->B_0 + wnth(w, 2)->B_0 + enc_names(wnth(w, 4)->NL_0)
    }
    open spec fn acc(w: Ws) -> bool { Algorithm::valid(wnth(w, 0)->N8_0) }
}
/// The values the wire form can carry
impl Hip { pub open spec fn rep(&self) -> bool { self.hit@.len() <= 255 && self.public_key@.len() <= 65535 && names_ok_all(self.servers()) && (self.rendevous_server is Some ==> self.servers().len() > 0) } }
pub proof fn rt_hip(x: Hip, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Hip::renc(x.fields())), p + Hip::renc(x.fields()).len() == d.len(),
    ensures val_of::<Hip>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 6); 
    let (h, k, n) = (x.hit@, x.public_key@, x.servers());
    let a = seq![h.len() as u8, x.public_key_algorithm.code()];
    let c = enc16(k.len() as u16);
    lemma_at_split(d, p, a + c + h + k, enc_names(n));
    lemma_at_split(d, p, a + c + h, k);
    lemma_at_split(d, p, a + c, h);
    lemma_at_split(d, p, a, c);
    lemma_at_byte(d, p, a, 0); lemma_at_byte(d, p, a, 1); lemma_at_16(d, p + 2, k.len() as u16);
    rt_names(d, p + 4 + h.len() + k.len(), n);
    if n.len() > 0 { lemma_enc_names_front(n); } else { assert(n =~= Seq::empty()); }
 }
@impl Hip::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@impl Hip::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Hip::TryFrom<&mut DnsBuffer>::try_from [params=buffer; muts=names; loops=1]
@head
    broadcast use {lemma_names_push, lemma_opt_pre_push};
    proof { reveal_with_fuel(wnth, 6); }
    let ghost n0: int = old(buffer).pos + 4 + old(buffer).data@[old(buffer).pos as int] + be16(old(buffer).data@, old(buffer).pos + 2);
@loop 1
    invariant buffer.wf(), old(buffer).wf(), buffer.data@ == old(buffer).data@,
        dec_names(buffer.data@, n0) == opt_pre(names_of(names@), dec_names(buffer.data@, buffer.pos as int)),
    decreases buffer.rest(),
@lhead 1
    proof { assert(names_of(Seq::<FQDN>::empty()) =~= Seq::<Seq<Seq<u8>>>::empty()); reveal_with_fuel(dec_names, 2); if name_at(buffer.data@, buffer.pos as int, buffer.pos as int) is Some { lemma_name_end(buffer.data@, buffer.pos as int, buffer.pos as int); } }
@lafter 1
    proof { assert(names_of(names@) + Seq::<Seq<Seq<u8>>>::empty() =~= names_of(names@)); }
@fn Hip::ByteConvertible::byte_size [loops=1]
@head
    proof { reveal_with_fuel(wnth, 6); }
@loop 1
    invariant $s@.len() == b@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == b@[k],
        __a1 == enc_names(names_of(b@).take($i as int)).len(), self.bc_bytes().len() <= 0x7FFF_FFFF,
@lhead 1
    proof { lemma_enc_names_step(names_of(b@), $i as int); }
@lafter 1
    proof { assert(names_of(b@).take(b@.len() as int) =~= names_of(b@)); }
@fn Hip::ByteConvertible::to_bytes [muts=buf; loops=1]
@head
    proof { reveal_with_fuel(wnth, 6); }
@loop 1
    invariant $s@.len() == rs@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == rs@[k], self.bc_bytes().len() <= 0x7FFF_FFFF, names_of(rs@) == self.servers(),
        buf@ =~= seq![self.hit@.len() as u8, self.public_key_algorithm.code()] + enc16(self.public_key@.len() as u16) + self.hit@ + self.public_key@ + enc_names(self.servers().take($i as int)),
@lhead 1
    proof { lemma_enc_names_step(self.servers(), $i as int); }
@lafter 1
    proof { assert(self.servers().take(rs@.len() as int) =~= self.servers()); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::ipseckey
@spec
impl Gateway {
    pub open spec fn gtype(&self) -> u8 { match self { Gateway::None => 0, Gateway::IpV4(_) => 1, Gateway::IpV6(_) => 2, Gateway::Domain(_) => 3 } }
    pub open spec fn gw(&self) -> W { match self { Gateway::None => W::B(Seq::empty()), Gateway::IpV4(a) => W::B(enc32(ip4(*a))), Gateway::IpV6(a) => W::B(ip6b(*a)), Gateway::Domain(n) => W::L(n.ls()) } }
    /// Known finding: a single byte stands for an absent gateway, where RFC 4025 has none
    pub open spec fn enc_gw(t: u8, w: W) -> Seq<u8> { if t == 0 { seq![46u8] } else { match w { W::B(b) => b, W::L(n) => enc_name(n), _ => Seq::empty() } } }
    pub open spec fn dec_gw(t: u8, d: Seq<u8>, p: int) -> Option<(W, int)> {
        if t == 0 { if p + 1 <= d.len() { Some((W::B(Seq::empty()), p + 1)) } else { None } }
        else if t == 1 { dec1(K::Fix(4), d, p) }
        else if t == 2 { dec1(K::Fix(16), d, p) }
        else if t == 3 { dec1(K::Name, d, p) }
        else { None }
    }
}
@impl Gateway::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Gateway::enc_gw(self.gtype(), self.gw()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Gateway::gateway_type
    ensures r == self.gtype(),
@fn Gateway::ByteConvertible::byte_size
@head
    broadcast use axiom_ip6_len;
@fn Gateway::ByteConvertible::to_bytes
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@spec
impl Rec for IpSecKey {
    open spec fn fields(&self) -> Ws { wc(W::N8(self.precedence), wc(W::N8(self.gateway.gtype()), wc(W::N8(self.algorithm.code()), wc(self.gateway.gw(), wc(W::B(self.public_key@), wn()))))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> {
        if p + 3 > d.len() { None }
        else { match Gateway::dec_gw(d[p + 1], d, p + 3) {
            Some((g, e)) => Some((wc(W::N8(d[p]), wc(W::N8(d[p + 1]), wc(W::N8(d[p + 2]), wc(g, wc(W::B(d.subrange(e, d.len() as int)), wn()))))), d.len() as int)),
            None => None,
        } }
    }
    open spec fn renc(w: Ws) -> Seq<u8> { seq![wnth(w, 0)->N8_0, wnth(w, 1)->N8_0, wnth(w, 2)->N8_0] + Gateway::enc_gw(wnth(w, 1)->N8_0, wnth(w, 3)) + wnth(w, 4)->B_0 }
    open spec fn acc(w: Ws) -> bool { Algorithm::valid(wnth(w, 2)->N8_0) }
}
/// The values the wire form can carry
impl IpSecKey { pub open spec fn rep(&self) -> bool { match self.gateway { Gateway::Domain(n) => name_ok(n.ls()), _ => true } } }
pub proof fn rt_ipseckey(x: IpSecKey, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, IpSecKey::renc(x.fields())), p + IpSecKey::renc(x.fields()).len() == d.len(),
    ensures val_of::<IpSecKey>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 6); broadcast use axiom_ip6_len;
    let a = seq![x.precedence, x.gateway.gtype(), x.algorithm.code()];
    let g = Gateway::enc_gw(x.gateway.gtype(), x.gateway.gw());
    lemma_at_split(d, p, a + g, x.public_key@);
    lemma_at_split(d, p, a, g);
    lemma_at_byte(d, p, a, 0); lemma_at_byte(d, p, a, 1); lemma_at_byte(d, p, a, 2);
    match x.gateway { Gateway::Domain(n) => { rt_name(d, p + 3, p + 3, n.ls()); } _ => { } }
 }
@impl IpSecKey::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@impl IpSecKey::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn IpSecKey::TryFrom<&mut DnsBuffer>::try_from [params=buffer]
@head
    broadcast use axiom_ip6_len;
    proof { reveal_with_fuel(wnth, 6); lemma_be32(buffer.data@, buffer.pos + 3); 
       if name_at(buffer.data@, buffer.pos + 3, buffer.pos + 3) is Some { lemma_name_end(buffer.data@, buffer.pos + 3, buffer.pos + 3); } }
@fn IpSecKey::ByteConvertible::byte_size
@head
    broadcast use axiom_ip6_len;
    proof { reveal_with_fuel(wnth, 6); }
@fn IpSecKey::ByteConvertible::to_bytes
@head
    broadcast use axiom_ip6_len;
    proof { reveal_with_fuel(wnth, 6); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::apl
@spec
/// An address part, cut or filled with zeros to the length of an address
pub open spec fn fit(b: Seq<u8>, n: nat) -> Seq<u8> { Seq::new(n, |i: int| if i < b.len() { b[i] } else { 0u8 }) }
impl Afd {
    pub open spec fn fam(&self) -> u16 { match self { Afd::IpV4(_) => 1, Afd::IpV6(_) => 2 } }
    pub open spec fn addr(&self) -> Seq<u8> { match self { Afd::IpV4(a) => enc32(ip4(*a)), Afd::IpV6(a) => ip6b(*a) } }
}
@impl Afd::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { self.addr() }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Afd::binary_family_repr
    ensures r == self.fam(),
@fn Afd::ByteConvertible::byte_size
@head
    broadcast use axiom_ip6_len;
@fn Afd::ByteConvertible::to_bytes
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@spec
impl Rec for Apl {
    open spec fn fields(&self) -> Ws { wc(W::N16(self.afd_part.fam()), wc(W::N8(self.prefix), wc(W::N8(if self.n { 1 } else { 0 }), wc(W::B(self.afd_part.addr()), wn())))) }
    /// Known finding: only the first item of the list is read
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> {
        if p + 4 > d.len() || p + 4 + d[p + 3] % 128 > d.len() { None }
        else {
            let b = d.subrange(p + 4, p + 4 + d[p + 3] % 128);
            Some((wc(W::N16(be16(d, p)), wc(W::N8(d[p + 2]), wc(W::N8(if d[p + 3] >= 128 { 1 } else { 0 }), wc(W::B(b), wn())))), p + 4 + d[p + 3] % 128))
        }
    }
    open spec fn renc(w: Ws) -> Seq<u8> { enc16(wnth(w, 0)->N16_0) + seq![wnth(w, 1)->N8_0, (if wnth(w, 2)->N8_0 == 1 { 128 + wnth(w, 3)->B_0.len() } else { wnth(w, 3)->B_0.len() }) as u8] + wnth(w, 3)->B_0 }
    open spec fn acc(w: Ws) -> bool { wnth(w, 0)->N16_0 == 1 || wnth(w, 0)->N16_0 == 2 }
    open spec fn norm(w: Ws) -> Ws { wc(wnth(w, 0), wc(wnth(w, 1), wc(wnth(w, 2), wc(W::B(fit(wnth(w, 3)->B_0, if wnth(w, 0)->N16_0 == 1 { 4 } else { 16 })), wn())))) }
}
/// The values the wire form can carry
impl Apl { pub open spec fn rep(&self) -> bool { true } }
pub proof fn rt_apl(x: Apl, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Apl::renc(x.fields())), p + Apl::renc(x.fields()).len() == d.len(),
    ensures val_of::<Apl>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 5); broadcast use axiom_ip6_len;
    let b = x.afd_part.addr();
    let c = seq![x.prefix, (if x.n { 128 + b.len() } else { b.len() }) as u8];
    lemma_at_split(d, p, enc16(x.afd_part.fam()) + c, b);
    lemma_at_split(d, p, enc16(x.afd_part.fam()), c);
    lemma_at_16(d, p, x.afd_part.fam()); lemma_at_byte(d, p + 2, c, 0); lemma_at_byte(d, p + 2, c, 1);
    assert(fit(b, b.len()) =~= b);
 }
@impl Apl::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@impl Apl::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Apl::TryFrom<&mut DnsBuffer>::try_from [params=buffer]
@head
    broadcast use axiom_ip6_len;
    proof { reveal_with_fuel(wnth, 6);
        assert(forall|x: u8| #![trigger x & 0x80] (x & 0x80 != 0) == (x >= 128)) by(bit_vector);
        assert(forall|x: u8| #![trigger x >> 7u8] x >> 7u8 == x / 128) by(bit_vector);
        assert(forall|x: u8| #![trigger x & 0x7F] x & 0x7F == x % 128) by(bit_vector); }
@tail
    proof { if __ret is Ok { assert(__ret->Ok_0.afd_part.addr() =~= wnth(Self::norm(Self::rdec(old(buffer).data@, old(buffer).pos as int)->Some_0.0), 3)->B_0); } }
@fn Apl::ByteConvertible::byte_size
@head
    broadcast use axiom_ip6_len;
    proof { reveal_with_fuel(wnth, 6); }
@fn Apl::ByteConvertible::to_bytes
@head
    broadcast use axiom_ip6_len;
    proof { reveal_with_fuel(wnth, 6);
        assert(1u8 << 7 | 4u8 == 132u8 && 0u8 << 7 | 4u8 == 4u8 && 1u8 << 7 | 16u8 == 144u8 && 0u8 << 7 | 16u8 == 16u8) by(bit_vector);
        assert(forall|x: u8| #![trigger x | 0x80] x < 128 ==> x | 0x80 == x + 128) by(bit_vector);
        assert(forall|x: u8| #![trigger 0x80u8 | x] x < 128 ==> 0x80u8 | x == x + 128) by(bit_vector);
        assert(forall|x: u8| #![trigger 0u8 | x] 0u8 | x == x) by(bit_vector); assert(forall|x: u8| #![trigger x | 0u8] x | 0u8 == x) by(bit_vector); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
