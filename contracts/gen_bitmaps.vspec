@mod resource
@spec
impl VKey for RecordType { open spec fn vk(&self) -> int { self.code() as int } }
pub proof fn lemma_type_codes(q: Seq<RecordType>) ensures forall|i: int| 0 <= i < q.len() ==> 0 <= (#[trigger] q[i]).vk() <= 257 { }
pub open spec fn all_valid(s: ISet<u16>) -> bool { forall|c: u16| #[trigger] s.contains(c) ==> RecordType::valid(c) }
pub proof fn lemma_all_valid() ensures all_valid(ISet::empty()) { }
/// One bit of a window is read
pub proof fn lemma_bm_bit(q: Seq<RecordType>, s0: ISet<u16>, d: Seq<u8>, p: int, n: int)
    requires bm_part(codes(q), s0, d, p, n), all_valid(codes(q)), 0 <= n < 8 * d[p + 1], d[p + 1] <= 32, 0 <= p, p + 2 + d[p + 1] <= d.len(),
    ensures !obit(d[p + 2 + n / 8], n % 8) ==> bm_part(codes(q), s0, d, p, n + 1),
        obit(d[p + 2 + n / 8], n % 8) ==> {
            let c = (256 * d[p] + n) as u16;
            &&& forall|x: RecordType| x.code() == c ==> bm_part(codes(#[trigger] ins(q, x)), s0, d, p, n + 1) && all_valid(codes(ins(q, x)))
            &&& !RecordType::valid(c) ==> match dec_bm(d, p, s0) { Some(r) => !all_valid(r), None => true }
        },
{
    hide(RecordType::valid); hide(codes);
    let c = (256 * d[p] + n) as u16;
    lemma_win_step(d, p, n);
    if obit(d[p + 2 + n / 8], n % 8) {
        assert forall|x: RecordType| x.code() == c implies bm_part(codes(#[trigger] ins(q, x)), s0, d, p, n + 1) && all_valid(codes(ins(q, x))) by {
            lemma_codes_ins(q, x); lemma_code_valid(x);
            assert(codes(ins(q, x)) =~= s0.union(win(d, p, n + 1)));
        }
        lemma_dec_bm_mono(d, p + 2 + d[p + 1], s0.union(win(d, p, 256)));
        assert(win(d, p, n + 1).contains(c));
        assert(win(d, p, 256).contains(c));
        if let Some(r) = dec_bm(d, p, s0) { assert(r.contains(c)); }
    }
}
pub proof fn lemma_code_valid(x: RecordType) ensures RecordType::valid(x.code()) { }
pub proof fn lemma_codes_valid(q: Seq<RecordType>) ensures all_valid(codes(q))
{ assert forall|c: u16| #[trigger] codes(q).contains(c) implies RecordType::valid(c) by { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).vk() == c; lemma_code_valid(q[i]); } }
@mod rdata::csync
@spec
use crate::resource::{all_valid, lemma_all_valid, lemma_bm_bit};
impl Csync { pub open spec fn layout() -> Ks { kc(K::U32, kc(K::U16, kc(K::Bm, kn()))) } }
impl Rec for Csync {
    open spec fn fields(&self) -> Ws { wc(W::N32(self.soa_serial), wc(W::N16(self.flags.0), wc(W::S(codes(bsq(self.types))), wn()))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { wnth(w, 1)->N16_0 & 0xFFFC == 0 && all_valid(wnth(w, 2)->S_0) }
}
/// The values the wire form can carry
impl Csync { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) && self.flags.0 & 0xFFFC == 0 } }
pub proof fn rt_csync(x: Csync, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Csync::renc(x.fields())), p + Csync::renc(x.fields()).len() == d.len(),
    ensures val_of::<Csync>(d, p) == Some(x.fields()),
{ crate::resource::lemma_codes_valid(bsq(x.types)); reveal_with_fuel(wnth, 4); rt_layout(Csync::layout(), x.fields(), d, p); }
@impl Flags::TryFrom<u16>
    #[verifier::prophetic] open spec fn tf_pre(v: u16) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u16, r: Result<Self, DnsError>) -> bool { match r { Ok(f) => f.0 == v && v & 0xFFFC == 0, Err(_) => v & 0xFFFC != 0 } }
@fn Flags::TryFrom<u16>::try_from
@head
    proof { assert(forall|x: u16| #![trigger x & 0xFFFC] (x & 0xFFFC == 0) == (x <= 3)) by(bit_vector); }
@impl u16::From<Flags>
    open spec fn f_pre(v: Flags) -> bool { true }
    open spec fn f_post(v: Flags, r: u16) -> bool { r == v.0 }
@fn u16::From<Flags>::from
@fn Flags::immediate
    ensures r == (self.0 & 1 != 0),
@fn Flags::soa_minimum
    ensures r == (self.0 & 2 != 0),
@fn Flags::set_immediate [params=self,active]
    ensures final(self).0 == if active { old(self).0 | 1 } else { old(self).0 & !1u16 },
@fn Flags::set_soa_minimum [params=self,active]
    ensures final(self).0 == if active { old(self).0 | 2 } else { old(self).0 & !2u16 },

@impl Csync::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Csync::TryFrom<&mut DnsBuffer>::try_from [params=buffer; muts=types; attr=#[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(80)]]
@head
    hide(codes); hide(bm_part); hide(all_valid); hide(win); hide(dec_bm);
    broadcast use {axiom_bsq_empty, lemma_codes_empty};
    proof { reveal_with_fuel(decs, 4); reveal_with_fuel(wnth, 4); lemma_shift8(); lemma_all_valid(); }
    let ghost d = buffer.data@;
@loop 1
    invariant buffer.wf(), buffer.data@ == d, all_valid(codes(bsq(types))),
        dec_bm(d, old(buffer).pos + 6, ISet::empty()) == dec_bm(d, buffer.pos as int, codes(bsq(types))),
    decreases buffer.rest(),
@lhead 1
    proof { reveal_with_fuel(dec_bm, 2); }
    let ghost p = buffer.pos as int;
    let ghost s0 = codes(bsq(types));
    proof { if d[p + 1] <= 32 { lemma_bm_part(s0, d, p); } }
@lafter 1
    proof { reveal_with_fuel(dec_bm, 2); }
@loop 2
    invariant
        all_valid(codes(bsq(types))), bm_part(codes(bsq(types)), s0, d, p, 8 * $i),
@loop 3
    invariant $n == 8, $i <= 8,
        all_valid(codes(bsq(types))), bm_part(codes(bsq(types)), s0, d, p, 8 * (__i2 - 1) + $i),
@lhead 3
    proof { lemma_bm_bit(bsq(types), s0, d, p, 8 * (__i2 - 1) + $i); lemma_shift8(); }
@impl Csync::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Csync::ByteConvertible::byte_size [muts=byte_size,rtype_iter,block_num,last_rtype; attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(80)]]
@head
    broadcast use axiom_bsq;
    proof { reveal_with_fuel(encs, 4); crate::resource::lemma_type_codes(bsq(self.types)); }
    let ghost q = bsq(self.types);
    let ghost pre = enc32(self.soa_serial) + enc16(self.flags.0);
@loop 1
    invariant_except_break
        bm_inv(q, rtype_iter.i as int, block_num as int), rtype_iter.i <= q.len(), rtype_iter.s@.len() == q.len(),
        forall|k: int| 0 <= k < q.len() ==> *rtype_iter.s@[k] == q[k],
        match last_rtype { Some(x) => rtype_iter.i > 0 && x == q[rtype_iter.i - 1].code(), None => rtype_iter.i == 0 },
        byte_size == pre.len() + enc_bm(codes(q), block_num as int).len(),
        enc_bm(codes(q), block_num as int).len() <= 40 * block_num,
    ensures byte_size == pre.len() + enc_bm(codes(q), 256).len(),
    decreases q.len() - rtype_iter.i,
@lhead 1
    proof { lemma_bm_step(q, rtype_iter.i as int, block_num as int);
        reveal_with_fuel(enc_bm, 2); }
@fn Csync::ByteConvertible::to_bytes [muts=buffer,block_num,block_len,block_data,rtype_iter; attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(80)]]
@head
    hide(wo); hide(codes); hide(enc_win); hide(asc);
    broadcast use axiom_bsq;
    proof { reveal_with_fuel(encs, 4); crate::resource::lemma_type_codes(bsq(self.types)); lemma_bm_init(bsq(self.types)); }
    let ghost q = bsq(self.types);
    let ghost pre = enc32(self.soa_serial) + enc16(self.flags.0);
@loop 1
    invariant_except_break
        bm_inv(q, rtype_iter.i as int, block_num as int), rtype_iter.i <= q.len(), rtype_iter.s@.len() == q.len(),
        forall|k: int| 0 <= k < q.len() ==> *rtype_iter.s@[k] == q[k],
        block_len == bm_len(q, rtype_iter.i as int),
        forall|k: int| 0 <= k < 32 ==> block_data@[k] == wo(codes(q.take(rtype_iter.i as int)), block_num as int, k),
        buffer@ == pre + enc_bm(codes(q), block_num as int),
    ensures buffer@ == pre + enc_bm(codes(q), 256),
    decreases q.len() - rtype_iter.i,
@lhead 1
    let ghost i0 = rtype_iter.i as int;
    let ghost b0 = buffer@;
    proof { lemma_bm_step(q, i0, block_num as int);
        reveal_with_fuel(enc_bm, 2);
        assert(block_data@.subrange(0, block_len + 1) =~= Seq::new((block_len + 1) as nat, |k: int| wo(codes(q.take(i0)), block_num as int, k))); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@if dnssec
@mod rdata::dnssec
@spec
use crate::resource::{all_valid, lemma_all_valid, lemma_bm_bit};
impl Nsec { pub open spec fn layout() -> Ks { kc(K::Name, kc(K::Bm, kn())) } }
impl Rec for Nsec {
    open spec fn fields(&self) -> Ws { wc(W::L(self.next_domain_name.ls()), wc(W::S(codes(bsq(self.types))), wn())) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { all_valid(wnth(w, 1)->S_0) }
}
/// The values the wire form can carry
impl Nsec { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_nsec(x: Nsec, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Nsec::renc(x.fields())), p + Nsec::renc(x.fields()).len() == d.len(),
    ensures val_of::<Nsec>(d, p) == Some(x.fields()),
{ crate::resource::lemma_codes_valid(bsq(x.types)); reveal_with_fuel(wnth, 3); rt_layout(Nsec::layout(), x.fields(), d, p); }

@impl Nsec::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Nsec::TryFrom<&mut DnsBuffer>::try_from [params=buffer; muts=types; attr=#[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(80)]]
@head
    hide(codes); hide(bm_part); hide(all_valid); hide(win); hide(dec_bm);
    broadcast use {axiom_bsq_empty, lemma_codes_empty};
    proof { reveal_with_fuel(decs, 4); reveal_with_fuel(wnth, 4); lemma_shift8(); lemma_all_valid(); }
    let ghost d = buffer.data@;
@loop 1
    invariant buffer.wf(), buffer.data@ == d, all_valid(codes(bsq(types))),
        dec_bm(d, name_end(buffer.data@, old(buffer).pos as int), ISet::empty()) == dec_bm(d, buffer.pos as int, codes(bsq(types))),
    decreases buffer.rest(),
@lhead 1
    proof { reveal_with_fuel(dec_bm, 2); }
    let ghost p = buffer.pos as int;
    let ghost s0 = codes(bsq(types));
    proof { if d[p + 1] <= 32 { lemma_bm_part(s0, d, p); } }
@lafter 1
    proof { reveal_with_fuel(dec_bm, 2); }
@loop 2
    invariant
        all_valid(codes(bsq(types))), bm_part(codes(bsq(types)), s0, d, p, 8 * $i),
@loop 3
    invariant $n == 8, $i <= 8,
        all_valid(codes(bsq(types))), bm_part(codes(bsq(types)), s0, d, p, 8 * (__i2 - 1) + $i),
@lhead 3
    proof { lemma_bm_bit(bsq(types), s0, d, p, 8 * (__i2 - 1) + $i); lemma_shift8(); }
@impl Nsec::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Nsec::ByteConvertible::byte_size [muts=byte_size,rtype_iter,block_num,last_rtype; attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(80)]]
@head
    broadcast use axiom_bsq;
    proof { reveal_with_fuel(encs, 4); crate::resource::lemma_type_codes(bsq(self.types)); }
    let ghost q = bsq(self.types);
    let ghost pre = enc_name(self.next_domain_name.ls());
@loop 1
    invariant_except_break
        bm_inv(q, rtype_iter.i as int, block_num as int), rtype_iter.i <= q.len(), rtype_iter.s@.len() == q.len(),
        forall|k: int| 0 <= k < q.len() ==> *rtype_iter.s@[k] == q[k],
        match last_rtype { Some(x) => rtype_iter.i > 0 && x == q[rtype_iter.i - 1].code(), None => rtype_iter.i == 0 },
        byte_size == pre.len() + enc_bm(codes(q), block_num as int).len(),
        enc_bm(codes(q), block_num as int).len() <= 40 * block_num,
    ensures byte_size == pre.len() + enc_bm(codes(q), 256).len(),
    decreases q.len() - rtype_iter.i,
@lhead 1
    proof { lemma_bm_step(q, rtype_iter.i as int, block_num as int);
        reveal_with_fuel(enc_bm, 2); }
@fn Nsec::ByteConvertible::to_bytes [muts=buffer,block_num,block_len,block_data,rtype_iter; attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(80)]]
@head
    hide(wo); hide(codes); hide(enc_win); hide(asc);
    broadcast use axiom_bsq;
    proof { reveal_with_fuel(encs, 4); crate::resource::lemma_type_codes(bsq(self.types)); lemma_bm_init(bsq(self.types)); }
    let ghost q = bsq(self.types);
    let ghost pre = enc_name(self.next_domain_name.ls());
@loop 1
    invariant_except_break
        bm_inv(q, rtype_iter.i as int, block_num as int), rtype_iter.i <= q.len(), rtype_iter.s@.len() == q.len(),
        forall|k: int| 0 <= k < q.len() ==> *rtype_iter.s@[k] == q[k],
        block_len == bm_len(q, rtype_iter.i as int),
        forall|k: int| 0 <= k < 32 ==> block_data@[k] == wo(codes(q.take(rtype_iter.i as int)), block_num as int, k),
        buffer@ == pre + enc_bm(codes(q), block_num as int),
    ensures buffer@ == pre + enc_bm(codes(q), 256),
    decreases q.len() - rtype_iter.i,
@lhead 1
    let ghost i0 = rtype_iter.i as int;
    let ghost b0 = buffer@;
    proof { lemma_bm_step(q, i0, block_num as int);
        reveal_with_fuel(enc_bm, 2);
        assert(block_data@.subrange(0, block_len + 1) =~= Seq::new((block_len + 1) as nat, |k: int| wo(codes(q.take(i0)), block_num as int, k))); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@endif
