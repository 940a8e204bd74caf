@mod rdata::naptr
@spec
impl Naptr {
    /// The fields before the name
    pub open spec fn fixed(&self) -> Seq<u8> { enc16(self.order) + enc16(self.preference) + enc1(K::Str, W::B(flag_bytes(self.flags@))) + enc1(K::Str, W::B(self.service@)) + enc1(K::Str, W::B(sbytes(self.regexp))) }
}
pub proof fn lemma_c_ok_naptr(x: Naptr) requires x.rep() ensures name_ok(x.replacement.ls()) { reveal_with_fuel(oks, 7); }
pub proof fn lemma_c_naptr(x: Naptr, e: Seq<u8>, off: int)
    requires 0 <= off, x.rep(), at(e, off, x.fixed()), name_at(e, off + x.fixed().len(), off + x.fixed().len()) == Some(x.replacement.ls()),
    ensures val_of::<Naptr>(e, off) == Some(x.fields()),
{
    hide(name_at); hide(name_end);
    broadcast use axiom_string_utf8;
    lemma_known(x.flags@);
    reveal_with_fuel(wnth, 7); reveal_with_fuel(decs, 7); reveal_with_fuel(oks, 7);
    let (a, b) = (enc16(x.order), enc16(x.preference));
    let (f, s, r) = (enc1(K::Str, W::B(flag_bytes(x.flags@))), enc1(K::Str, W::B(x.service@)), enc1(K::Str, W::B(sbytes(x.regexp))));
    lemma_at_split(e, off, a + b + f + s, r);
    lemma_at_split(e, off, a + b + f, s);
    lemma_at_split(e, off, a + b, f);
    lemma_at_split(e, off, a, b);
    lemma_at_16(e, off, x.order); lemma_at_16(e, off + 2, x.preference);
    rt_1(K::Str, W::B(flag_bytes(x.flags@)), e, off + 4);
    rt_1(K::Str, W::B(x.service@), e, off + 4 + f.len());
    rt_1(K::Str, W::B(sbytes(x.regexp)), e, off + 4 + f.len() + s.len());
}
@impl Naptr::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { Self::renc(self.fields()).len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rep() && sfx_in(self.replacement.ls(), u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { e.len() == off + n ==> val_of::<Naptr>(e, off) == Some(self.fields()) }
@fn Naptr::CompressedByteConvertible::byte_size_compressed [params=self,names,offset]
@head
    proof { reveal_with_fuel(encs, 7); }
@fn Naptr::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset; loops=1]
@head
    hide(name_at); hide(name_end); hide(sfx_in); hide(c_in); hide(val_of); hide(Naptr::rep);
    proof { reveal_with_fuel(encs, 7); assert(self.bc_bytes().len() <= 0x7FFF_FFFF); }
@loop 1
    invariant $s@.len() == self.flags@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.flags@[k],
        __a1@ =~= flag_bytes(self.flags@).take($i as int),
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            let (off, k) = (offset as int, self.fixed().len() as int);
            lemma_c_ok_naptr(*self);
            assert(__ret@.subrange(0, k) =~= self.fixed());
            lemma_ate(e, off, __ret@, 0, k);
            lemma_c_skip(old(names)@, e, u, off, k);
            lemma_c_naptr(*self, e, off);
        }
    }
@if dnssec
@mod rdata::dnssec
@spec
pub proof fn lemma_c_ok_nsec(x: Nsec) requires x.rep() ensures name_ok(x.next_domain_name.ls()) { reveal_with_fuel(oks, 3); }
pub proof fn lemma_c_nsec(x: Nsec, e: Seq<u8>, off: int)
    requires 0 <= off, x.rep(), name_at(e, off, off) == Some(x.next_domain_name.ls()), ({ let b = enc_bm(codes(bsq(x.types)), 256); at(e, name_end(e, off), b) && name_end(e, off) + b.len() == e.len() }),
    ensures val_of::<Nsec>(e, off) == Some(x.fields()),
{
    hide(name_at); hide(name_end);
    crate::resource::lemma_codes_valid(bsq(x.types));
    reveal_with_fuel(wnth, 3); reveal_with_fuel(decs, 3); reveal_with_fuel(oks, 3);
    rt_1(K::Bm, W::S(codes(bsq(x.types))), e, name_end(e, off));
}
/// `pre` is how this name was written
pub open spec fn c_named(ls: Seq<Seq<u8>>, m0: Map<u64, usize>, off: int, m1: Map<u64, usize>, r: Seq<u8>) -> bool {
    forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(m0, e, u, off) && ate(e, off, r) && name_ok(ls) && sfx_in(ls, u) ==> c_in(m1, e, u, off + r.len()) && name_at(e, off, off) == Some(ls) && name_end(e, off) == off + r.len()
}
pub proof fn lemma_c_nsec_all(x: Nsec, m0: Map<u64, usize>, off: int, m1: Map<u64, usize>, pre: Seq<u8>, r: Seq<u8>)
    requires c_named(x.next_domain_name.ls(), m0, off, m1, pre), r == pre + enc_bm(codes(bsq(x.types)), 256),
    ensures forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(m0, e, u, off) && ate(e, off, r) && x.c_pre(u) ==> c_in(m1, e, u, off + r.len()) && x.c_post(e, off, r.len() as int),
{
    hide(name_at); hide(name_end); hide(sfx_in); hide(c_in); hide(val_of); hide(Nsec::rep); hide(enc_bm); hide(codes);
    assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(m0, e, u, off) && ate(e, off, r) && x.c_pre(u) implies c_in(m1, e, u, off + r.len()) && x.c_post(e, off, r.len() as int) by {
        let (n, b) = (r.len() as int, enc_bm(codes(bsq(x.types)), 256));
        let k = n - b.len();
        lemma_c_ok_nsec(x);
        assert(r.subrange(k, n) =~= b);
        lemma_ate(e, off, r, k, n);
        lemma_c_skip(m1, e, u, off + k, b.len() as int);
        if e.len() == off + n { lemma_c_nsec(x, e, off); }
    }
}
@impl Nsec::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { Self::renc(self.fields()).len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rep() && sfx_in(self.next_domain_name.ls(), u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { e.len() == off + n ==> val_of::<Nsec>(e, off) == Some(self.fields()) }
@fn Nsec::CompressedByteConvertible::byte_size_compressed [params=self,names,offset; muts=byte_size,rtype_iter,block_num,last_rtype; attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(80)]]
@head
    broadcast use axiom_bsq;
    proof { reveal_with_fuel(encs, 4); crate::resource::lemma_type_codes(bsq(self.types)); }
    let ghost q = bsq(self.types);
    let ghost mut pre: nat = 0;
@lbefore 1
    proof { pre = byte_size as nat; }
@loop 1
    invariant_except_break
        bm_inv(q, rtype_iter.i as int, block_num as int), rtype_iter.i <= q.len(), rtype_iter.s@.len() == q.len(),
        forall|k: int| 0 <= k < q.len() ==> *rtype_iter.s@[k] == q[k],
        match last_rtype { Some(x) => rtype_iter.i > 0 && x == q[rtype_iter.i - 1].code(), None => rtype_iter.i == 0 },
        byte_size == pre + enc_bm(codes(q), block_num as int).len(),
        enc_bm(codes(q), block_num as int).len() <= 40 * block_num,
    ensures byte_size == pre + enc_bm(codes(q), 256).len(),
    decreases q.len() - rtype_iter.i,
@lhead 1
    proof { lemma_bm_step(q, rtype_iter.i as int, block_num as int);
        reveal_with_fuel(enc_bm, 2); }
@fn Nsec::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset; muts=buffer,block_num,block_len,block_data,rtype_iter; attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(80)]]
@head
    hide(c_named); hide(ate); hide(wo); hide(codes); hide(enc_win); hide(asc); hide(name_at); hide(name_end); hide(sfx_in); hide(c_in); hide(val_of); hide(Nsec::rep);
    broadcast use axiom_bsq;
    proof { reveal_with_fuel(encs, 4); crate::resource::lemma_type_codes(bsq(self.types)); lemma_bm_init(bsq(self.types)); }
    let ghost q = bsq(self.types);
    let ghost mut pre: Seq<u8> = Seq::empty();
@lbefore 1
    proof { pre = buffer@; reveal(c_named); reveal(ate); assert(c_named(self.next_domain_name.ls(), old(names)@, offset as int, names@, pre)); }
@loop 1
    invariant_except_break
        bm_inv(q, rtype_iter.i as int, block_num as int), rtype_iter.i <= q.len(), rtype_iter.s@.len() == q.len(),
        forall|k: int| 0 <= k < q.len() ==> *rtype_iter.s@[k] == q[k],
        block_len == bm_len(q, rtype_iter.i as int),
        forall|k: int| 0 <= k < 32 ==> block_data@[k] == wo(codes(q.take(rtype_iter.i as int)), block_num as int, k),
        buffer@ == pre + enc_bm(codes(q), block_num as int),
    ensures buffer@ == pre + enc_bm(codes(q), 256),
    decreases q.len() - rtype_iter.i,
@lhead 1
    let ghost i0 = rtype_iter.i as int;
    let ghost b0 = buffer@;
    proof { lemma_bm_step(q, i0, block_num as int);
        reveal_with_fuel(enc_bm, 2);
        assert(block_data@.subrange(0, block_len + 1) =~= Seq::new((block_len + 1) as nat, |k: int| wo(codes(q.take(i0)), block_num as int, k))); }
@tail
    proof { assert(__ret@ =~= pre + enc_bm(codes(q), 256)); lemma_c_nsec_all(*self, old(names)@, offset as int, names@, pre, __ret@); }
@endif
@mod question
@spec
pub proof fn lemma_c_question(x: Question, e: Seq<u8>, off: int)
    requires 0 <= off, name_at(e, off, off) == Some(x.q_name.ls()), at(e, name_end(e, off), enc16(x.q_type.code())), at(e, name_end(e, off) + 2, enc16(crate::resource::set_flush(x.q_class.code(), x.uni()))),
    ensures q_dec(e, off) == Some((x.qv(), name_end(e, off) + 4)),
{
    hide(name_at); hide(name_end);
    broadcast use {lemma_qt_of, lemma_qc_of};
    let p = name_end(e, off);
    let c = crate::resource::set_flush(x.q_class.code(), x.uni());
    lemma_at_16(e, p, x.q_type.code()); lemma_at_16(e, p + 2, c);
    let k = x.q_class.code();
    assert(k < 0x8000 ==> (k | 0x8000) & 0x7FFF == k && k & 0x7FFF == k && (k | 0x8000) >= 0x8000) by(bit_vector);
}
@impl Question::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { self.enc().len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { name_ok(self.q_name.ls()) && sfx_in(self.q_name.ls(), u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { q_dec(e, off) == Some((self.qv(), off + n)) }
@fn Question::CompressedByteConvertible::byte_size_compressed [params=self,names,offset]
@fn Question::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
@head
    hide(name_at); hide(name_end); hide(name_ok); hide(sfx_in); hide(c_in); hide(q_dec);
    proof { assert(1u16 << 15u16 == 0x8000u16) by(bit_vector); assert(self.q_type as u16 == self.q_type.code()); assert(self.q_class as u16 == self.q_class.code()); }
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            let (off, n) = (offset as int, __ret@.len() as int);
            assert(__ret@.subrange(n - 4, n - 2) =~= enc16(self.q_type.code()));
            assert(__ret@.subrange(n - 2, n) =~= enc16(crate::resource::set_flush(self.q_class.code(), self.uni())));
            lemma_ate(e, off, __ret@, n - 4, n - 2);
            lemma_ate(e, off, __ret@, n - 2, n);
            lemma_c_skip(names@, e, u, off + n - 4, 4);
            lemma_c_question(*self, e, off);
        }
    }
@mod resource
@spec
pub proof fn lemma_c_record(x: ResourceRecord, e: Seq<u8>, off: int, n: int)
    requires 0 <= off, x.rep(), off + n <= e.len(), name_at(e, off, off) == Some(x.a_name.ls()), ({
            let p = name_end(e, off);
            &&& at(e, p, enc16(x.a_type.code())) && at(e, p + 2, enc16(set_flush(x.a_class.code(), x.flushv()))) && at(e, p + 4, enc32(x.time_to_live)) && at(e, p + 8, enc16((off + n - p - 10) as u16))
            &&& 0 <= off + n - p - 10 <= 65535 && rd_val(x.a_type, e.subrange(0, off + n), p + 10) == Some(x.rdata.rfields())
        }),
    ensures rr_dec(e, off) == Some((x.rv(), off + n)),
{
    hide(crate::rdata::rd_val); hide(name_at); hide(name_end); hide(crate::rdata::RecordData::rbytes); hide(crate::rdata::RecordData::rrep);
    broadcast use lemma_rt_of;
    let p = name_end(e, off);
    let c = set_flush(x.a_class.code(), x.flushv());
    lemma_at_16(e, p, x.a_type.code()); lemma_at_16(e, p + 2, c); lemma_at_32(e, p + 4, x.time_to_live); lemma_at_16(e, p + 8, (off + n - p - 10) as u16);
    lemma_code_valid(x.a_type);
    let k = x.a_class.code();
    assert(k < 0x8000 ==> (k | 0x8000) & 0x7FFF == k && k & 0x7FFF == k && (k | 0x8000) >= 0x8000) by(bit_vector);
}
@impl ResourceRecord::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { self.enc().len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rep() && sfx_in(self.a_name.ls(), u) && self.rdata.rnames(u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { rr_dec(e, off) == Some((self.rv(), off + n)) }
@fn ResourceRecord::CompressedByteConvertible::byte_size_compressed [params=self,names,offset]
@fn ResourceRecord::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
@head
    hide(name_at); hide(name_end); hide(name_ok); hide(sfx_in); hide(c_in); hide(rr_dec); hide(rd_val); hide(crate::rdata::RecordData::rbytes); hide(crate::rdata::RecordData::rrep); hide(crate::rdata::RecordData::rnames);
    proof { assert(1u16 << 15u16 == 0x8000u16) by(bit_vector); assert(self.a_type as u16 == self.a_type.code()); }
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            let (off, n) = (offset as int, __ret@.len() as int);
            let e2 = e.subrange(0, off + n);
            lemma_c_cut(old(names)@, e, u, off, off + n); lemma_c_cut(names@, e, u, off + n, off + n); lemma_ate_cut(e, off, __ret@, off + n);
            assert(c_in(old(names)@, e2, u, off));
            let k = name_end(e, off) - off;
            assert(name_end(e2, off) == off + k);
            assert(__ret@.subrange(k, k + 2) =~= enc16(self.a_type.code()));
            assert(__ret@.subrange(k + 2, k + 4) =~= enc16(set_flush(self.a_class.code(), self.flushv())));
            assert(__ret@.subrange(k + 4, k + 8) =~= enc32(self.time_to_live));
            assert(__ret@.subrange(k + 8, k + 10) =~= enc16((n - k - 10) as u16));
            lemma_ate(e, off, __ret@, k, k + 2); lemma_ate(e, off, __ret@, k + 2, k + 4); lemma_ate(e, off, __ret@, k + 4, k + 8); lemma_ate(e, off, __ret@, k + 8, k + 10);
            lemma_c_skips(e2, u, off + k, 10);
            lemma_c_record(*self, e, off, n);
        }
    }
@mod header
@impl Header::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { self.bc_bytes().len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { true }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { at(e, off, self.bc_bytes()) && n == self.bc_bytes().len() }
@fn Header::CompressedByteConvertible::byte_size_compressed
@fn Header::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
@head
    hide(c_in);
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            lemma_ate(e, offset as int, __ret@, 0, __ret@.len() as int);
            assert(__ret@.subrange(0, __ret@.len() as int) =~= __ret@);
            lemma_c_skip(names@, e, u, offset as int, __ret@.len() as int);
        }
    }
@mod packet
@spec
pub open spec fn pfx(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub proof fn lemma_pfx(a: Seq<u8>, b: Seq<u8>, r: Seq<u8>) requires pfx(a, b) ensures pfx(a, b + r) { assert((b + r).take(a.len() as int) =~= b.take(a.len() as int)); }
pub proof fn lemma_pfx_refl(a: Seq<u8>) ensures pfx(a, a) { assert(a.take(a.len() as int) =~= a); }
pub proof fn lemma_ate_pfx(e: Seq<u8>, a: Seq<u8>, b: Seq<u8>) requires pfx(a, b), ate(e, 0, b) ensures ate(e, 0, a)
{ assert forall|j: int| 0 <= j < a.len() implies #[trigger] e[j] == a[j] by { assert(b.take(a.len() as int)[j] == b[j]); } }
impl Packet {
    /// All names in the message that may be written in compressed form are in `u`
    pub open spec fn names_in(&self, u: ISet<Seq<Seq<u8>>>) -> bool {
        (forall|i: int| 0 <= i < self.questions@.len() ==> sfx_in((#[trigger] self.questions@[i]).q_name.ls(), u)) && rs_in(self.answers@, u) && rs_in(self.authorities@, u) && rs_in(self.additional@, u)
    }
}
pub open spec fn rs_in(s: Seq<ResourceRecord>, u: ISet<Seq<Seq<u8>>>) -> bool { forall|i: int| 0 <= i < s.len() ==> sfx_in((#[trigger] s[i]).a_name.ls(), u) && s[i].rdata.rnames(u) }
/// A message the wire form can carry, over names with distinct hashes
pub open spec fn pk_in(x: Packet, e: Seq<u8>, u: ISet<Seq<Seq<u8>>>) -> bool { inj(u) && x.rep() && x.names_in(u) }
/// What the callee promised about one question or record
pub open spec fn c_done<T: CompressedByteConvertible>(x: T, m0: Map<u64, usize>, off: int, m1: Map<u64, usize>, r: Seq<u8>) -> bool {
    forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(m0, e, u, off) && ate(e, off, r) && x.c_pre(u) ==> c_in(m1, e, u, off + r.len()) && x.c_post(e, off, r.len() as int)
}
/// The first `i` questions of any message that begins with `b` read back
pub open spec fn c_qs(x: Packet, i: int, m: Map<u64, usize>, b: Seq<u8>) -> bool {
    forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] pk_in(x, e, u) && ate(e, 0, b) ==> c_in(m, e, u, b.len() as int) && dec_qs(e, 12, i) == Some((qvs(x.questions@.take(i)), b.len() as int))
}
/// The first `i` records of a section that begins at `p`, in any message that begins with `b`, read back
pub open spec fn c_rs(x: Packet, s: Seq<ResourceRecord>, p: int, i: int, m: Map<u64, usize>, b: Seq<u8>) -> bool {
    forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] pk_in(x, e, u) && ate(e, 0, b) ==> c_in(m, e, u, b.len() as int) && dec_rs(e, p, i) == Some((rvs(s.take(i)), b.len() as int))
}
pub proof fn lemma_c_qs_zero(x: Packet, b: Seq<u8>) requires b.len() == 12 ensures c_qs(x, 0, Map::empty(), b)
{
    hide(q_dec); hide(Packet::rep); hide(Packet::names_in);
    assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] pk_in(x, e, u) && ate(e, 0, b) implies c_in(Map::empty(), e, u, 12) && dec_qs(e, 12, 0) == Some((qvs(x.questions@.take(0)), 12int)) by {
        lemma_c_start(e, u, 12); lemma_dec_qs_zero(e, 12); assert(qvs(x.questions@.take(0)) =~= Seq::empty());
    }
}
pub proof fn lemma_c_qs_step(x: Packet, i: int, m0: Map<u64, usize>, b: Seq<u8>, m1: Map<u64, usize>, r: Seq<u8>)
    requires 0 <= i < x.questions@.len(), c_qs(x, i, m0, b), c_done(x.questions@[i], m0, b.len() as int, m1, r),
    ensures c_qs(x, i + 1, m1, b + r),
{
    hide(q_dec); hide(dec_qs); hide(c_in); hide(sfx_in); hide(name_ok);
    assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] pk_in(x, e, u) && ate(e, 0, b + r) implies c_in(m1, e, u, (b + r).len() as int) && dec_qs(e, 12, i + 1) == Some((qvs(x.questions@.take(i + 1)), (b + r).len() as int)) by {
        assert(pfx(b, b + r)) by { assert((b + r).take(b.len() as int) =~= b); }
        lemma_ate_pfx(e, b, b + r);
        assert(ate(e, b.len() as int, r));
        assert(c_in(m0, e, u, b.len() as int));
        assert(x.questions@[i].c_pre(u));
        lemma_dec_qs_step(e, 12, i);
        assert(qvs(x.questions@.take(i + 1)) =~= qvs(x.questions@.take(i)).push(x.questions@[i].qv()));
    }
}
pub proof fn lemma_c_rs_zero(x: Packet, s: Seq<ResourceRecord>, b: Seq<u8>, m: Map<u64, usize>)
    requires forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] pk_in(x, e, u) && ate(e, 0, b) ==> c_in(m, e, u, b.len() as int),
    ensures c_rs(x, s, b.len() as int, 0, m, b),
{
    hide(rr_dec); hide(pk_in); hide(ate); hide(c_in);
    assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] pk_in(x, e, u) && ate(e, 0, b) implies c_in(m, e, u, b.len() as int) && dec_rs(e, b.len() as int, 0) == Some((rvs(s.take(0)), b.len() as int)) by {
        lemma_dec_rs_zero(e, b.len() as int); assert(rvs(s.take(0)) =~= Seq::empty());
    }
}
pub proof fn lemma_c_rs_step(x: Packet, s: Seq<ResourceRecord>, p: int, i: int, m0: Map<u64, usize>, b: Seq<u8>, m1: Map<u64, usize>, r: Seq<u8>)
    requires 0 <= i < s.len(), s == x.answers@ || s == x.authorities@ || s == x.additional@, c_rs(x, s, p, i, m0, b), c_done(s[i], m0, b.len() as int, m1, r),
    ensures c_rs(x, s, p, i + 1, m1, b + r),
{
    hide(rr_dec); hide(dec_rs); hide(c_in); hide(sfx_in); hide(ResourceRecord::rep); hide(RecordData::rnames);
    assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] pk_in(x, e, u) && ate(e, 0, b + r) implies c_in(m1, e, u, (b + r).len() as int) && dec_rs(e, p, i + 1) == Some((rvs(s.take(i + 1)), (b + r).len() as int)) by {
        assert(pfx(b, b + r)) by { assert((b + r).take(b.len() as int) =~= b); }
        lemma_ate_pfx(e, b, b + r);
        assert(ate(e, b.len() as int, r));
        assert(c_in(m0, e, u, b.len() as int));
        assert(s[i].rep());
        assert(s[i].c_pre(u));
        lemma_dec_rs_step(e, p, i);
        assert(rvs(s.take(i + 1)) =~= rvs(s.take(i)).push(s[i].rv()));
    }
}
/// The four sections read back one after the other
pub proof fn lemma_c_packet(x: Packet, b0: Seq<u8>, b1: Seq<u8>, m1: Map<u64, usize>, b2: Seq<u8>, m2: Map<u64, usize>, b3: Seq<u8>, m3: Map<u64, usize>, b4: Seq<u8>, m4: Map<u64, usize>, u: ISet<Seq<Seq<u8>>>)
    requires b0 == x.hdr_bytes(), pfx(b0, b1), pfx(b1, b2), pfx(b2, b3), pfx(b3, b4),
        c_qs(x, x.questions@.len() as int, m1, b1), c_rs(x, x.answers@, b1.len() as int, x.answers@.len() as int, m2, b2),
        c_rs(x, x.authorities@, b2.len() as int, x.authorities@.len() as int, m3, b3), c_rs(x, x.additional@, b3.len() as int, x.additional@.len() as int, m4, b4),
        pk_in(x, b4, u),
    ensures pk_dec(b4, 0) == Some((x.pv(), b4.len() as int)),
{
    hide(dec_qs); hide(dec_rs); hide(rs_rep); hide(qs_rep); hide(c_in); hide(ate); hide(Packet::names_in);
    let (q, an, au, ad) = (x.questions@, x.answers@, x.authorities@, x.additional@);
    lemma_all_q(q); lemma_all_r(an); lemma_all_r(au); lemma_all_r(ad);
    assert(ate(b4, 0, b4)) by { reveal(ate); }
    lemma_ate_pfx(b4, b3, b4); lemma_ate_pfx(b4, b2, b3); lemma_ate_pfx(b4, b1, b2); lemma_ate_pfx(b4, b0, b1);
    reveal_with_fuel(encs, 7); reveal_with_fuel(oks, 7); reveal_with_fuel(has_tail, 7); reveal_with_fuel(wnth, 7);
    assert(encs(Header::layout(), x.header.fields()) =~= b0);
    assert(at(b4, 0, b0)) by { lemma_ate(b4, 0, b0, 0, 12); assert(b0.subrange(0, 12) =~= b0); }
    rt_layout(Header::layout(), x.header.fields(), b4, 0);
}
pub proof fn lemma_pfx_at(x: Packet, b0: Seq<u8>, b1: Seq<u8>, b2: Seq<u8>, b3: Seq<u8>, b4: Seq<u8>)
    requires pfx(b0, b1), pfx(b1, b2), pfx(b2, b3), pfx(b3, b4),
    ensures at(b4, 0, b0),
{
    assert(ate(b4, 0, b4));
    lemma_ate_pfx(b4, b3, b4); lemma_ate_pfx(b4, b2, b3); lemma_ate_pfx(b4, b1, b2); lemma_ate_pfx(b4, b0, b1);
    lemma_ate(b4, 0, b0, 0, b0.len() as int); assert(b0.subrange(0, b0.len() as int) =~= b0);
}
@fn Packet::to_bytes_compressed [muts=used_fqdn,bin; attr=#[verifier::loop_isolation(false)]]
    requires self.small(),
    ensures r@.len() <= self.enc().len(), at(r@, 0, self.hdr_bytes()),
        forall|u: ISet<Seq<Seq<u8>>>| #[trigger] inj(u) && self.rep() && self.names_in(u) ==> pk_dec(r@, 0) == Some((self.pv(), r@.len() as int)),
@head
    hide(enc_qs); hide(enc_rs); hide(ext_rs); hide(ResourceRecord::enc); hide(Question::enc); hide(RecordData::rbs); hide(Packet::hdr_bytes); hide(c_in); hide(c_qs); hide(c_rs); hide(c_done); hide(pfx); hide(pk_dec); hide(inj); hide(pk_in); hide(Packet::rep); hide(Packet::names_in);
    hide(Question::qv); hide(ResourceRecord::rv); hide(q_dec); hide(rr_dec); hide(sfx_in); hide(ResourceRecord::rep); hide(name_ok);
    let ghost mut b0: Seq<u8> = Seq::empty();
    let ghost mut b1: Seq<u8> = Seq::empty();
    let ghost mut b2: Seq<u8> = Seq::empty();
    let ghost mut b3: Seq<u8> = Seq::empty();
    let ghost mut m1: Map<u64, usize> = Map::empty();
    let ghost mut m2: Map<u64, usize> = Map::empty();
    let ghost mut m3: Map<u64, usize> = Map::empty();
    let ghost mut m4: Map<u64, usize> = Map::empty();
    proof { lemma_none_q(self.questions@); lemma_none_r(self.answers@); lemma_none_r(self.authorities@); lemma_none_r(self.additional@); lemma_hdr_len(*self); }
@lbefore 1
    proof {
        assert(bin@.subrange(0, 4) =~= self.header.bc_bytes().subrange(0, 4));
        assert(bin@.subrange(4, 6) =~= enc16(self.questions@.len() as u16));
        assert(bin@.subrange(6, 8) =~= enc16(self.answers@.len() as u16));
        assert(bin@.subrange(8, 10) =~= enc16(self.authorities@.len() as u16));
        assert(bin@.subrange(10, 12) =~= enc16(self.additional@.len() as u16));
        lemma_hdr_copied(*self, bin@);
        lemma_c_qs_zero(*self, bin@);
        assert(used_fqdn@ =~= Map::empty());
        lemma_pfx_refl(bin@);
    }
    proof { b0 = bin@; }
@loop 1
    invariant $s@.len() == self.questions@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.questions@[k],
        pfx(b0, bin@), c_qs(*self, $i as int, used_fqdn@, bin@),
        bin@.len() <= 12 + enc_qs(self.questions@.take($i as int)).len(),
@lhead 1
    let ghost (i0, c0, m0) = ($i as int, bin@, used_fqdn@);
    proof { lemma_enc_qs_step(self.questions@, $i as int); }
@ltail 1
    proof {
        let r = bin@.subrange(c0.len() as int, bin@.len() as int);
        reveal(c_done);
        assert(c_done(self.questions@[i0], m0, c0.len() as int, used_fqdn@, r));
        assert(bin@ =~= c0 + r);
        lemma_c_qs_step(*self, i0, m0, c0, used_fqdn@, r);
        lemma_pfx(b0, c0, r);
    }
@lafter 1
    proof { lemma_all_q(self.questions@); }
    proof { m1 = used_fqdn@; }
    proof { reveal(c_qs); }
@lbefore 2
    proof { b1 = bin@; }
    proof { lemma_pfx_refl(bin@); lemma_c_rs_zero(*self, self.answers@, b1, used_fqdn@); }
@loop 2
    invariant $s@.len() == self.answers@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.answers@[k],
        pfx(b1, bin@), c_rs(*self, self.answers@, b1.len() as int, $i as int, used_fqdn@, bin@),
        bin@.len() <= 12 + enc_qs(self.questions@).len() + enc_rs(self.answers@.take($i as int)).len(),
@lhead 2
    let ghost (i0, c0, m0) = ($i as int, bin@, used_fqdn@);
    proof { lemma_enc_rs_step(self.answers@, $i as int); }
@ltail 2
    proof {
        let r = bin@.subrange(c0.len() as int, bin@.len() as int);
        reveal(c_done);
        assert(c_done(self.answers@[i0], m0, c0.len() as int, used_fqdn@, r));
        assert(bin@ =~= c0 + r);
        lemma_c_rs_step(*self, self.answers@, b1.len() as int, i0, m0, c0, used_fqdn@, r);
        lemma_pfx(b1, c0, r);
    }
@lafter 2
    proof { lemma_all_r(self.answers@); reveal(c_rs); }
    proof { m2 = used_fqdn@; }
@lbefore 3
    proof { b2 = bin@; }
    proof { lemma_pfx_refl(bin@); lemma_c_rs_zero(*self, self.authorities@, b2, used_fqdn@); }
@loop 3
    invariant $s@.len() == self.authorities@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.authorities@[k],
        pfx(b2, bin@), c_rs(*self, self.authorities@, b2.len() as int, $i as int, used_fqdn@, bin@),
        bin@.len() <= 12 + enc_qs(self.questions@).len() + enc_rs(self.answers@).len() + enc_rs(self.authorities@.take($i as int)).len(),
@lhead 3
    let ghost (i0, c0, m0) = ($i as int, bin@, used_fqdn@);
    proof { lemma_enc_rs_step(self.authorities@, $i as int); }
@ltail 3
    proof {
        let r = bin@.subrange(c0.len() as int, bin@.len() as int);
        reveal(c_done);
        assert(c_done(self.authorities@[i0], m0, c0.len() as int, used_fqdn@, r));
        assert(bin@ =~= c0 + r);
        lemma_c_rs_step(*self, self.authorities@, b2.len() as int, i0, m0, c0, used_fqdn@, r);
        lemma_pfx(b2, c0, r);
    }
@lafter 3
    proof { lemma_all_r(self.authorities@); reveal(c_rs); }
    proof { m3 = used_fqdn@; }
@lbefore 4
    proof { b3 = bin@; }
    proof { lemma_pfx_refl(bin@); lemma_c_rs_zero(*self, self.additional@, b3, used_fqdn@); }
@loop 4
    invariant $s@.len() == self.additional@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.additional@[k],
        pfx(b3, bin@), c_rs(*self, self.additional@, b3.len() as int, $i as int, used_fqdn@, bin@),
        bin@.len() <= 12 + enc_qs(self.questions@).len() + enc_rs(self.answers@).len() + enc_rs(self.authorities@).len() + enc_rs(self.additional@.take($i as int)).len(),
@lhead 4
    let ghost (i0, c0, m0) = ($i as int, bin@, used_fqdn@);
    proof { lemma_enc_rs_step(self.additional@, $i as int); }
@ltail 4
    proof {
        let r = bin@.subrange(c0.len() as int, bin@.len() as int);
        reveal(c_done);
        assert(c_done(self.additional@[i0], m0, c0.len() as int, used_fqdn@, r));
        assert(bin@ =~= c0 + r);
        lemma_c_rs_step(*self, self.additional@, b3.len() as int, i0, m0, c0, used_fqdn@, r);
        lemma_pfx(b3, c0, r);
    }
@lafter 4
    proof { lemma_all_r(self.additional@); reveal(c_rs); }
    proof { m4 = used_fqdn@; }
@tail
    proof {
        assert forall|u: ISet<Seq<Seq<u8>>>| #[trigger] inj(u) && self.rep() && self.names_in(u) implies pk_dec(__ret@, 0) == Some((self.pv(), __ret@.len() as int)) by {
            assert(pk_in(*self, __ret@, u)) by { reveal(pk_in); }
            lemma_c_packet(*self, b0, b1, m1, b2, m2, b3, m3, __ret@, m4, u);
        }
        lemma_pfx_at(*self, b0, b1, b2, b3, __ret@);
    }
