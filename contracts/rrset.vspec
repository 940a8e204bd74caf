@mod resource_record_set
@spec
use crate::rdata::RecordData as RD; use crate::rdata::lemma_rbs;
pub open spec fn rbs_of(s: Seq<&RD>) -> Seq<Seq<u8>> { s.map_values(|x: &RD| x.rbytes()) }
/// What byte_size may count too much (0 but for the known finding in SVCB)
pub open spec fn set_ext(s: Seq<&RD>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { set_ext(s.drop_last()) + s.last().rbs() } }
pub proof fn lemma_set_ext_step(s: Seq<&RD>, i: int)
    requires 0 <= i < s.len(),
    ensures set_ext(s.take(i + 1)) == set_ext(s.take(i)) + s[i].rbs(), rbs_of(s.take(i + 1)) == rbs_of(s.take(i)).push(s[i].rbytes()),
        set_ext(s.take(0)) == 0, rbs_of(s.take(0)).len() == 0, s[i].rbs() <= s[i].rbytes().len(),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(rbs_of(s.take(i + 1)) =~= rbs_of(s.take(i)).push(s[i].rbytes())); lemma_rbs(*s[i]); }
impl<'a> ResourceRecordSet<'a> {
    /// Owner name, type, class and TTL as they stand before every record
    pub open spec fn pre(&self) -> Seq<u8> { enc_name(self.name.ls()) + enc16(self.set_type.code()) + enc16(self.set_class.code()) + enc32(self.ttl) }
    pub open spec fn sorted(&self) -> Seq<Seq<u8>> { rbs_of(self.records@).sort_by(lexle_f()) }
}
@fn ResourceRecordSet::new [params=name,set_type,set_class,ttl,records]
    ensures r.name == name, r.set_type == set_type, r.set_class == set_class, r.ttl == ttl, r.records == records,
@fn ResourceRecordSet::name
    ensures r == self.name,
@fn ResourceRecordSet::set_type
    ensures r == self.set_type,
@fn ResourceRecordSet::set_class
    ensures r == self.set_class,
@fn ResourceRecordSet::ttl
    ensures r == self.ttl,
@fn ResourceRecordSet::records
    ensures r@ == self.records@,
@fn ResourceRecordSet::canonical_reorder [params=self]
    requires forall|i: int| 0 <= i < old(self).records@.len() ==> (#[trigger] old(self).records@[i]).rbytes().len() <= 0x7FFF_FFFF,
    ensures final(self).name == old(self).name, final(self).set_type == old(self).set_type, final(self).set_class == old(self).set_class, final(self).ttl == old(self).ttl,
        final(self).records@.to_multiset() == old(self).records@.to_multiset(),
        rbs_of(final(self).records@) == rbs_of(old(self).records@).sort_by(lexle_f()),
@head
    hide(crate::rdata::RecordData::rbytes);
    let ghost r0 = self.records@;
    proof { assert forall|i: int| 0 <= i < r0.len() implies (#[trigger] r0[i]).rbs() <= r0[i].rbytes().len() by { lemma_rbs(*r0[i]); } }
@loop 1
    invariant self.records@ == r0, $s@.len() == r0.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == r0[k],
        bytes_of(__a1@) =~= rbs_of(r0).take($i as int),
@tail
    proof { lemma_set_sorted_with(r0, rbs_of(r0), self.records@, |x: &RD| x.rbytes()); }
@lafter 1
    proof { assert(rbs_of(r0).take(r0.len() as int) =~= rbs_of(r0)); }
@impl ResourceRecordSet::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { enc_set(self.pre(), self.sorted()) }
    open spec fn bs_extra(&self) -> nat { set_ext(self.records@) }
    open spec fn bc_pre(&self) -> bool { enc_name(self.name.ls()).len() <= 0x7FFF_FFFF }
@fn ResourceRecordSet::ByteConvertible::byte_size [muts=acc]
@head
    hide(crate::rdata::RecordData::rbytes); hide(crate::rdata::RecordData::rbs); hide(enc_name);
    proof { lemma_set_sorted(rbs_of(self.records@)); lemma_set_total(self.pre(), rbs_of(self.records@), self.sorted()); lemma_set_enc_len(self.pre(), self.sorted()); }
@loop 1
    invariant $s@.len() == self.records@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.records@[k],
        acc == set_total(self.pre().len(), rbs_of(self.records@.take($i as int))) + set_ext(self.records@.take($i as int)),
        set_ext(self.records@.take($i as int)) <= set_total(self.pre().len(), rbs_of(self.records@.take($i as int))),
@lhead 1
    proof { lemma_set_ext_step(self.records@, $i as int); lemma_set_total_step(self.pre().len(), rbs_of(self.records@), $i as int); assert(rbs_of(self.records@.take($i as int)) =~= rbs_of(self.records@).take($i as int)); assert(rbs_of(self.records@)[$i as int] == self.records@[$i as int].rbytes()); assert(rbs_of(self.records@.take($i + 1)) =~= rbs_of(self.records@).take($i + 1)); }
@lafter 1
    proof { assert(self.records@.take(self.records@.len() as int) =~= self.records@); }
@fn ResourceRecordSet::ByteConvertible::to_bytes [muts=binary_records,sig_size,binary]
@head
    hide(crate::rdata::RecordData::rbytes); hide(crate::rdata::RecordData::rbs); hide(enc_name);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let ghost (rb, pre) = (rbs_of(self.records@), self.pre());
    proof { lemma_set_sorted(rb); lemma_set_total(pre, rb, self.sorted()); lemma_set_enc_len(pre, self.sorted()); }
@loop 1
    invariant $s@.len() == self.records@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.records@[k],
        sorted_lex(bytes_of(binary_records@)), bytes_of(binary_records@).to_multiset() == rb.take($i as int).to_multiset(),
        sig_size == set_total(pre.len(), rb.take($i as int)),
@lhead 1
    proof { lemma_set_ext_step(self.records@, $i as int); lemma_set_total_step(pre.len(), rb, $i as int); assert(rb.take($i + 1) =~= rb.take($i as int).push(rb[$i as int])); assert(rb[$i as int] == self.records@[$i as int].rbytes());  }
    let ghost br0 = binary_records@;
@ltail 1
    proof { lemma_set_insert(br0, binary_records@, pos as int, bin); }
@lafter 1
    proof { assert(rb.take(rb.len() as int) =~= rb); lemma_set_unique(bytes_of(binary_records@), rb); }
@loop 2
    invariant $s@.len() == binary_records@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == binary_records@[k], bytes_of(binary_records@) == self.sorted(),
        binary@ == enc_set(pre, self.sorted().take($i as int)),
@lhead 2
    proof { lemma_set_enc_step(pre, self.sorted(), $i as int); assert(bytes_of(binary_records@)[$i as int] == binary_records@[$i as int]@); }
@lafter 2
    proof { assert(self.sorted().take(self.sorted().len() as int) =~= self.sorted()); }
@ltail 2
    proof { assert(binary@ =~= enc_set(pre, self.sorted().take($i as int))); }
@spec
/// The order in which the records are given does not matter
pub proof fn lemma_set_order_independent(a: ResourceRecordSet, b: ResourceRecordSet)
    requires a.name.ls() == b.name.ls(), a.set_type.code() == b.set_type.code(), a.set_class.code() == b.set_class.code(), a.ttl == b.ttl,
        rbs_of(a.records@).to_multiset() == rbs_of(b.records@).to_multiset(),
    ensures a.bc_bytes() == b.bc_bytes(),
{ lemma_set_sorted(rbs_of(a.records@)); lemma_set_unique(a.sorted(), rbs_of(b.records@)); }
