@mod fqdn
@spec
impl FQDN {
    pub open spec fn ls(&self) -> Seq<Seq<u8>> { bytes_of(self.data@) }
}
@impl FQDN::From<Vec<Vec<u8>>>
    open spec fn f_pre(v: Vec<Vec<u8>>) -> bool { true }
    open spec fn f_post(v: Vec<Vec<u8>>, r: Self) -> bool { r.data@ == v@ }
@fn FQDN::From<Vec<Vec<u8>>>::from
@fn FQDN::is_empty
    ensures r == (self.data@.len() == 0),
@impl FQDN::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool {
        &&& final(v).same(v)
        &&& match r {
            Ok(f) => name_at(v.data@, v.pos as int, v.pos as int) == Some(f.ls()) && final(v).pos == name_end(v.data@, v.pos as int),
            Err(_) => name_at(v.data@, v.pos as int, v.pos as int) is None,
        }
    }
@fn FQDN::TryFrom<&mut DnsBuffer>::try_from
@impl FQDN::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { enc_name(self.ls()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn FQDN::ByteConvertible::byte_size [muts=acc]
@lbefore 1
    let ghost a0 = acc;
@loop 1
    invariant $s@.len() == self.data@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.data@[k],
        acc == a0 + enc_labels(self.ls().take($i as int)).len(), self.bc_bytes().len() <= 0x7FFF_FFFF,
@lhead 1
    proof { lemma_enc_labels_step(self.ls(), $i as int); }
@lafter 1
    proof { assert(self.ls().take(self.ls().len() as int) =~= self.ls()); }
@fn FQDN::ByteConvertible::to_bytes [muts=buffer]
@loop 1
    invariant $s@.len() == self.data@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self.data@[k],
        buffer@ == enc_labels(self.ls().take($i as int)), self.bc_bytes().len() <= 0x7FFF_FFFF,
@lhead 1
    proof { lemma_enc_labels_step(self.ls(), $i as int); }
@lafter 1
    proof { assert(self.ls().take(self.ls().len() as int) =~= self.ls()); }
@fn FQDN::len
    requires self.bc_bytes().len() <= 0x7FFF_FFFF,
    ensures r == enc_name(self.ls()).len(),
@fn FQDN::label_count
    ensures r == self.data@.len() as u8,
@impl FQDN::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { enc_name(self.ls()).len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { name_ok(self.ls()) && sfx_in(self.ls(), u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { name_at(e, off, off) == Some(self.ls()) && name_end(e, off) == off + n }
@fn FQDN::CompressedByteConvertible::byte_size_compressed [params=self,names,offset; muts=size; attr=#[verifier::loop_isolation(false)]]
@head
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost ls = self.ls();
    let ghost off0 = offset as int;
@loop 1
    invariant $i <= $n, size == enc_labels(ls.take($i as int)).len(), offset == off0 + size,
@lhead 1
    proof { lemma_enc_labels_step(ls, $i as int); }
@lafter 1
    proof { assert(ls.take(ls.len() as int) =~= ls); }
@fn FQDN::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset; muts=buffer; attr=#[verifier::loop_isolation(false)]]
@head
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost (off0, ls) = (offset as int, self.ls());
    proof { lemma_masks(); }
@loop 1
    invariant $i <= $n, buffer@ == enc_labels(ls.take($i as int)), offset == off0 + buffer@.len(), c_ent(ls, old(names)@, names@, off0, $i as int),
@lhead 1
    proof {
        lemma_enc_labels_step(ls, $i as int); lemma_c_step(ls, old(names)@, names@, off0, $i as int);
        assert(bytes_of(self.data@.subrange($i as int, self.data@.len() as int)) =~= suf(ls, $i as int));
    }
@lafter 1
    proof { assert(ls.take(ls.len() as int) =~= ls); }
@tail
    proof { let n = ls.len() as int; assert(suf(ls, n).len() == 0); let i = choose|i: int| c_at(ls, old(names)@, off0, names@, __ret@, i) && #[trigger] suf(ls, i).len() == n - i; lemma_c_name(ls, old(names)@, off0, names@, __ret@, i); }
@mod util
@trusted hash_fqdn
    ensures r == hsh(bytes_of(fqdn@)),
