@mod rdata::opt
@spec
impl Rec for Opt {
    open spec fn fields(&self) -> Ws { wc(W::M(optmap(self.0@)), wn()) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { match dec_opts(d, p, Map::empty()) { Some(m) => Some((wc(W::M(m), wn()), d.len() as int)), None => None } }
    /// The wire form depends on the order in which the map is iterated
    uninterp spec fn renc(w: Ws) -> Seq<u8>;
}
/// The values the wire form can carry
impl Opt { pub open spec fn rep(&self) -> bool { opts_ok(opt_of(hm_seq(self.0))) } }
pub proof fn rt_opt(x: Opt, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, enc_opts(opt_of(hm_seq(x.0)))), p + enc_opts(opt_of(hm_seq(x.0))).len() == d.len(),
    ensures val_of::<Opt>(d, p) == Some(x.fields()),
{ axiom_hm_seq(x.0); rt_optmap(d, p, hm_seq(x.0), x.0@); }
@impl Opt::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Opt::TryFrom<&mut DnsBuffer>::try_from [params=buffer; muts=this]
@head
    broadcast use {lemma_optmap_insert, vstd::std_specs::hash::group_hash_axioms};
    proof { assert(optmap(Map::<u16, Vec<u8>>::empty()) =~= Map::<u16, Seq<u8>>::empty()); }
@loop 1
    invariant buffer.wf(), old(buffer).wf(), buffer.data@ == old(buffer).data@,
        dec_opts(buffer.data@, old(buffer).pos as int, Map::empty()) == dec_opts(buffer.data@, buffer.pos as int, optmap(this.0@)),
    decreases buffer.rest(),
@lhead 1
    proof { reveal_with_fuel(dec_opts, 2); }
@impl Opt::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { enc_opts(opt_of(hm_seq(self.0))) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Opt::ByteConvertible::byte_size [muts=acc]
@loop 1
    invariant $s@.len() == hm_seq(self.0).len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == hm_seq(self.0)[k],
        acc == enc_opts(opt_of(hm_seq(self.0)).take($i as int)).len(), self.bc_bytes().len() <= 0x7FFF_FFFF,
@lhead 1
    proof { lemma_enc_opts_step(opt_of(hm_seq(self.0)), $i as int); }
@lafter 1
    proof { assert(opt_of(hm_seq(self.0)).take(hm_seq(self.0).len() as int) =~= opt_of(hm_seq(self.0))); }
@fn Opt::ByteConvertible::to_bytes [muts=buff]
@loop 1
    invariant $s@.len() == hm_seq(self.0).len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == hm_seq(self.0)[k],
        buff@ == enc_opts(opt_of(hm_seq(self.0)).take($i as int)), self.bc_bytes().len() <= 0x7FFF_FFFF,
@lhead 1
    proof { lemma_enc_opts_step(opt_of(hm_seq(self.0)), $i as int); }
@lafter 1
    proof { assert(opt_of(hm_seq(self.0)).take(hm_seq(self.0).len() as int) =~= opt_of(hm_seq(self.0))); }
