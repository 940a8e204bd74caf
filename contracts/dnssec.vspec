@if dnssec
@mod rdata::dnssec
@fn DnsKey::compute_key_tag [muts=key_tag,ac]
    requires self.bc_bytes().len() <= 65535,
    ensures r == rfc_tag(self.bc_bytes()),
@head
    let ghost kb = self.bc_bytes();
    proof {
        assert(forall|x: usize| #[trigger] (x & 1) == x % 2) by(bit_vector);
        assert(forall|x: u32| x < 256 ==> #[trigger] (x << 8) == x * 256) by(bit_vector);
        assert(forall|x: u32| #[trigger] (x >> 16) == x / 65536) by(bit_vector);
        assert(forall|x: u32| #[trigger] (x & 0xFFFF) == x % 65536) by(bit_vector);
        assert(forall|x: u32| #[trigger] (x as u16) == x % 65536) by(bit_vector);
        lemma_tag_step(kb, 0);
    }
@loop 1
    invariant $s@.len() == kb.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == kb[k],
        ac == tag_sum(kb.take($i as int)), 
@lhead 1
    proof { lemma_tag_step(kb, $i as int); lemma_tag_bound(kb.take($i + 1)); }
@lafter 1
    proof { assert(kb.take(kb.len() as int) =~= kb); lemma_tag_bound(kb); }
@alt DnsKey::compute_key_tag [muts=ac]
@head
    let ghost kb = self.bc_bytes();
    proof {
        assert(forall|x: usize| #[trigger] (x & 1) == x % 2) by(bit_vector);
        assert(forall|x: u32| x < 256 ==> #[trigger] (x << 8) == x * 256) by(bit_vector);
        assert(forall|x: u32| #[trigger] (x >> 16) == x / 65536) by(bit_vector);
        assert(forall|x: u32| #[trigger] (x & 0xFFFF) == x % 65536) by(bit_vector);
        assert(forall|x: u32| #[trigger] (x as u16) == x % 65536) by(bit_vector);
        lemma_tag_step(kb, 0);
    }
@loop 1
    invariant $s@.len() == kb.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == kb[k],
        ac == tag_sum(kb.take($i as int)), 
@lhead 1
    proof { lemma_tag_step(kb, $i as int); lemma_tag_bound(kb.take($i + 1)); }
@lafter 1
    proof { assert(kb.take(kb.len() as int) =~= kb); lemma_tag_bound(kb); }
@fn DigestType::hash_data [params=self,data]
    ensures r matches Ok(x) && x@ == dig_of(*self, data@),
@fn Ds::try_from_dnskey [params=owner_name,dnskey,digest_type; muts=digest_data]
    requires enc_name(owner_name.ls()).len() <= 0x7FFF, dnskey.bc_bytes().len() <= 65535,
    ensures r matches Ok(x) && x.key_tag == rfc_tag(dnskey.bc_bytes()) && x.algorithm == dnskey.algorithm && x.digest_type == digest_type
        && x.digest@ == dig_of(digest_type, enc_name(owner_name.ls()) + dnskey.bc_bytes()),
@tail
    proof { assert(digest_data@ =~= enc_name(owner_name.ls()) + dnskey.bc_bytes()); }
@spec
/// The digest the type names (RFC 3658, 4509, 6605): ring's function for it
pub open spec fn dig_of(t: DigestType, d: Seq<u8>) -> Seq<u8> {
    match t { DigestType::SHA1 => dig(1, d), DigestType::SHA256 => dig(256, d), DigestType::SHA384 => dig(384, d), DigestType::SHA512 => dig(512, d) }
}
@endif
