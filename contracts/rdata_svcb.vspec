@mod rdata::svcb
@spec
impl VKey for ParamKey { open spec fn vk(&self) -> int { self.code() as int } }
impl VKey for Param { open spec fn vk(&self) -> int { self.kcode() as int } }
pub open spec fn kf() -> spec_fn(ParamKey) -> u16 { |k: ParamKey| k.code() }
pub open spec fn pf() -> spec_fn(Param) -> PV { |x: Param| x.pv() }
impl Param {
    pub open spec fn kcode(self) -> u16 {
        match self { Param::Mandatory(_) => 0, Param::Alpn(_) => 1, Param::NoDefaultAlpn => 2, Param::Port(_) => 3, Param::IpV4Hint(_) => 4,
            Param::Ech(_) => 5, Param::IpV6Hint(_) => 6, Param::Private { num, bytes } => num, Param::Invalid => 65535 }
    }
    pub open spec fn value(self) -> Seq<u8> {
        match self { Param::Mandatory(k) => enc_keys(bsq(k).map_values(kf())), Param::Alpn(a) => enc_strs(bytes_of(a@)), Param::NoDefaultAlpn => Seq::empty(),
            Param::Port(x) => enc16(x), Param::IpV4Hint(a) => enc32(ip4(a)), Param::Ech(b) => b@, Param::IpV6Hint(a) => ip6b(a),
            Param::Private { num, bytes } => bytes@, Param::Invalid => Seq::empty() }
    }
    pub open spec fn pv(self) -> PV { PV { k: self.kcode(), v: self.value() } }
}
pub open spec fn km(q: Seq<ParamKey>) -> Seq<u16> { q.map_values(kf()) }
pub proof fn lemma_param_vals(d: Seq<u8>, p: int)
    requires 0 <= p,
    ensures p + 4 <= d.len() ==> enc32(be32(d, p)) == d.subrange(p, p + 4),
        p + 2 <= d.len() ==> enc16(be16(d, p)) == d.subrange(p, p + 2),
        p <= d.len() ==> d.subrange(p, p) == Seq::<u8>::empty(),
        forall|v: Seq<Vec<u8>>| v.len() == 0 ==> #[trigger] enc_strs(bytes_of(v)) == Seq::<u8>::empty(),
        forall|q: Seq<ParamKey>| q.len() == 0 ==> #[trigger] km(q) == Seq::<u16>::empty(),
{
    lemma_be32(d, p); lemma_be16(d, p);
    if p <= d.len() { assert(d.subrange(p, p) =~= Seq::<u8>::empty()); }
    assert forall|q: Seq<ParamKey>| q.len() == 0 implies #[trigger] km(q) == Seq::<u16>::empty() by { assert(km(q) =~= Seq::<u16>::empty()); }
}
/// One key of the list of mandatory keys is read
pub proof fn lemma_key_step(q: Seq<ParamKey>, d: Seq<u8>, i: int, e: int)
    ensures i < e && (i + 2 > e || !ParamKey::valid(be16(d, i))) ==> dec_keys(d, i, e, km(q)) is None,
        i + 1 == e ==> forall|x: ParamKey| dec_keys(d, i + 2, e, km(#[trigger] ins(q, x))) is None,
        i + 2 <= e && ParamKey::valid(be16(d, i)) ==> forall|x: ParamKey| x.code() == be16(d, i) ==> dec_keys(d, i, e, km(q)) == dec_keys(d, i + 2, e, km(#[trigger] ins(q, x))),
        i == e ==> dec_keys(d, i, e, km(q)) == Some(km(q)),
        i > e ==> dec_keys(d, i, e, km(q)) is None,
{
    reveal_with_fuel(dec_keys, 2);
    assert forall|x: ParamKey| km(#[trigger] ins(q, x)) == ins(km(q), x.code()) by { lemma_ins_map(q, x, kf()); }
}
/// One protocol identifier is read
pub proof fn lemma_alpn_step(v: Seq<Vec<u8>>, d: Seq<u8>, p: int, i: int, e: int)
    requires enc_strs(bytes_of(v)) == d.subrange(p, i), 0 <= p <= i,
    ensures i < e && i + 1 + d[i] > e ==> !strs_fit(d, i, e),
        i < e && i + 1 + d[i] <= e ==> strs_fit(d, i, e) == strs_fit(d, i + 1 + d[i], e),
        i >= e ==> strs_fit(d, i, e) == (i == e),
        forall|j: int| j > e ==> !(#[trigger] strs_fit(d, j, e)),
        i + 1 + d[i] <= d.len() ==> forall|x: Vec<u8>| x@ == d.subrange(i + 1, i + 1 + d[i]) ==> enc_strs(bytes_of(#[trigger] v.push(x))) == d.subrange(p, i + 1 + d[i]),
{
    reveal_with_fuel(strs_fit, 2);
    if i + 1 + d[i] <= d.len() {
        assert forall|x: Vec<u8>| x@ == d.subrange(i + 1, i + 1 + d[i]) implies enc_strs(bytes_of(#[trigger] v.push(x))) == d.subrange(p, i + 1 + d[i]) by {
            lemma_bytes_of_push(v, x);
            assert(bytes_of(v).push(x@).drop_last() =~= bytes_of(v));
            assert(d.subrange(p, i) + (seq![d[i]] + d.subrange(i + 1, i + 1 + d[i])) =~= d.subrange(p, i + 1 + d[i]));
        }
    }
}
impl Rec for Svcb {
    open spec fn fields(&self) -> Ws { wc(W::N16(self.priority), wc(W::L(self.target_name.ls()), wc(W::P(bsq(self.params).map_values(pf())), wn()))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> {
        if p + 2 > d.len() { None } else { match name_at(d, p + 2, p + 2) { None => None,
            Some(n) => match dec_params(d, name_end(d, p + 2), Seq::empty()) { None => None,
                Some(q) => Some((wc(W::N16(be16(d, p)), wc(W::L(n), wc(W::P(q), wn()))), d.len() as int)) } } }
    }
    open spec fn renc(w: Ws) -> Seq<u8> { enc16(wnth(w, 0)->N16_0) + enc_name(wnth(w, 1)->L_0) + enc_params(wnth(w, 2)->P_0) }
}
/// The parameters that can be written: keys and lengths fit, a private key is one
impl Param {
    pub open spec fn rep(self) -> bool {
        &&& self.value().len() <= 65535
        &&& match self {
            Param::Mandatory(k) => forall|i: int| 0 <= i < bsq(k).len() ==> ParamKey::valid((#[trigger] bsq(k)[i]).code()),
            Param::Alpn(a) => strs_ok_all(bytes_of(a@)),
            Param::Private { num, bytes } => 65280 <= num < 65535,
            _ => true,
        }
    }
}
pub proof fn lemma_svcb_param(x: Param)
    requires x.rep(),
    ensures pv_ok(x.pv()),
{
    broadcast use {axiom_ip6_len, axiom_bsq};
    match x {
        Param::Mandatory(k) => {
            let ks = km(bsq(k));
            assert forall|i: int, j: int| 0 <= i < j < ks.len() implies (#[trigger] ks[i]).vk() < (#[trigger] ks[j]).vk() by { assert(bsq(k)[i].vk() < bsq(k)[j].vk()); }
            assert forall|i: int| 0 <= i < ks.len() implies ParamKey::valid(#[trigger] ks[i]) by { assert(ks[i] == bsq(k)[i].code()); }
            assert(keys_ok(ks) && x.value() == enc_keys(ks));
        }
        Param::Alpn(a) => { assert(x.value() == enc_strs(bytes_of(a@))); }
        _ => { }
    }
}
/// The values the wire form can carry
impl Svcb { pub open spec fn rep(&self) -> bool { name_ok(self.target_name.ls()) && forall|i: int| 0 <= i < bsq(self.params).len() ==> (#[trigger] bsq(self.params)[i]).rep() } }
pub proof fn rt_svcb(x: Svcb, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Svcb::renc(x.fields())), p + Svcb::renc(x.fields()).len() == d.len(),
    ensures val_of::<Svcb>(d, p) == Some(x.fields()),
{
    broadcast use axiom_bsq;
    reveal_with_fuel(wnth, 4);
    let q = bsq(x.params).map_values(pf());
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).vk() < (#[trigger] q[j]).vk() by { assert(bsq(x.params)[i].vk() < bsq(x.params)[j].vk()); }
    assert forall|i: int| 0 <= i < q.len() implies pv_ok(#[trigger] q[i]) by { assert(q[i] == bsq(x.params)[i].pv()); lemma_svcb_param(bsq(x.params)[i]); }
    lemma_at_split(d, p, enc16(x.priority) + enc_name(x.target_name.ls()), enc_params(q));
    lemma_at_split(d, p, enc16(x.priority), enc_name(x.target_name.ls()));
    lemma_at_16(d, p, x.priority);
    rt_name(d, p + 2, p + 2, x.target_name.ls());
    assert(q.subrange(0, q.len() as int) =~= q); assert(q.take(0) =~= Seq::empty());
    rt_params(d, p + 2 + enc_name(x.target_name.ls()).len(), q, 0);
}
@fn Svcb::mode
    ensures r == (if self.priority == 0 { Mode::Alias } else { Mode::Service }),
@impl ParamKey::Ord
    open spec fn cmp_s(&self, o: &Self) -> Ordering { ord_i(self.vk(), o.vk()) }
@fn ParamKey::Ord::cmp
@fn Param::key
    ensures r.code() == self.kcode(),
@impl Param::Ord
    open spec fn cmp_s(&self, o: &Self) -> Ordering { ord_i(self.vk(), o.vk()) }
@fn Param::Ord::cmp
@impl Param::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool {
        &&& final(v).same(v)
        &&& match r {
            Ok(x) => dec_param(v.data@, v.pos as int) == Some(x.pv()) && final(v).pos == v.pos + 4 + be16(v.data@, v.pos + 2),
            Err(_) => dec_param(v.data@, v.pos as int) is None,
        }
    }
@fn Param::TryFrom<&mut DnsBuffer>::try_from [params=buffer; muts=keys,alpn; attr=#[verifier::loop_isolation(false)]]
@head
    hide(enc_strs); hide(strs_fit); hide(dec_keys); hide(ins); hide(enc_keys); hide(be16); hide(be32); hide(enc16); hide(enc32);
    broadcast use {axiom_bsq_empty, axiom_ip6_len};
    let ghost d = buffer.data@;
    let ghost p = buffer.pos + 4;
    let ghost e = p + be16(d, p - 2);
    proof { lemma_param_vals(d, p); }
@loop 1
    invariant buffer.wf(), buffer.data@ == d, buffer.pos >= p,
        dec_keys(d, p, e, Seq::empty()) == dec_keys(d, buffer.pos as int, e, km(bsq(keys))),
    decreases buffer.rest(),
@lhead 1
    proof { lemma_key_step(bsq(keys), d, buffer.pos as int, e); }
@lafter 1
    proof { lemma_key_step(bsq(keys), d, buffer.pos as int, e); }
@loop 2
    invariant buffer.wf(), buffer.data@ == d, buffer.pos >= p,
        strs_fit(d, p, e) == strs_fit(d, buffer.pos as int, e),
        enc_strs(bytes_of(alpn@)) == d.subrange(p, buffer.pos as int),
    decreases buffer.rest(),
@lhead 2
    proof { lemma_alpn_step(alpn@, d, p, buffer.pos as int, e); }
@lafter 2
    proof { lemma_alpn_step(alpn@, d, p, buffer.pos as int, e); }
@impl Param::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { enc_pv(self.pv()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Param::ByteConvertible::byte_size [muts=acc]
@head
    broadcast use {axiom_bs_len, axiom_ip6_len};
    proof { match self { Param::Mandatory(k) => lemma_enc_keys_len(bsq(*k).map_values(kf())), _ => {} } }
@loop 1
    invariant self is Alpn, $s@.len() == self->Alpn_0@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self->Alpn_0@[k],
        acc == enc_strs(bytes_of(self->Alpn_0@).take($i as int)).len(), self.bc_bytes().len() <= 0x7FFF_FFFF,
@lhead 1
    proof { lemma_enc_strs_step(bytes_of(self->Alpn_0@), $i as int); }
@lafter 1
    proof { assert(bytes_of(self->Alpn_0@).take(self->Alpn_0@.len() as int) =~= bytes_of(self->Alpn_0@)); }
@fn Param::ByteConvertible::to_bytes [muts=buf]
@head
    broadcast use {axiom_bs_len, axiom_ip6_len};
    let ghost pre = enc16(self.kcode()) + enc16(self.value().len() as u16);
@loop 1
    invariant self is Mandatory, $s@.len() == bsq(self->Mandatory_0).len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == bsq(self->Mandatory_0)[k],
        buf@ == pre + enc_keys(bsq(self->Mandatory_0).map_values(kf()).take($i as int)),
@lhead 1
    proof { lemma_enc_keys_step(bsq(self->Mandatory_0).map_values(kf()), $i as int); }
@lafter 1
    proof { let q = bsq(self->Mandatory_0).map_values(kf()); assert(q.take(q.len() as int) =~= q); }
@loop 2
    invariant self is Alpn, $s@.len() == self->Alpn_0@.len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == self->Alpn_0@[k],
        buf@ == pre + enc_strs(bytes_of(self->Alpn_0@).take($i as int)), self.bc_bytes().len() <= 0x7FFF_FFFF,
@lhead 2
    proof { lemma_enc_strs_step(bytes_of(self->Alpn_0@), $i as int); }
@lafter 2
    proof { assert(bytes_of(self->Alpn_0@).take(self->Alpn_0@.len() as int) =~= bytes_of(self->Alpn_0@)); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@impl Svcb::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Svcb::TryFrom<&mut DnsBuffer>::try_from [params=buffer; muts=params; attr=#[verifier::loop_isolation(false)]]
@head
    broadcast use {axiom_bsq_empty, lemma_map_empty};
    let ghost d = buffer.data@;
    let ghost p0 = name_end(d, buffer.pos + 2);
    proof { assert(d.subrange(0, d.len() as int) =~= d); }
@loop 1
    invariant buffer.wf(), buffer.data@ == d,
        dec_params(d, p0, Seq::empty()) == dec_params(d, buffer.pos as int, bsq(params).map_values(pf())),
    decreases buffer.rest(),
@lhead 1
    proof { reveal_with_fuel(dec_params, 2); let q = bsq(params);
        assert forall|x: Param| #[trigger] ins(q, x).map_values(pf()) == ins(q.map_values(pf()), x.pv()) by { lemma_ins_map(q, x, pf()); } }
@impl Svcb::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    /// KNOWN FINDING (C05): four octets too many for every parameter
    open spec fn bs_extra(&self) -> nat { 4 * bsq(self.params).len() }
@fn Svcb::ByteConvertible::byte_size [muts=sum]
@head
    proof { reveal_with_fuel(wnth, 3); lemma_enc_params_len(bsq(self.params).map_values(pf())); }
@loop 1
    invariant $s@.len() == bsq(self.params).len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == bsq(self.params)[k],
        sum == enc_params(bsq(self.params).map_values(pf()).take($i as int)).len() + 4 * $i, enc_params(bsq(self.params).map_values(pf())).len() <= 0x7FFF_FFFF,
        4 * bsq(self.params).len() <= 0x7FFF_FFFF,
@lhead 1
    proof { lemma_enc_params_step(bsq(self.params).map_values(pf()), $i as int); }
@lafter 1
    proof { let q = bsq(self.params).map_values(pf()); assert(q.take(q.len() as int) =~= q); }
@fn Svcb::ByteConvertible::to_bytes [muts=buf]
@head
    proof { reveal_with_fuel(wnth, 3); }
    let ghost pre = enc16(self.priority) + enc_name(self.target_name.ls());
@loop 1
    invariant $s@.len() == bsq(self.params).len(), forall|k: int| 0 <= k < $s@.len() ==> *$s@[k] == bsq(self.params)[k],
        buf@ == pre + enc_params(bsq(self.params).map_values(pf()).take($i as int)), enc_params(bsq(self.params).map_values(pf())).len() <= 0x7FFF_FFFF,
@lhead 1
    proof { lemma_enc_params_step(bsq(self.params).map_values(pf()), $i as int); }
@lafter 1
    proof { let q = bsq(self.params).map_values(pf()); assert(q.take(q.len() as int) =~= q); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
