// GENERATED by tools/gen_contracts.py
@mod rdata::a
@spec
impl A { pub open spec fn layout() -> Ks { kc(K::U32, kn()) } }
impl Rec for A {
    open spec fn fields(&self) -> Ws { wc(W::N32(ip4(self.0)), wn()) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl A { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_a(x: A, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, A::renc(x.fields())), p + A::renc(x.fields()).len() == d.len(),
    ensures val_of::<A>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 2); rt_layout(A::layout(), x.fields(), d, p); }
@impl A::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn A::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 2); }
@impl A::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn A::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 2); }
@fn A::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 2); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::aaaa
@spec
impl Aaaa { pub open spec fn layout() -> Ks { kc(K::Fix(16), kn()) } }
impl Rec for Aaaa {
    open spec fn fields(&self) -> Ws { wc(W::B(ip6b(self.0)), wn()) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Aaaa { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_aaaa(x: Aaaa, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Aaaa::renc(x.fields())), p + Aaaa::renc(x.fields()).len() == d.len(),
    ensures val_of::<Aaaa>(d, p) == Some(x.fields()),
{ broadcast use axiom_ip6_len; reveal_with_fuel(wnth, 2); rt_layout(Aaaa::layout(), x.fields(), d, p); }
@impl Aaaa::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Aaaa::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { broadcast use axiom_ip6_len; reveal_with_fuel(decs, 2); }
@impl Aaaa::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Aaaa::ByteConvertible::byte_size
@head
    proof { broadcast use axiom_ip6_len; reveal_with_fuel(encs, 2); }
@fn Aaaa::ByteConvertible::to_bytes
@head
    proof { broadcast use axiom_ip6_len; reveal_with_fuel(encs, 2); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::cname
@spec
impl Cname { pub open spec fn layout() -> Ks { kc(K::Name, kn()) } }
impl Rec for Cname {
    open spec fn fields(&self) -> Ws { wc(W::L(self.cname.ls()), wn()) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Cname { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_cname(x: Cname, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Cname::renc(x.fields())), p + Cname::renc(x.fields()).len() == d.len(),
    ensures val_of::<Cname>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 2); rt_layout(Cname::layout(), x.fields(), d, p); }
@impl Cname::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Cname::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 2); }
@impl Cname::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Cname::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 2); }
@fn Cname::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 2); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::ns
@spec
impl Ns { pub open spec fn layout() -> Ks { kc(K::Name, kn()) } }
impl Rec for Ns {
    open spec fn fields(&self) -> Ws { wc(W::L(self.nsdname.ls()), wn()) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Ns { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_ns(x: Ns, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Ns::renc(x.fields())), p + Ns::renc(x.fields()).len() == d.len(),
    ensures val_of::<Ns>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 2); rt_layout(Ns::layout(), x.fields(), d, p); }
@impl Ns::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Ns::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 2); }
@impl Ns::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Ns::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 2); }
@fn Ns::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 2); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::ptr
@spec
impl Ptr { pub open spec fn layout() -> Ks { kc(K::Name, kn()) } }
impl Rec for Ptr {
    open spec fn fields(&self) -> Ws { wc(W::L(self.0.ls()), wn()) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Ptr { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_ptr(x: Ptr, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Ptr::renc(x.fields())), p + Ptr::renc(x.fields()).len() == d.len(),
    ensures val_of::<Ptr>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 2); rt_layout(Ptr::layout(), x.fields(), d, p); }
@impl Ptr::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Ptr::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 2); }
@impl Ptr::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Ptr::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 2); }
@fn Ptr::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 2); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::mx
@spec
impl Mx { pub open spec fn layout() -> Ks { kc(K::U16, kc(K::Name, kn())) } }
impl Rec for Mx {
    open spec fn fields(&self) -> Ws { wc(W::N16(self.preference), wc(W::L(self.exchange.ls()), wn())) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Mx { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_mx(x: Mx, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Mx::renc(x.fields())), p + Mx::renc(x.fields()).len() == d.len(),
    ensures val_of::<Mx>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 3); rt_layout(Mx::layout(), x.fields(), d, p); }
@impl Mx::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Mx::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 3); }
@impl Mx::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Mx::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 3); }
@fn Mx::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 3); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::minfo
@spec
impl Minfo { pub open spec fn layout() -> Ks { kc(K::Name, kc(K::Name, kn())) } }
impl Rec for Minfo {
    open spec fn fields(&self) -> Ws { wc(W::L(self.rmailbx.ls()), wc(W::L(self.emailbx.ls()), wn())) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Minfo { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_minfo(x: Minfo, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Minfo::renc(x.fields())), p + Minfo::renc(x.fields()).len() == d.len(),
    ensures val_of::<Minfo>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 3); rt_layout(Minfo::layout(), x.fields(), d, p); }
@impl Minfo::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Minfo::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 3); }
@impl Minfo::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Minfo::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 3); }
@fn Minfo::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 3); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::hinfo
@spec
impl Hinfo { pub open spec fn layout() -> Ks { kc(K::Str, kc(K::Str, kn())) } }
impl Rec for Hinfo {
    open spec fn fields(&self) -> Ws { wc(W::B(self.cpu@), wc(W::B(self.os@), wn())) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Hinfo { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_hinfo(x: Hinfo, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Hinfo::renc(x.fields())), p + Hinfo::renc(x.fields()).len() == d.len(),
    ensures val_of::<Hinfo>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 3); rt_layout(Hinfo::layout(), x.fields(), d, p); }
@impl Hinfo::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Hinfo::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 3); }
@impl Hinfo::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Hinfo::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 3); }
@fn Hinfo::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 3); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::soa
@spec
impl Soa { pub open spec fn layout() -> Ks { kc(K::Name, kc(K::Name, kc(K::U32, kc(K::U32, kc(K::U32, kc(K::U32, kc(K::U32, kn()))))))) } }
impl Rec for Soa {
    open spec fn fields(&self) -> Ws { wc(W::L(self.mname.ls()), wc(W::L(self.rname.ls()), wc(W::N32(self.serial), wc(W::N32(self.refresh), wc(W::N32(self.retry), wc(W::N32(self.expire), wc(W::N32(self.minimum), wn()))))))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Soa { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_soa(x: Soa, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Soa::renc(x.fields())), p + Soa::renc(x.fields()).len() == d.len(),
    ensures val_of::<Soa>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 8); rt_layout(Soa::layout(), x.fields(), d, p); }
@impl Soa::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Soa::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 8); }
@impl Soa::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Soa::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 8); }
@fn Soa::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 8); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::srv
@spec
impl Srv { pub open spec fn layout() -> Ks { kc(K::U16, kc(K::U16, kc(K::U16, kc(K::Name, kn())))) } }
impl Rec for Srv {
    open spec fn fields(&self) -> Ws { wc(W::N16(self.priority), wc(W::N16(self.weight), wc(W::N16(self.port), wc(W::L(self.target.ls()), wn())))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Srv { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_srv(x: Srv, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Srv::renc(x.fields())), p + Srv::renc(x.fields()).len() == d.len(),
    ensures val_of::<Srv>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 5); rt_layout(Srv::layout(), x.fields(), d, p); }
@impl Srv::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Srv::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 5); }
@impl Srv::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Srv::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 5); }
@fn Srv::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 5); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::uri
@spec
impl Uri { pub open spec fn layout() -> Ks { kc(K::U16, kc(K::U16, kc(K::Rest, kn()))) } }
impl Rec for Uri {
    open spec fn fields(&self) -> Ws { wc(W::N16(self.priority), wc(W::N16(self.weight), wc(W::B(self.target@), wn()))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Uri { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_uri(x: Uri, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Uri::renc(x.fields())), p + Uri::renc(x.fields()).len() == d.len(),
    ensures val_of::<Uri>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 4); rt_layout(Uri::layout(), x.fields(), d, p); }
@impl Uri::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Uri::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 4); }
@impl Uri::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Uri::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 4); }
@fn Uri::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 4); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::null
@spec
impl Null { pub open spec fn layout() -> Ks { kc(K::Rest, kn()) } }
impl Rec for Null {
    open spec fn fields(&self) -> Ws { wc(W::B(self.anything@), wn()) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Null { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_null(x: Null, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Null::renc(x.fields())), p + Null::renc(x.fields()).len() == d.len(),
    ensures val_of::<Null>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 2); rt_layout(Null::layout(), x.fields(), d, p); }
@impl Null::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Null::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 2); }
@impl Null::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Null::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 2); }
@fn Null::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 2); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::openpgpkey
@spec
impl OpenPgpKey { pub open spec fn layout() -> Ks { kc(K::Rest, kn()) } }
impl Rec for OpenPgpKey {
    open spec fn fields(&self) -> Ws { wc(W::B(self.0@), wn()) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl OpenPgpKey { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_openpgpkey(x: OpenPgpKey, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, OpenPgpKey::renc(x.fields())), p + OpenPgpKey::renc(x.fields()).len() == d.len(),
    ensures val_of::<OpenPgpKey>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 2); rt_layout(OpenPgpKey::layout(), x.fields(), d, p); }
@impl OpenPgpKey::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn OpenPgpKey::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 2); }
@impl OpenPgpKey::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn OpenPgpKey::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 2); }
@fn OpenPgpKey::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 2); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::eui48
@spec
impl Eui48 { pub open spec fn layout() -> Ks { kc(K::Fix(6), kn()) } }
impl Rec for Eui48 {
    open spec fn fields(&self) -> Ws { wc(W::B(self.0@), wn()) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Eui48 { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_eui48(x: Eui48, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Eui48::renc(x.fields())), p + Eui48::renc(x.fields()).len() == d.len(),
    ensures val_of::<Eui48>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 2); rt_layout(Eui48::layout(), x.fields(), d, p); }
@impl Eui48::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Eui48::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 2); }
@impl Eui48::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Eui48::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 2); }
@fn Eui48::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 2); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::eui64
@spec
impl Eui64 { pub open spec fn layout() -> Ks { kc(K::Fix(8), kn()) } }
impl Rec for Eui64 {
    open spec fn fields(&self) -> Ws { wc(W::B(self.0@), wn()) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Eui64 { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_eui64(x: Eui64, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Eui64::renc(x.fields())), p + Eui64::renc(x.fields()).len() == d.len(),
    ensures val_of::<Eui64>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 2); rt_layout(Eui64::layout(), x.fields(), d, p); }
@impl Eui64::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Eui64::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 2); }
@impl Eui64::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Eui64::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 2); }
@fn Eui64::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 2); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::loc
@spec
impl Loc { pub open spec fn layout() -> Ks { kc(K::U8, kc(K::U8, kc(K::U8, kc(K::U8, kc(K::U32, kc(K::U32, kc(K::U32, kn()))))))) } }
impl Rec for Loc {
    open spec fn fields(&self) -> Ws { wc(W::N8(self.version), wc(W::N8(self.size), wc(W::N8(self.horiz_pre), wc(W::N8(self.vert_pre), wc(W::N32(self.latitude), wc(W::N32(self.longitude), wc(W::N32(self.altitude), wn()))))))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Loc { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_loc(x: Loc, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Loc::renc(x.fields())), p + Loc::renc(x.fields()).len() == d.len(),
    ensures val_of::<Loc>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 8); rt_layout(Loc::layout(), x.fields(), d, p); }
@impl Loc::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Loc::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 8); }
@impl Loc::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Loc::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 8); }
@fn Loc::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 8); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::wks
@spec
impl Wks { pub open spec fn layout() -> Ks { kc(K::U32, kc(K::U8, kc(K::Rest, kn()))) } }
impl Rec for Wks {
    open spec fn fields(&self) -> Ws { wc(W::N32(ip4(self.address)), wc(W::N8(self.protocol), wc(W::B(self.bitmap@), wn()))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
}
/// The values the wire form can carry
impl Wks { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_wks(x: Wks, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Wks::renc(x.fields())), p + Wks::renc(x.fields()).len() == d.len(),
    ensures val_of::<Wks>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 4); rt_layout(Wks::layout(), x.fields(), d, p); }
@impl Wks::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Wks::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 4); }
@impl Wks::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Wks::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 4); }
@fn Wks::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 4); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::sshfp
@spec
impl Sshfp { pub open spec fn layout() -> Ks { kc(K::U8, kc(K::U8, kc(K::Rest, kn()))) } }
impl Rec for Sshfp {
    open spec fn fields(&self) -> Ws { wc(W::N8(self.algorithm.code()), wc(W::N8(self.fingerprint_type.code()), wc(W::B(self.fingerprint@), wn()))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { (match wnth(w, 0) { W::N8(x) => Algorithm::valid(x), _ => false }) && (match wnth(w, 1) { W::N8(x) => FingerprintType::valid(x), _ => false }) }
}
/// The values the wire form can carry
impl Sshfp { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_sshfp(x: Sshfp, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Sshfp::renc(x.fields())), p + Sshfp::renc(x.fields()).len() == d.len(),
    ensures val_of::<Sshfp>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 4); rt_layout(Sshfp::layout(), x.fields(), d, p); }
@impl Sshfp::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Sshfp::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 4); reveal_with_fuel(wnth, 4); }
@impl Sshfp::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Sshfp::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 4); }
@fn Sshfp::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 4); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::tlsa
@spec
impl Tlsa { pub open spec fn layout() -> Ks { kc(K::U8, kc(K::U8, kc(K::U8, kc(K::Rest, kn())))) } }
impl Rec for Tlsa {
    open spec fn fields(&self) -> Ws { wc(W::N8(self.cert_usage.code()), wc(W::N8(self.selector.code()), wc(W::N8(self.matching_type.code()), wc(W::B(self.associated_data@), wn())))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { (match wnth(w, 0) { W::N8(x) => CertUsage::valid(x), _ => false }) && (match wnth(w, 1) { W::N8(x) => Selector::valid(x), _ => false }) && (match wnth(w, 2) { W::N8(x) => MatchingType::valid(x), _ => false }) }
}
/// The values the wire form can carry
impl Tlsa { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_tlsa(x: Tlsa, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Tlsa::renc(x.fields())), p + Tlsa::renc(x.fields()).len() == d.len(),
    ensures val_of::<Tlsa>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 5); rt_layout(Tlsa::layout(), x.fields(), d, p); }
@impl Tlsa::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Tlsa::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 5); reveal_with_fuel(wnth, 5); }
@impl Tlsa::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Tlsa::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 5); }
@fn Tlsa::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 5); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::dhcid
@spec
impl Dhcid { pub open spec fn layout() -> Ks { kc(K::U16, kc(K::U8, kc(K::Rest, kn()))) } }
impl Rec for Dhcid {
    open spec fn fields(&self) -> Ws { wc(W::N16(self.identifier_code.code()), wc(W::N8(1), wc(W::B(self.digest@), wn()))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { (match wnth(w, 0) { W::N16(x) => IdentifierType::valid(x), _ => false }) && (match wnth(w, 1) { W::N8(x) => is_one(x), _ => false }) }
}
/// The values the wire form can carry
impl Dhcid { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_dhcid(x: Dhcid, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Dhcid::renc(x.fields())), p + Dhcid::renc(x.fields()).len() == d.len(),
    ensures val_of::<Dhcid>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 4); rt_layout(Dhcid::layout(), x.fields(), d, p); }
@impl Dhcid::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Dhcid::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 4); reveal_with_fuel(wnth, 4); }
@impl Dhcid::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Dhcid::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 4); }
@fn Dhcid::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 4); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@mod rdata::tkey
@spec
impl Tkey { pub open spec fn layout() -> Ks { kc(K::Name, kc(K::U32, kc(K::U32, kc(K::U16, kc(K::U16, kc(K::Blob16, kc(K::Blob16, kn()))))))) } }
impl Rec for Tkey {
    open spec fn fields(&self) -> Ws { wc(W::L(self.algorithm.ls()), wc(W::N32(self.inception), wc(W::N32(self.expiration), wc(W::N16(self.mode.code()), wc(W::N16(self.error.code()), wc(W::B(self.key_data@), wc(W::B(self.other_data@), wn()))))))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { (match wnth(w, 3) { W::N16(x) => Mode::valid(x), _ => false }) && (match wnth(w, 4) { W::N16(x) => Error::valid(x), _ => false }) }
}
/// The values the wire form can carry
impl Tkey { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) && Mode::valid(self.mode.code()) && Error::valid(self.error.code()) } }
pub proof fn rt_tkey(x: Tkey, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Tkey::renc(x.fields())), p + Tkey::renc(x.fields()).len() == d.len(),
    ensures val_of::<Tkey>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 8); rt_layout(Tkey::layout(), x.fields(), d, p); }
@impl Tkey::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Tkey::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 8); reveal_with_fuel(wnth, 8); }
@impl Tkey::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Tkey::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 8); }
@fn Tkey::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 8); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@if dnssec
@mod rdata::dnssec
@spec
impl Ds { pub open spec fn layout() -> Ks { kc(K::U16, kc(K::U8, kc(K::U8, kc(K::Rest, kn())))) } }
impl Rec for Ds {
    open spec fn fields(&self) -> Ws { wc(W::N16(self.key_tag), wc(W::N8(self.algorithm.code()), wc(W::N8(self.digest_type.code()), wc(W::B(self.digest@), wn())))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { (match wnth(w, 1) { W::N8(x) => Algorithm::valid(x), _ => false }) && (match wnth(w, 2) { W::N8(x) => DigestType::valid(x), _ => false }) }
}
/// The values the wire form can carry
impl Ds { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_ds(x: Ds, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Ds::renc(x.fields())), p + Ds::renc(x.fields()).len() == d.len(),
    ensures val_of::<Ds>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 5); rt_layout(Ds::layout(), x.fields(), d, p); }
@impl Ds::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Ds::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 5); reveal_with_fuel(wnth, 5); }
@impl Ds::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Ds::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 5); }
@fn Ds::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 5); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@endif
@if dnssec
@mod rdata::dnssec
@spec
impl Rrsig { pub open spec fn layout() -> Ks { kc(K::U16, kc(K::U8, kc(K::U8, kc(K::U32, kc(K::U32, kc(K::U32, kc(K::U16, kc(K::Name, kc(K::Rest, kn()))))))))) } }
impl Rec for Rrsig {
    open spec fn fields(&self) -> Ws { wc(W::N16(self.type_covered.code()), wc(W::N8(self.algorithm.code()), wc(W::N8(self.labels), wc(W::N32(self.original_ttl), wc(W::N32(self.sig_expiration), wc(W::N32(self.sig_inception), wc(W::N16(self.key_tag), wc(W::L(self.signers_name.ls()), wc(W::B(self.signature@), wn()))))))))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { (match wnth(w, 0) { W::N16(x) => crate::resource::RecordType::valid(x), _ => false }) && (match wnth(w, 1) { W::N8(x) => Algorithm::valid(x), _ => false }) }
}
/// The values the wire form can carry
impl Rrsig { pub open spec fn rep(&self) -> bool { oks(Self::layout(), self.fields()) } }
pub proof fn rt_rrsig(x: Rrsig, d: Seq<u8>, p: int)
    requires x.rep(), at(d, p, Rrsig::renc(x.fields())), p + Rrsig::renc(x.fields()).len() == d.len(),
    ensures val_of::<Rrsig>(d, p) == Some(x.fields()),
{ reveal_with_fuel(wnth, 10); rt_layout(Rrsig::layout(), x.fields(), d, p); }
@impl Rrsig::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }
@fn Rrsig::TryFrom<&mut DnsBuffer>::try_from
@head
    proof { reveal_with_fuel(decs, 10); reveal_with_fuel(wnth, 10); }
@impl Rrsig::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn Rrsig::ByteConvertible::byte_size
@head
    proof { reveal_with_fuel(encs, 10); }
@fn Rrsig::ByteConvertible::to_bytes
@head
    proof { reveal_with_fuel(encs, 10); }
@tail
    proof { assert(__ret@ =~= self.bc_bytes()); }
@endif
