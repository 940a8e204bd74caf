// Generated by tools/gen_contracts.py
@mod rdata::ns
@spec
pub proof fn lemma_c_ok_ns(x: Ns) requires x.rep() ensures name_ok(x.nsdname.ls()) { reveal_with_fuel(oks, 2); }
/// Names that read back where they stand make the record data read back
pub proof fn lemma_c_ns(x: Ns, e: Seq<u8>, off: int)
    requires 0 <= off, x.rep(), name_at(e, off, off) == Some(x.nsdname.ls()),
    ensures val_of::<Ns>(e, off) == Some(x.fields()),
{ hide(name_at); hide(name_end); reveal_with_fuel(decs, 2);  }
@impl Ns::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { Self::renc(self.fields()).len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rep() && sfx_in(self.nsdname.ls(), u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { e.len() == off + n ==> val_of::<Ns>(e, off) == Some(self.fields()) }
@fn Ns::CompressedByteConvertible::byte_size_compressed [params=self,names,offset]
@head
    proof { reveal_with_fuel(encs, 2); }
@fn Ns::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
@head
    hide(name_at); hide(name_end); hide(sfx_in); hide(c_in); hide(val_of); hide(Ns::rep);
    proof { reveal_with_fuel(encs, 2); }
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            let off = offset as int;
            let n = __ret@.len() as int;
            lemma_c_ok_ns(*self);
            lemma_c_ns(*self, e, off);
        }
    }
@mod rdata::cname
@spec
pub proof fn lemma_c_ok_cname(x: Cname) requires x.rep() ensures name_ok(x.cname.ls()) { reveal_with_fuel(oks, 2); }
/// Names that read back where they stand make the record data read back
pub proof fn lemma_c_cname(x: Cname, e: Seq<u8>, off: int)
    requires 0 <= off, x.rep(), name_at(e, off, off) == Some(x.cname.ls()),
    ensures val_of::<Cname>(e, off) == Some(x.fields()),
{ hide(name_at); hide(name_end); reveal_with_fuel(decs, 2);  }
@impl Cname::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { Self::renc(self.fields()).len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rep() && sfx_in(self.cname.ls(), u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { e.len() == off + n ==> val_of::<Cname>(e, off) == Some(self.fields()) }
@fn Cname::CompressedByteConvertible::byte_size_compressed [params=self,names,offset]
@head
    proof { reveal_with_fuel(encs, 2); }
@fn Cname::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
@head
    hide(name_at); hide(name_end); hide(sfx_in); hide(c_in); hide(val_of); hide(Cname::rep);
    proof { reveal_with_fuel(encs, 2); }
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            let off = offset as int;
            let n = __ret@.len() as int;
            lemma_c_ok_cname(*self);
            lemma_c_cname(*self, e, off);
        }
    }
@mod rdata::ptr
@spec
pub proof fn lemma_c_ok_ptr(x: Ptr) requires x.rep() ensures name_ok(x.0.ls()) { reveal_with_fuel(oks, 2); }
/// Names that read back where they stand make the record data read back
pub proof fn lemma_c_ptr(x: Ptr, e: Seq<u8>, off: int)
    requires 0 <= off, x.rep(), name_at(e, off, off) == Some(x.0.ls()),
    ensures val_of::<Ptr>(e, off) == Some(x.fields()),
{ hide(name_at); hide(name_end); reveal_with_fuel(decs, 2);  }
@impl Ptr::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { Self::renc(self.fields()).len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rep() && sfx_in(self.0.ls(), u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { e.len() == off + n ==> val_of::<Ptr>(e, off) == Some(self.fields()) }
@fn Ptr::CompressedByteConvertible::byte_size_compressed [params=self,names,offset]
@head
    proof { reveal_with_fuel(encs, 2); }
@fn Ptr::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
@head
    hide(name_at); hide(name_end); hide(sfx_in); hide(c_in); hide(val_of); hide(Ptr::rep);
    proof { reveal_with_fuel(encs, 2); }
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            let off = offset as int;
            let n = __ret@.len() as int;
            lemma_c_ok_ptr(*self);
            lemma_c_ptr(*self, e, off);
        }
    }
@mod rdata::mx
@spec
pub proof fn lemma_c_ok_mx(x: Mx) requires x.rep() ensures name_ok(x.exchange.ls()) { reveal_with_fuel(oks, 3); }
/// Names that read back where they stand make the record data read back
pub proof fn lemma_c_mx(x: Mx, e: Seq<u8>, off: int)
    requires 0 <= off, x.rep(), at(e, off + 0, enc16(x.preference)), name_at(e, off + 2, off + 2) == Some(x.exchange.ls()),
    ensures val_of::<Mx>(e, off) == Some(x.fields()),
{ hide(name_at); hide(name_end); reveal_with_fuel(decs, 3); lemma_at_16(e, off + 0, x.preference);  }
@impl Mx::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { Self::renc(self.fields()).len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rep() && sfx_in(self.exchange.ls(), u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { e.len() == off + n ==> val_of::<Mx>(e, off) == Some(self.fields()) }
@fn Mx::CompressedByteConvertible::byte_size_compressed [params=self,names,offset]
@head
    proof { reveal_with_fuel(encs, 3); }
@fn Mx::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
@head
    hide(name_at); hide(name_end); hide(sfx_in); hide(c_in); hide(val_of); hide(Mx::rep);
    proof { reveal_with_fuel(encs, 3); }
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            let off = offset as int;
            let n = __ret@.len() as int;
            lemma_c_ok_mx(*self);
            assert(__ret@.subrange(0, 2) =~= enc16(self.preference));
            lemma_ate(e, off, __ret@, 0, 2);
            lemma_c_skip(old(names)@, e, u, off, 2);
            lemma_c_mx(*self, e, off);
        }
    }
@mod rdata::minfo
@spec
pub proof fn lemma_c_ok_minfo(x: Minfo) requires x.rep() ensures name_ok(x.rmailbx.ls()), name_ok(x.emailbx.ls()) { reveal_with_fuel(oks, 3); }
/// Names that read back where they stand make the record data read back
pub proof fn lemma_c_minfo(x: Minfo, e: Seq<u8>, off: int)
    requires 0 <= off, x.rep(), name_at(e, off, off) == Some(x.rmailbx.ls()), name_at(e, name_end(e, off), name_end(e, off)) == Some(x.emailbx.ls()),
    ensures val_of::<Minfo>(e, off) == Some(x.fields()),
{ hide(name_at); hide(name_end); reveal_with_fuel(decs, 3);   }
@impl Minfo::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { Self::renc(self.fields()).len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rep() && sfx_in(self.rmailbx.ls(), u) && sfx_in(self.emailbx.ls(), u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { e.len() == off + n ==> val_of::<Minfo>(e, off) == Some(self.fields()) }
@fn Minfo::CompressedByteConvertible::byte_size_compressed [params=self,names,offset]
@head
    proof { reveal_with_fuel(encs, 3); }
@fn Minfo::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
@head
    hide(name_at); hide(name_end); hide(sfx_in); hide(c_in); hide(val_of); hide(Minfo::rep);
    proof { reveal_with_fuel(encs, 3); }
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            let off = offset as int;
            let n = __ret@.len() as int;
            lemma_c_ok_minfo(*self);
            lemma_c_minfo(*self, e, off);
        }
    }
@mod rdata::soa
@spec
pub proof fn lemma_c_ok_soa(x: Soa) requires x.rep() ensures name_ok(x.mname.ls()), name_ok(x.rname.ls()) { reveal_with_fuel(oks, 8); }
/// Names that read back where they stand make the record data read back
pub proof fn lemma_c_soa(x: Soa, e: Seq<u8>, off: int)
    requires 0 <= off, x.rep(), name_at(e, off, off) == Some(x.mname.ls()), name_at(e, name_end(e, off), name_end(e, off)) == Some(x.rname.ls()), at(e, name_end(e, name_end(e, off)) + 0, enc32(x.serial)), at(e, name_end(e, name_end(e, off)) + 4, enc32(x.refresh)), at(e, name_end(e, name_end(e, off)) + 8, enc32(x.retry)), at(e, name_end(e, name_end(e, off)) + 12, enc32(x.expire)), at(e, name_end(e, name_end(e, off)) + 16, enc32(x.minimum)),
    ensures val_of::<Soa>(e, off) == Some(x.fields()),
{ hide(name_at); hide(name_end); reveal_with_fuel(decs, 8);   lemma_at_32(e, name_end(e, name_end(e, off)) + 0, x.serial); lemma_at_32(e, name_end(e, name_end(e, off)) + 4, x.refresh); lemma_at_32(e, name_end(e, name_end(e, off)) + 8, x.retry); lemma_at_32(e, name_end(e, name_end(e, off)) + 12, x.expire); lemma_at_32(e, name_end(e, name_end(e, off)) + 16, x.minimum); }
@impl Soa::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { Self::renc(self.fields()).len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rep() && sfx_in(self.mname.ls(), u) && sfx_in(self.rname.ls(), u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { e.len() == off + n ==> val_of::<Soa>(e, off) == Some(self.fields()) }
@fn Soa::CompressedByteConvertible::byte_size_compressed [params=self,names,offset]
@head
    proof { reveal_with_fuel(encs, 8); }
@fn Soa::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
@head
    hide(name_at); hide(name_end); hide(sfx_in); hide(c_in); hide(val_of); hide(Soa::rep);
    proof { reveal_with_fuel(encs, 8); }
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            let off = offset as int;
            let n = __ret@.len() as int;
            lemma_c_ok_soa(*self);
            assert(__ret@.subrange(n - 20, n - 20 + 4) =~= enc32(self.serial));
            lemma_ate(e, off, __ret@, n - 20, n - 20 + 4);
            assert(__ret@.subrange(n - 16, n - 16 + 4) =~= enc32(self.refresh));
            lemma_ate(e, off, __ret@, n - 16, n - 16 + 4);
            assert(__ret@.subrange(n - 12, n - 12 + 4) =~= enc32(self.retry));
            lemma_ate(e, off, __ret@, n - 12, n - 12 + 4);
            assert(__ret@.subrange(n - 8, n - 8 + 4) =~= enc32(self.expire));
            lemma_ate(e, off, __ret@, n - 8, n - 8 + 4);
            assert(__ret@.subrange(n - 4, n - 4 + 4) =~= enc32(self.minimum));
            lemma_ate(e, off, __ret@, n - 4, n - 4 + 4);
            lemma_c_skip(names@, e, u, off + n - 20, 20);
            lemma_c_soa(*self, e, off);
        }
    }
@mod rdata::srv
@spec
pub proof fn lemma_c_ok_srv(x: Srv) requires x.rep() ensures name_ok(x.target.ls()) { reveal_with_fuel(oks, 5); }
/// Names that read back where they stand make the record data read back
pub proof fn lemma_c_srv(x: Srv, e: Seq<u8>, off: int)
    requires 0 <= off, x.rep(), at(e, off + 0, enc16(x.priority)), at(e, off + 2, enc16(x.weight)), at(e, off + 4, enc16(x.port)), name_at(e, off + 6, off + 6) == Some(x.target.ls()),
    ensures val_of::<Srv>(e, off) == Some(x.fields()),
{ hide(name_at); hide(name_end); reveal_with_fuel(decs, 5); lemma_at_16(e, off + 0, x.priority); lemma_at_16(e, off + 2, x.weight); lemma_at_16(e, off + 4, x.port);  }
@impl Srv::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { Self::renc(self.fields()).len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rep() && sfx_in(self.target.ls(), u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { e.len() == off + n ==> val_of::<Srv>(e, off) == Some(self.fields()) }
@fn Srv::CompressedByteConvertible::byte_size_compressed [params=self,names,offset]
@head
    proof { reveal_with_fuel(encs, 5); }
@fn Srv::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
@head
    hide(name_at); hide(name_end); hide(sfx_in); hide(c_in); hide(val_of); hide(Srv::rep);
    proof { reveal_with_fuel(encs, 5); }
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            let off = offset as int;
            let n = __ret@.len() as int;
            lemma_c_ok_srv(*self);
            assert(__ret@.subrange(0, 2) =~= enc16(self.priority));
            lemma_ate(e, off, __ret@, 0, 2);
            assert(__ret@.subrange(2, 4) =~= enc16(self.weight));
            lemma_ate(e, off, __ret@, 2, 4);
            assert(__ret@.subrange(4, 6) =~= enc16(self.port));
            lemma_ate(e, off, __ret@, 4, 6);
            lemma_c_skip(old(names)@, e, u, off, 6);
            lemma_c_srv(*self, e, off);
        }
    }
@mod rdata
@spec
impl RecordData {
    /// The names that may be written in compressed form are in `u`
    pub open spec fn rnames(&self, u: ISet<Seq<Seq<u8>>>) -> bool {
        match *self {
            RecordData::NS(x) => sfx_in(x.nsdname.ls(), u),
            RecordData::CNAME(x) => sfx_in(x.cname.ls(), u),
            RecordData::PTR(x) => sfx_in(x.0.ls(), u),
            RecordData::MX(x) => sfx_in(x.exchange.ls(), u),
            RecordData::MINFO(x) => sfx_in(x.rmailbx.ls(), u) && sfx_in(x.emailbx.ls(), u),
            RecordData::SOA(x) => sfx_in(x.mname.ls(), u) && sfx_in(x.rname.ls(), u),
            RecordData::SRV(x) => sfx_in(x.target.ls(), u),
            RecordData::NAPTR(x) => sfx_in(x.replacement.ls(), u),
@if dnssec
            RecordData::NSEC(x) => sfx_in(x.next_domain_name.ls(), u),
@endif
            _ => true,
        }
    }
}
@impl RecordData::CompressedByteConvertible
    open spec fn c_len(&self) -> nat { self.rbytes().len() }
    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rrep() && self.rnames(u) }
    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { e.len() == off + n ==> rd_val(self.rtype(), e, off) == Some(self.rfields()) }
@fn RecordData::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]
@head
    hide(c_in); hide(sfx_in); hide(val_of);
@tail
    proof {
        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)
            implies c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int) by {
            if __ret@ == self.rbytes() && names@ == old(names)@ {
                lemma_ate(e, offset as int, __ret@, 0, __ret@.len() as int);
                assert(__ret@.subrange(0, __ret@.len() as int) =~= __ret@);
                lemma_c_skip(names@, e, u, offset as int, __ret@.len() as int);
                if e.len() == offset + __ret@.len() { rt_rdata(*self, e, offset as int); }
            }
        }
    }
