@mod rdata
@trait RData
    spec fn rt(&self) -> RecordType;
    spec fn ird(self) -> RecordData;
@fn RData::record_type
    ensures r == self.rt(),
@fn RData::into_record_data
    ensures r == self.ird(),
@spec
impl RecordData {
    /// The record type this data belongs to
    pub open spec fn rtype(&self) -> RecordType {
        match *self {
            RecordData::A(_) => RecordType::A,
            RecordData::NS(_) => RecordType::NS,
            RecordData::CNAME(_) => RecordType::CNAME,
            RecordData::SOA(_) => RecordType::SOA,
            RecordData::NULL(_) => RecordType::NULL,
            RecordData::WKS(_) => RecordType::WKS,
            RecordData::PTR(_) => RecordType::PTR,
            RecordData::HINFO(_) => RecordType::HINFO,
            RecordData::MINFO(_) => RecordType::MINFO,
            RecordData::MX(_) => RecordType::MX,
            RecordData::TXT(_) => RecordType::TXT,
            RecordData::AAAA(_) => RecordType::AAAA,
            RecordData::LOC(_) => RecordType::LOC,
            RecordData::SRV(_) => RecordType::SRV,
            RecordData::NAPTR(_) => RecordType::NAPTR,
            RecordData::OPT(_) => RecordType::OPT,
            RecordData::APL(_) => RecordType::APL,
@if dnssec
            RecordData::DS(_) => RecordType::DS,
@endif
            RecordData::SSHFP(_) => RecordType::SSHFP,
            RecordData::IPSECKEY(_) => RecordType::IPSECKEY,
@if dnssec
            RecordData::RRSIG(_) => RecordType::RRSIG,
@endif
@if dnssec
            RecordData::NSEC(_) => RecordType::NSEC,
@endif
@if dnssec
            RecordData::DNSKEY(_) => RecordType::DNSKEY,
@endif
            RecordData::DHCID(_) => RecordType::DHCID,
            RecordData::TLSA(_) => RecordType::TLSA,
            RecordData::HIP(_) => RecordType::HIP,
@if dnssec
            RecordData::CDS(_) => RecordType::CDS,
@endif
@if dnssec
            RecordData::CDNSKEY(_) => RecordType::CDNSKEY,
@endif
            RecordData::OPENPGPKEY(_) => RecordType::OPENPGPKEY,
            RecordData::CSYNC(_) => RecordType::CSYNC,
            RecordData::SVCB(_) => RecordType::SVCB,
            RecordData::EUI48(_) => RecordType::EUI48,
            RecordData::EUI64(_) => RecordType::EUI64,
            RecordData::TKEY(_) => RecordType::TKEY,
            RecordData::TSIG(_) => RecordType::TSIG,
            RecordData::URI(_) => RecordType::URI,
            RecordData::CAA(_) => RecordType::CAA,
        }
    }
    pub open spec fn rfields(&self) -> Ws {
        match *self {
            RecordData::A(x) => x.fields(),
            RecordData::NS(x) => x.fields(),
            RecordData::CNAME(x) => x.fields(),
            RecordData::SOA(x) => x.fields(),
            RecordData::NULL(x) => x.fields(),
            RecordData::WKS(x) => x.fields(),
            RecordData::PTR(x) => x.fields(),
            RecordData::HINFO(x) => x.fields(),
            RecordData::MINFO(x) => x.fields(),
            RecordData::MX(x) => x.fields(),
            RecordData::TXT(x) => x.fields(),
            RecordData::AAAA(x) => x.fields(),
            RecordData::LOC(x) => x.fields(),
            RecordData::SRV(x) => x.fields(),
            RecordData::NAPTR(x) => x.fields(),
            RecordData::OPT(x) => x.fields(),
            RecordData::APL(x) => x.fields(),
@if dnssec
            RecordData::DS(x) => x.fields(),
@endif
            RecordData::SSHFP(x) => x.fields(),
            RecordData::IPSECKEY(x) => x.fields(),
@if dnssec
            RecordData::RRSIG(x) => x.fields(),
@endif
@if dnssec
            RecordData::NSEC(x) => x.fields(),
@endif
@if dnssec
            RecordData::DNSKEY(x) => x.fields(),
@endif
            RecordData::DHCID(x) => x.fields(),
            RecordData::TLSA(x) => x.fields(),
            RecordData::HIP(x) => x.fields(),
@if dnssec
            RecordData::CDS(x) => x.fields(),
@endif
@if dnssec
            RecordData::CDNSKEY(x) => x.fields(),
@endif
            RecordData::OPENPGPKEY(x) => x.fields(),
            RecordData::CSYNC(x) => x.fields(),
            RecordData::SVCB(x) => x.fields(),
            RecordData::EUI48(x) => x.fields(),
            RecordData::EUI64(x) => x.fields(),
            RecordData::TKEY(x) => x.fields(),
            RecordData::TSIG(x) => x.fields(),
            RecordData::URI(x) => x.fields(),
            RecordData::CAA(x) => x.fields(),
        }
    }
    pub open spec fn rbytes(&self) -> Seq<u8> {
        match *self {
            RecordData::A(x) => A::renc(x.fields()),
            RecordData::NS(x) => Ns::renc(x.fields()),
            RecordData::CNAME(x) => Cname::renc(x.fields()),
            RecordData::SOA(x) => Soa::renc(x.fields()),
            RecordData::NULL(x) => Null::renc(x.fields()),
            RecordData::WKS(x) => Wks::renc(x.fields()),
            RecordData::PTR(x) => Ptr::renc(x.fields()),
            RecordData::HINFO(x) => Hinfo::renc(x.fields()),
            RecordData::MINFO(x) => Minfo::renc(x.fields()),
            RecordData::MX(x) => Mx::renc(x.fields()),
            RecordData::TXT(x) => Txt::renc(x.fields()),
            RecordData::AAAA(x) => Aaaa::renc(x.fields()),
            RecordData::LOC(x) => Loc::renc(x.fields()),
            RecordData::SRV(x) => Srv::renc(x.fields()),
            RecordData::NAPTR(x) => Naptr::renc(x.fields()),
            RecordData::OPT(x) => enc_opts(opt_of(hm_seq(x.0))),
            RecordData::APL(x) => Apl::renc(x.fields()),
@if dnssec
            RecordData::DS(x) => Ds::renc(x.fields()),
@endif
            RecordData::SSHFP(x) => Sshfp::renc(x.fields()),
            RecordData::IPSECKEY(x) => IpSecKey::renc(x.fields()),
@if dnssec
            RecordData::RRSIG(x) => Rrsig::renc(x.fields()),
@endif
@if dnssec
            RecordData::NSEC(x) => Nsec::renc(x.fields()),
@endif
@if dnssec
            RecordData::DNSKEY(x) => DnsKey::renc(x.fields()),
@endif
            RecordData::DHCID(x) => Dhcid::renc(x.fields()),
            RecordData::TLSA(x) => Tlsa::renc(x.fields()),
            RecordData::HIP(x) => Hip::renc(x.fields()),
@if dnssec
            RecordData::CDS(x) => Ds::renc(x.fields()),
@endif
@if dnssec
            RecordData::CDNSKEY(x) => DnsKey::renc(x.fields()),
@endif
            RecordData::OPENPGPKEY(x) => OpenPgpKey::renc(x.fields()),
            RecordData::CSYNC(x) => Csync::renc(x.fields()),
            RecordData::SVCB(x) => Svcb::renc(x.fields()),
            RecordData::EUI48(x) => Eui48::renc(x.fields()),
            RecordData::EUI64(x) => Eui64::renc(x.fields()),
            RecordData::TKEY(x) => Tkey::renc(x.fields()),
            RecordData::TSIG(x) => Tsig::renc(x.fields()),
            RecordData::URI(x) => Uri::renc(x.fields()),
            RecordData::CAA(x) => Caa::renc(x.fields()),
        }
    }
    pub open spec fn rbs(&self) -> nat {
        match *self {
            RecordData::SVCB(x) => 4 * bsq(x.params).len(),
            _ => 0,
        }
    }
    /// The values the wire form can carry
    pub open spec fn rrep(&self) -> bool {
        match *self {
            RecordData::A(x) => x.rep(),
            RecordData::NS(x) => x.rep(),
            RecordData::CNAME(x) => x.rep(),
            RecordData::SOA(x) => x.rep(),
            RecordData::NULL(x) => x.rep(),
            RecordData::WKS(x) => x.rep(),
            RecordData::PTR(x) => x.rep(),
            RecordData::HINFO(x) => x.rep(),
            RecordData::MINFO(x) => x.rep(),
            RecordData::MX(x) => x.rep(),
            RecordData::TXT(x) => x.rep(),
            RecordData::AAAA(x) => x.rep(),
            RecordData::LOC(x) => x.rep(),
            RecordData::SRV(x) => x.rep(),
            RecordData::NAPTR(x) => x.rep(),
            RecordData::OPT(x) => x.rep(),
            RecordData::APL(x) => x.rep(),
@if dnssec
            RecordData::DS(x) => x.rep(),
@endif
            RecordData::SSHFP(x) => x.rep(),
            RecordData::IPSECKEY(x) => x.rep(),
@if dnssec
            RecordData::RRSIG(x) => x.rep(),
@endif
@if dnssec
            RecordData::NSEC(x) => x.rep(),
@endif
@if dnssec
            RecordData::DNSKEY(x) => x.rep(),
@endif
            RecordData::DHCID(x) => x.rep(),
            RecordData::TLSA(x) => x.rep(),
            RecordData::HIP(x) => x.rep(),
@if dnssec
            RecordData::CDS(x) => x.rep(),
@endif
@if dnssec
            RecordData::CDNSKEY(x) => x.rep(),
@endif
            RecordData::OPENPGPKEY(x) => x.rep(),
            RecordData::CSYNC(x) => x.rep(),
            RecordData::SVCB(x) => x.rep(),
            RecordData::EUI48(x) => x.rep(),
            RecordData::EUI64(x) => x.rep(),
            RecordData::TKEY(x) => x.rep(),
            RecordData::TSIG(x) => x.rep(),
            RecordData::URI(x) => x.rep(),
            RecordData::CAA(x) => x.rep(),
        }
    }
}
/// The value of record data of type `t` that occupies `p` up to the end of `d`
pub open spec fn rd_val(t: RecordType, d: Seq<u8>, p: int) -> Option<Ws> {
        match t {
            RecordType::A => val_of::<A>(d, p),
            RecordType::NS => val_of::<Ns>(d, p),
            RecordType::CNAME => val_of::<Cname>(d, p),
            RecordType::SOA => val_of::<Soa>(d, p),
            RecordType::NULL => val_of::<Null>(d, p),
            RecordType::WKS => val_of::<Wks>(d, p),
            RecordType::PTR => val_of::<Ptr>(d, p),
            RecordType::HINFO => val_of::<Hinfo>(d, p),
            RecordType::MINFO => val_of::<Minfo>(d, p),
            RecordType::MX => val_of::<Mx>(d, p),
            RecordType::TXT => val_of::<Txt>(d, p),
            RecordType::AAAA => val_of::<Aaaa>(d, p),
            RecordType::LOC => val_of::<Loc>(d, p),
            RecordType::SRV => val_of::<Srv>(d, p),
            RecordType::NAPTR => val_of::<Naptr>(d, p),
            RecordType::OPT => val_of::<Opt>(d, p),
            RecordType::APL => val_of::<Apl>(d, p),
@if dnssec
            RecordType::DS => val_of::<Ds>(d, p),
@endif
            RecordType::SSHFP => val_of::<Sshfp>(d, p),
            RecordType::IPSECKEY => val_of::<IpSecKey>(d, p),
@if dnssec
            RecordType::RRSIG => val_of::<Rrsig>(d, p),
@endif
@if dnssec
            RecordType::NSEC => val_of::<Nsec>(d, p),
@endif
@if dnssec
            RecordType::DNSKEY => val_of::<DnsKey>(d, p),
@endif
            RecordType::DHCID => val_of::<Dhcid>(d, p),
            RecordType::TLSA => val_of::<Tlsa>(d, p),
            RecordType::HIP => val_of::<Hip>(d, p),
@if dnssec
            RecordType::CDS => val_of::<Ds>(d, p),
@endif
@if dnssec
            RecordType::CDNSKEY => val_of::<DnsKey>(d, p),
@endif
            RecordType::OPENPGPKEY => val_of::<OpenPgpKey>(d, p),
            RecordType::CSYNC => val_of::<Csync>(d, p),
            RecordType::SVCB => val_of::<Svcb>(d, p),
            RecordType::EUI48 => val_of::<Eui48>(d, p),
            RecordType::EUI64 => val_of::<Eui64>(d, p),
            RecordType::TKEY => val_of::<Tkey>(d, p),
            RecordType::TSIG => val_of::<Tsig>(d, p),
            RecordType::URI => val_of::<Uri>(d, p),
            RecordType::CAA => val_of::<Caa>(d, p),
        }
}
pub proof fn lemma_rbs(x: RecordData) ensures x.rbs() <= x.rbytes().len() {
    match x { RecordData::SVCB(s) => { reveal_with_fuel(wnth, 3); lemma_enc_params_len(bsq(s.params).map_values(svcb::pf())); }, _ => {} }
}
/// Record data as written is read back
pub proof fn rt_rdata(x: RecordData, d: Seq<u8>, p: int)
    requires x.rrep(), at(d, p, x.rbytes()), p + x.rbytes().len() == d.len(),
    ensures rd_val(x.rtype(), d, p) == Some(x.rfields()),
{
    hide(val_of);
        match x {
            RecordData::A(y) => a::rt_a(y, d, p),
            RecordData::NS(y) => ns::rt_ns(y, d, p),
            RecordData::CNAME(y) => cname::rt_cname(y, d, p),
            RecordData::SOA(y) => soa::rt_soa(y, d, p),
            RecordData::NULL(y) => null::rt_null(y, d, p),
            RecordData::WKS(y) => wks::rt_wks(y, d, p),
            RecordData::PTR(y) => ptr::rt_ptr(y, d, p),
            RecordData::HINFO(y) => hinfo::rt_hinfo(y, d, p),
            RecordData::MINFO(y) => minfo::rt_minfo(y, d, p),
            RecordData::MX(y) => mx::rt_mx(y, d, p),
            RecordData::TXT(y) => txt::rt_txt(y, d, p),
            RecordData::AAAA(y) => aaaa::rt_aaaa(y, d, p),
            RecordData::LOC(y) => loc::rt_loc(y, d, p),
            RecordData::SRV(y) => srv::rt_srv(y, d, p),
            RecordData::NAPTR(y) => naptr::rt_naptr(y, d, p),
            RecordData::OPT(y) => opt::rt_opt(y, d, p),
            RecordData::APL(y) => apl::rt_apl(y, d, p),
@if dnssec
            RecordData::DS(y) => dnssec::rt_ds(y, d, p),
@endif
            RecordData::SSHFP(y) => sshfp::rt_sshfp(y, d, p),
            RecordData::IPSECKEY(y) => ipseckey::rt_ipseckey(y, d, p),
@if dnssec
            RecordData::RRSIG(y) => dnssec::rt_rrsig(y, d, p),
@endif
@if dnssec
            RecordData::NSEC(y) => dnssec::rt_nsec(y, d, p),
@endif
@if dnssec
            RecordData::DNSKEY(y) => dnssec::rt_dnskey(y, d, p),
@endif
            RecordData::DHCID(y) => dhcid::rt_dhcid(y, d, p),
            RecordData::TLSA(y) => tlsa::rt_tlsa(y, d, p),
            RecordData::HIP(y) => hip::rt_hip(y, d, p),
@if dnssec
            RecordData::CDS(y) => dnssec::rt_ds(y, d, p),
@endif
@if dnssec
            RecordData::CDNSKEY(y) => dnssec::rt_dnskey(y, d, p),
@endif
            RecordData::OPENPGPKEY(y) => openpgpkey::rt_openpgpkey(y, d, p),
            RecordData::CSYNC(y) => csync::rt_csync(y, d, p),
            RecordData::SVCB(y) => svcb::rt_svcb(y, d, p),
            RecordData::EUI48(y) => eui48::rt_eui48(y, d, p),
            RecordData::EUI64(y) => eui64::rt_eui64(y, d, p),
            RecordData::TKEY(y) => tkey::rt_tkey(y, d, p),
            RecordData::TSIG(y) => tsig::rt_tsig(y, d, p),
            RecordData::URI(y) => uri::rt_uri(y, d, p),
            RecordData::CAA(y) => caa::rt_caa(y, d, p),
        }
}
@fn RecordData::from [params=rec_type,buffer]
    requires old(buffer).wf(),
    ensures final(buffer).same(old(buffer)), match r {
        Ok(x) => x.rtype() == rec_type && rd_val(rec_type, old(buffer).data@, old(buffer).pos as int) == Some(x.rfields()),
        Err(_) => rd_val(rec_type, old(buffer).data@, old(buffer).pos as int) is None },
@head
    hide(val_of); hide(end_of);
@impl RecordData::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { self.rbytes() }
    open spec fn bs_extra(&self) -> nat { self.rbs() }
@fn RecordData::ByteConvertible::byte_size
@fn RecordData::ByteConvertible::to_bytes
@mod rdata::a
@impl A::RData
    open spec fn rt(&self) -> RecordType { RecordType::A }
    open spec fn ird(self) -> RecordData { RecordData::A(self) }
@fn A::RData::record_type
@fn A::RData::into_record_data
@mod rdata::ns
@impl Ns::RData
    open spec fn rt(&self) -> RecordType { RecordType::NS }
    open spec fn ird(self) -> RecordData { RecordData::NS(self) }
@fn Ns::RData::record_type
@fn Ns::RData::into_record_data
@mod rdata::cname
@impl Cname::RData
    open spec fn rt(&self) -> RecordType { RecordType::CNAME }
    open spec fn ird(self) -> RecordData { RecordData::CNAME(self) }
@fn Cname::RData::record_type
@fn Cname::RData::into_record_data
@mod rdata::soa
@impl Soa::RData
    open spec fn rt(&self) -> RecordType { RecordType::SOA }
    open spec fn ird(self) -> RecordData { RecordData::SOA(self) }
@fn Soa::RData::record_type
@fn Soa::RData::into_record_data
@mod rdata::null
@impl Null::RData
    open spec fn rt(&self) -> RecordType { RecordType::NULL }
    open spec fn ird(self) -> RecordData { RecordData::NULL(self) }
@fn Null::RData::record_type
@fn Null::RData::into_record_data
@mod rdata::wks
@impl Wks::RData
    open spec fn rt(&self) -> RecordType { RecordType::WKS }
    open spec fn ird(self) -> RecordData { RecordData::WKS(self) }
@fn Wks::RData::record_type
@fn Wks::RData::into_record_data
@mod rdata::ptr
@impl Ptr::RData
    open spec fn rt(&self) -> RecordType { RecordType::PTR }
    open spec fn ird(self) -> RecordData { RecordData::PTR(self) }
@fn Ptr::RData::record_type
@fn Ptr::RData::into_record_data
@mod rdata::hinfo
@impl Hinfo::RData
    open spec fn rt(&self) -> RecordType { RecordType::HINFO }
    open spec fn ird(self) -> RecordData { RecordData::HINFO(self) }
@fn Hinfo::RData::record_type
@fn Hinfo::RData::into_record_data
@mod rdata::minfo
@impl Minfo::RData
    open spec fn rt(&self) -> RecordType { RecordType::MINFO }
    open spec fn ird(self) -> RecordData { RecordData::MINFO(self) }
@fn Minfo::RData::record_type
@fn Minfo::RData::into_record_data
@mod rdata::mx
@impl Mx::RData
    open spec fn rt(&self) -> RecordType { RecordType::MX }
    open spec fn ird(self) -> RecordData { RecordData::MX(self) }
@fn Mx::RData::record_type
@fn Mx::RData::into_record_data
@mod rdata::txt
@impl Txt::RData
    open spec fn rt(&self) -> RecordType { RecordType::TXT }
    open spec fn ird(self) -> RecordData { RecordData::TXT(self) }
@fn Txt::RData::record_type
@fn Txt::RData::into_record_data
@mod rdata::aaaa
@impl Aaaa::RData
    open spec fn rt(&self) -> RecordType { RecordType::AAAA }
    open spec fn ird(self) -> RecordData { RecordData::AAAA(self) }
@fn Aaaa::RData::record_type
@fn Aaaa::RData::into_record_data
@mod rdata::loc
@impl Loc::RData
    open spec fn rt(&self) -> RecordType { RecordType::LOC }
    open spec fn ird(self) -> RecordData { RecordData::LOC(self) }
@fn Loc::RData::record_type
@fn Loc::RData::into_record_data
@mod rdata::srv
@impl Srv::RData
    open spec fn rt(&self) -> RecordType { RecordType::SRV }
    open spec fn ird(self) -> RecordData { RecordData::SRV(self) }
@fn Srv::RData::record_type
@fn Srv::RData::into_record_data
@mod rdata::naptr
@impl Naptr::RData
    open spec fn rt(&self) -> RecordType { RecordType::NAPTR }
    open spec fn ird(self) -> RecordData { RecordData::NAPTR(self) }
@fn Naptr::RData::record_type
@fn Naptr::RData::into_record_data
@mod rdata::opt
@impl Opt::RData
    open spec fn rt(&self) -> RecordType { RecordType::OPT }
    open spec fn ird(self) -> RecordData { RecordData::OPT(self) }
@fn Opt::RData::record_type
@fn Opt::RData::into_record_data
@mod rdata::apl
@impl Apl::RData
    open spec fn rt(&self) -> RecordType { RecordType::APL }
    open spec fn ird(self) -> RecordData { RecordData::APL(self) }
@fn Apl::RData::record_type
@fn Apl::RData::into_record_data
@if dnssec
@mod rdata::dnssec
@impl Ds::RData
    open spec fn rt(&self) -> RecordType { RecordType::DS }
    open spec fn ird(self) -> RecordData { RecordData::DS(self) }
@fn Ds::RData::record_type
@fn Ds::RData::into_record_data
@endif
@mod rdata::sshfp
@impl Sshfp::RData
    open spec fn rt(&self) -> RecordType { RecordType::SSHFP }
    open spec fn ird(self) -> RecordData { RecordData::SSHFP(self) }
@fn Sshfp::RData::record_type
@fn Sshfp::RData::into_record_data
@mod rdata::ipseckey
@impl IpSecKey::RData
    open spec fn rt(&self) -> RecordType { RecordType::IPSECKEY }
    open spec fn ird(self) -> RecordData { RecordData::IPSECKEY(self) }
@fn IpSecKey::RData::record_type
@fn IpSecKey::RData::into_record_data
@if dnssec
@mod rdata::dnssec
@impl Rrsig::RData
    open spec fn rt(&self) -> RecordType { RecordType::RRSIG }
    open spec fn ird(self) -> RecordData { RecordData::RRSIG(self) }
@fn Rrsig::RData::record_type
@fn Rrsig::RData::into_record_data
@endif
@if dnssec
@mod rdata::dnssec
@impl Nsec::RData
    open spec fn rt(&self) -> RecordType { RecordType::NSEC }
    open spec fn ird(self) -> RecordData { RecordData::NSEC(self) }
@fn Nsec::RData::record_type
@fn Nsec::RData::into_record_data
@endif
@if dnssec
@mod rdata::dnssec
@impl DnsKey::RData
    open spec fn rt(&self) -> RecordType { RecordType::DNSKEY }
    open spec fn ird(self) -> RecordData { RecordData::DNSKEY(self) }
@fn DnsKey::RData::record_type
@fn DnsKey::RData::into_record_data
@endif
@mod rdata::dhcid
@impl Dhcid::RData
    open spec fn rt(&self) -> RecordType { RecordType::DHCID }
    open spec fn ird(self) -> RecordData { RecordData::DHCID(self) }
@fn Dhcid::RData::record_type
@fn Dhcid::RData::into_record_data
@mod rdata::tlsa
@impl Tlsa::RData
    open spec fn rt(&self) -> RecordType { RecordType::TLSA }
    open spec fn ird(self) -> RecordData { RecordData::TLSA(self) }
@fn Tlsa::RData::record_type
@fn Tlsa::RData::into_record_data
@mod rdata::hip
@impl Hip::RData
    open spec fn rt(&self) -> RecordType { RecordType::HIP }
    open spec fn ird(self) -> RecordData { RecordData::HIP(self) }
@fn Hip::RData::record_type
@fn Hip::RData::into_record_data
@mod rdata::openpgpkey
@impl OpenPgpKey::RData
    open spec fn rt(&self) -> RecordType { RecordType::OPENPGPKEY }
    open spec fn ird(self) -> RecordData { RecordData::OPENPGPKEY(self) }
@fn OpenPgpKey::RData::record_type
@fn OpenPgpKey::RData::into_record_data
@mod rdata::csync
@impl Csync::RData
    open spec fn rt(&self) -> RecordType { RecordType::CSYNC }
    open spec fn ird(self) -> RecordData { RecordData::CSYNC(self) }
@fn Csync::RData::record_type
@fn Csync::RData::into_record_data
@mod rdata::svcb
@impl Svcb::RData
    open spec fn rt(&self) -> RecordType { RecordType::SVCB }
    open spec fn ird(self) -> RecordData { RecordData::SVCB(self) }
@fn Svcb::RData::record_type
@fn Svcb::RData::into_record_data
@mod rdata::eui48
@impl Eui48::RData
    open spec fn rt(&self) -> RecordType { RecordType::EUI48 }
    open spec fn ird(self) -> RecordData { RecordData::EUI48(self) }
@fn Eui48::RData::record_type
@fn Eui48::RData::into_record_data
@mod rdata::eui64
@impl Eui64::RData
    open spec fn rt(&self) -> RecordType { RecordType::EUI64 }
    open spec fn ird(self) -> RecordData { RecordData::EUI64(self) }
@fn Eui64::RData::record_type
@fn Eui64::RData::into_record_data
@mod rdata::tkey
@impl Tkey::RData
    open spec fn rt(&self) -> RecordType { RecordType::TKEY }
    open spec fn ird(self) -> RecordData { RecordData::TKEY(self) }
@fn Tkey::RData::record_type
@fn Tkey::RData::into_record_data
@mod rdata::tsig
@impl Tsig::RData
    open spec fn rt(&self) -> RecordType { RecordType::TSIG }
    open spec fn ird(self) -> RecordData { RecordData::TSIG(self) }
@fn Tsig::RData::record_type
@fn Tsig::RData::into_record_data
@mod rdata::uri
@impl Uri::RData
    open spec fn rt(&self) -> RecordType { RecordType::URI }
    open spec fn ird(self) -> RecordData { RecordData::URI(self) }
@fn Uri::RData::record_type
@fn Uri::RData::into_record_data
@mod rdata::caa
@impl Caa::RData
    open spec fn rt(&self) -> RecordType { RecordType::CAA }
    open spec fn ird(self) -> RecordData { RecordData::CAA(self) }
@fn Caa::RData::record_type
@fn Caa::RData::into_record_data
