@mod rdata::apl
@fn Apl::new [params=prefix,n,afd_part]
    ensures r.prefix == prefix, r.n == n, r.afd_part == afd_part,
@mod rdata::caa
@fn Caa::new [params=issuer_critical,tag,value]
    ensures r.issuer_critical == issuer_critical, r.tag == tag, r.value == value,
@mod rdata::cname
@fn Cname::new [params=cname]
    ensures r.cname == cname,
@mod rdata::csync
@fn Csync::new [params=soa_serial,flags,types]
    ensures r.soa_serial == soa_serial, r.flags == flags, r.types == types,
@mod rdata::hinfo
@fn Hinfo::new [params=cpu,os]
    ensures r.cpu == cpu, r.os == os,
@mod rdata::minfo
@fn Minfo::new [params=rmailbx,emailbx]
    ensures r.rmailbx == rmailbx, r.emailbx == emailbx,
@mod rdata::mx
@fn Mx::new [params=preference,exchange]
    ensures r.preference == preference, r.exchange == exchange,
@mod rdata::naptr
@fn Naptr::new [params=order,preference,flags,service,regexp,replacement]
    ensures r.order == order, r.preference == preference, r.flags == flags, r.service == service, r.regexp == regexp, r.replacement == replacement,
@mod rdata::ns
@fn Ns::new [params=nsdname]
    ensures r.nsdname == nsdname,
@mod rdata::null
@fn Null::new [params=anything]
    ensures r.anything == anything,
@mod rdata::soa
@fn Soa::new [params=mname,rname,serial,refresh,retry,expire,minimum]
    ensures r.mname == mname, r.rname == rname, r.serial == serial, r.refresh == refresh, r.retry == retry, r.expire == expire, r.minimum == minimum,
@mod rdata::srv
@fn Srv::new [params=priority,weight,port,target]
    ensures r.priority == priority, r.weight == weight, r.port == port, r.target == target,
@mod rdata::sshfp
@fn Sshfp::new [params=algorithm,fingerprint_type,fingerprint]
    ensures r.algorithm == algorithm, r.fingerprint_type == fingerprint_type, r.fingerprint == fingerprint,
@mod rdata::tlsa
@fn Tlsa::new [params=cert_usage,selector,matching_type,associated_data]
    ensures r.cert_usage == cert_usage, r.selector == selector, r.matching_type == matching_type, r.associated_data == associated_data,
@mod rdata::uri
@fn Uri::new [params=priority,weight,target]
    ensures r.priority == priority, r.weight == weight, r.target == target,
@mod rdata::wks
@fn Wks::new [params=address,protocol,bitmap]
    ensures r.address == address, r.protocol == protocol, r.bitmap == bitmap,
@if dnssec
@mod rdata::dnssec
@fn Ds::new [params=key_tag,algorithm,digest_type,digest]
    ensures r.key_tag == key_tag, r.algorithm == algorithm, r.digest_type == digest_type, r.digest == digest,
@fn Rrsig::new [params=type_covered,algorithm,labels,original_ttl,sig_expiration,sig_inception,key_tag,signers_name,signature]
    ensures r.type_covered == type_covered, r.algorithm == algorithm, r.labels == labels, r.original_ttl == original_ttl, r.sig_expiration == sig_expiration, r.sig_inception == sig_inception, r.key_tag == key_tag, r.signers_name == signers_name, r.signature == signature,
@fn DnsKey::new [params=algorithm,public_key]
    ensures !r.zone_key, !r.secure_entry_point, r.protocol == 3, r.algorithm == algorithm, r.public_key == public_key,
@fn DnsKey::protocol
    ensures r == self.protocol,
@fn DnsKey::valid_protocol
    ensures r == (self.protocol == 3),
@fn Nsec::new [params=next_domain_name]
    ensures r.next_domain_name == next_domain_name, r.types@ == Set::<RecordType>::empty(),
@fn Nsec::with_types [params=next_domain_name,types]
    ensures r.next_domain_name == next_domain_name, r.types == types,
@fn Rrsig::key_tag
    ensures r == self.key_tag,
@fn Rrsig::signature
    ensures r@ == self.signature@,
@endif
@mod rdata::a
@fn A::new [params=addr]
    ensures r.0 == addr,
@fn A::inner
    ensures *r == self.0,
@fn A::inner_mut
    ensures *r == old(self).0, final(self).0 == *final(r),
@fn A::into_inner [params=self]
    ensures r == self.0,
@impl A::From<Ipv4Addr>
    open spec fn f_pre(v: Ipv4Addr) -> bool { true }
    open spec fn f_post(v: Ipv4Addr, r: Self) -> bool { r.0 == v }
@fn A::From<Ipv4Addr>::from
@impl A::From<u32>
    open spec fn f_pre(v: u32) -> bool { true }
    open spec fn f_post(v: u32, r: Self) -> bool { ip4(r.0) == v }
@fn A::From<u32>::from
@impl u32::From<A>
    open spec fn f_pre(v: A) -> bool { true }
    open spec fn f_post(v: A, r: Self) -> bool { r == ip4(v.0) }
@fn u32::From<A>::from
@mod rdata::aaaa
@fn Aaaa::new [params=addr]
    ensures r.0 == addr,
@fn Aaaa::inner
    ensures *r == self.0,
@fn Aaaa::inner_mut
    ensures *r == old(self).0, final(self).0 == *final(r),
@fn Aaaa::into_inner [params=self]
    ensures r == self.0,
@impl Aaaa::From<Ipv6Addr>
    open spec fn f_pre(v: Ipv6Addr) -> bool { true }
    open spec fn f_post(v: Ipv6Addr, r: Self) -> bool { r.0 == v }
@fn Aaaa::From<Ipv6Addr>::from
@impl Aaaa::From<u128>
    open spec fn f_pre(v: u128) -> bool { true }
    open spec fn f_post(v: u128, r: Self) -> bool { ip6b(r.0) == enc128(v) }
@fn Aaaa::From<u128>::from
@impl u128::From<&Aaaa>
    open spec fn f_pre(v: &Aaaa) -> bool { true }
    open spec fn f_post(v: &Aaaa, r: Self) -> bool { enc128(r) == ip6b(v.0) }
@fn u128::From<&Aaaa>::from
@mod rdata::ptr
@fn Ptr::new [params=ptr_dname]
    ensures r.0 == ptr_dname,
@fn Ptr::inner
    ensures *r == self.0,
@fn Ptr::inner_mut
    ensures *r == old(self).0, final(self).0 == *final(r),
@fn Ptr::into_inner [params=self]
    ensures r == self.0,
@mod rdata::txt
@fn Txt::new [params=data]
    ensures r.0 == data,
@mod resource
@fn ResourceRecord::data_mut
    ensures *r == old(self).rdata, *final(self) == (ResourceRecord { rdata: *final(r), ..*old(self) }),
@mod packet
@fn Packet::questions_mut
    ensures *r == old(self).questions, *final(self) == (Packet { questions: *final(r), ..*old(self) }),
@mod rdata::csync
@fn Flags::new
    ensures r.0 == 0,

@mod rdata::dhcid
@fn Dhcid::new [params=identifier_code,identifier,fqdn; muts=ctx]
    requires enc_name(fqdn.ls()).len() <= 0x7FFF_FFFF,
    ensures r.identifier_code == identifier_code, r.digest@ == dig(256, identifier@ + enc_name(fqdn.ls())),
@tail
    proof { assert(Seq::<u8>::empty() + identifier@ + enc_name(fqdn.ls()) =~= identifier@ + enc_name(fqdn.ls())); }
