// GENERATED by tools/gen_contracts.py
@mod resource
@spec
impl RecordType {
    /// The assigned code
    pub open spec fn code(self) -> u16 {
        match self {
            RecordType::A => 1,
            RecordType::NS => 2,
            RecordType::CNAME => 5,
            RecordType::SOA => 6,
            RecordType::NULL => 10,
            RecordType::WKS => 11,
            RecordType::PTR => 12,
            RecordType::HINFO => 13,
            RecordType::MINFO => 14,
            RecordType::MX => 15,
            RecordType::TXT => 16,
            RecordType::AAAA => 28,
            RecordType::LOC => 29,
            RecordType::SRV => 33,
            RecordType::NAPTR => 35,
            RecordType::OPT => 41,
            RecordType::APL => 42,
@if dnssec
            RecordType::DS => 43,
@endif
            RecordType::SSHFP => 44,
            RecordType::IPSECKEY => 45,
@if dnssec
            RecordType::RRSIG => 46,
            RecordType::NSEC => 47,
            RecordType::DNSKEY => 48,
@endif
            RecordType::DHCID => 49,
            RecordType::TLSA => 52,
            RecordType::HIP => 55,
@if dnssec
            RecordType::CDS => 59,
            RecordType::CDNSKEY => 60,
@endif
            RecordType::OPENPGPKEY => 61,
            RecordType::CSYNC => 62,
            RecordType::SVCB => 64,
            RecordType::EUI48 => 108,
            RecordType::EUI64 => 109,
            RecordType::TKEY => 249,
            RecordType::TSIG => 250,
            RecordType::URI => 256,
            RecordType::CAA => 257,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u16) -> bool {
        false
        || c == 1
        || c == 2
        || c == 5
        || c == 6
        || c == 10
        || c == 11
        || c == 12
        || c == 13
        || c == 14
        || c == 15
        || c == 16
        || c == 28
        || c == 29
        || c == 33
        || c == 35
        || c == 41
        || c == 42
@if dnssec
        || c == 43
@endif
        || c == 44
        || c == 45
@if dnssec
        || c == 46
        || c == 47
        || c == 48
@endif
        || c == 49
        || c == 52
        || c == 55
@if dnssec
        || c == 59
        || c == 60
@endif
        || c == 61
        || c == 62
        || c == 64
        || c == 108
        || c == 109
        || c == 249
        || c == 250
        || c == 256
        || c == 257
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_resource_recordtype(a: RecordType, b: RecordType)
    requires a.canon(), b.canon(),
    ensures RecordType::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl RecordType::TryFrom<u16>
    #[verifier::prophetic] open spec fn tf_pre(v: u16) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u16, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => RecordType::valid(v) && x.code() == v && x.canon(), Err(_) => !RecordType::valid(v) }
    }
@fn RecordType::TryFrom<u16>::try_from
@impl u16::From<RecordType>
    open spec fn f_pre(v: RecordType) -> bool { true }
    open spec fn f_post(v: RecordType, r: u16) -> bool { r == v.code() }
@fn u16::From<RecordType>::from
@impl RecordType::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { enc16(self.code()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn RecordType::ByteConvertible::byte_size
@fn RecordType::ByteConvertible::to_bytes
@mod question
@spec
impl QType {
    /// The assigned code
    pub open spec fn code(self) -> u16 {
        match self {
            QType::A => 1,
            QType::NS => 2,
            QType::CNAME => 5,
            QType::SOA => 6,
            QType::NULL => 10,
            QType::WKS => 11,
            QType::PTR => 12,
            QType::HINFO => 13,
            QType::MINFO => 14,
            QType::MX => 15,
            QType::TXT => 16,
            QType::AAAA => 28,
            QType::LOC => 29,
            QType::SRV => 33,
            QType::NAPTR => 35,
            QType::OPT => 41,
            QType::APL => 42,
@if dnssec
            QType::DS => 43,
@endif
            QType::SSHFP => 44,
            QType::IPSECKEY => 45,
@if dnssec
            QType::RRSIG => 46,
            QType::NSEC => 47,
            QType::DNSKEY => 48,
@endif
            QType::DHCID => 49,
            QType::TLSA => 52,
            QType::HIP => 55,
@if dnssec
            QType::CDS => 59,
            QType::CDNSKEY => 60,
@endif
            QType::OPENPGPKEY => 61,
            QType::CSYNC => 62,
            QType::SVCB => 64,
            QType::EUI48 => 108,
            QType::EUI64 => 109,
            QType::TKEY => 249,
            QType::TSIG => 250,
            QType::URI => 256,
            QType::CAA => 257,
            QType::AXFR => 252,
            QType::MAILB => 253,
            QType::MAILA => 254,
            QType::ANY => 255,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u16) -> bool {
        false
        || c == 1
        || c == 2
        || c == 5
        || c == 6
        || c == 10
        || c == 11
        || c == 12
        || c == 13
        || c == 14
        || c == 15
        || c == 16
        || c == 28
        || c == 29
        || c == 33
        || c == 35
        || c == 41
        || c == 42
@if dnssec
        || c == 43
@endif
        || c == 44
        || c == 45
@if dnssec
        || c == 46
        || c == 47
        || c == 48
@endif
        || c == 49
        || c == 52
        || c == 55
@if dnssec
        || c == 59
        || c == 60
@endif
        || c == 61
        || c == 62
        || c == 64
        || c == 108
        || c == 109
        || c == 249
        || c == 250
        || c == 256
        || c == 257
        || c == 252
        || c == 253
        || c == 254
        || c == 255
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_question_qtype(a: QType, b: QType)
    requires a.canon(), b.canon(),
    ensures QType::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl QType::TryFrom<u16>
    #[verifier::prophetic] open spec fn tf_pre(v: u16) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u16, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => QType::valid(v) && x.code() == v && x.canon(), Err(_) => !QType::valid(v) }
    }
@fn QType::TryFrom<u16>::try_from
@impl u16::From<QType>
    open spec fn f_pre(v: QType) -> bool { true }
    open spec fn f_post(v: QType, r: u16) -> bool { r == v.code() }
@fn u16::From<QType>::from
@impl QType::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { enc16(self.code()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn QType::ByteConvertible::byte_size
@fn QType::ByteConvertible::to_bytes
@mod question
@spec
impl QClass {
    /// The assigned code
    pub open spec fn code(self) -> u16 {
        match self {
            QClass::IN => 1,
            QClass::CS => 2,
            QClass::CH => 3,
            QClass::HS => 4,
            QClass::NONE => 254,
            QClass::ANY => 255,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u16) -> bool {
        false
        || c == 1
        || c == 2
        || c == 3
        || c == 4
        || c == 254
        || c == 255
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_question_qclass(a: QClass, b: QClass)
    requires a.canon(), b.canon(),
    ensures QClass::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl QClass::TryFrom<u16>
    #[verifier::prophetic] open spec fn tf_pre(v: u16) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u16, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => QClass::valid((v & 0x7FFF)) && x.code() == (v & 0x7FFF) && x.canon(), Err(_) => !QClass::valid((v & 0x7FFF)) }
    }
@fn QClass::TryFrom<u16>::try_from
@head
    proof { lemma_and7fff(); }
@impl u16::From<QClass>
    open spec fn f_pre(v: QClass) -> bool { true }
    open spec fn f_post(v: QClass, r: u16) -> bool { r == v.code() }
@fn u16::From<QClass>::from
@impl QClass::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { enc16(self.code()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn QClass::ByteConvertible::byte_size
@fn QClass::ByteConvertible::to_bytes
@mod resource
@spec
impl RecordClass {
    /// The assigned code
    pub open spec fn code(self) -> u16 {
        match self {
            RecordClass::IN => 1,
            RecordClass::CS => 2,
            RecordClass::CH => 3,
            RecordClass::HS => 4,
            RecordClass::UdpPayloadSize(x) => x,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u16) -> bool {
        c < 0x8000
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { match self { RecordClass::UdpPayloadSize(x) => x < 0x8000 && !(1 <= x <= 4), _ => true } }
}
/// Codes and values correspond one to one
pub proof fn codes_resource_recordclass(a: RecordClass, b: RecordClass)
    requires a.canon(), b.canon(),
    ensures RecordClass::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl RecordClass::From<u16>
    open spec fn f_pre(v: u16) -> bool { true }
    open spec fn f_post(v: u16, r: Self) -> bool { r.canon() && r.code() == v & 0x7FFF }
@fn RecordClass::From<u16>::from
@head
    proof { lemma_and7fff(); }
@impl u16::From<RecordClass>
    open spec fn f_pre(v: RecordClass) -> bool { true }
    open spec fn f_post(v: RecordClass, r: u16) -> bool { r == v.code() }
@fn u16::From<RecordClass>::from
@impl RecordClass::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> { enc16(self.code()) }
    open spec fn bs_extra(&self) -> nat { 0 }
@fn RecordClass::ByteConvertible::byte_size
@fn RecordClass::ByteConvertible::to_bytes
@mod header
@spec
impl OpCode {
    /// The assigned code
    pub open spec fn code(self) -> u8 {
        match self {
            OpCode::StandardQuery => 0,
            OpCode::InverseQuery => 1,
            OpCode::ServerStatusRequest => 2,
            OpCode::Reserved => 3,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u8) -> bool {
        false
        || c == 0
        || c == 1
        || c == 2
        || c == 3
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_header_opcode(a: OpCode, b: OpCode)
    requires a.canon(), b.canon(),
    ensures OpCode::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl OpCode::From<u8>
    open spec fn f_pre(v: u8) -> bool { true }
    open spec fn f_post(v: u8, r: Self) -> bool { if v <= 2 { r.code() == v } else { r == OpCode::Reserved } }
@fn OpCode::From<u8>::from
@mod header
@spec
impl ResponseCode {
    /// The assigned code
    pub open spec fn code(self) -> u8 {
        match self {
            ResponseCode::NoError => 0,
            ResponseCode::FormatError => 1,
            ResponseCode::ServerFailure => 2,
            ResponseCode::NameError => 3,
            ResponseCode::NotImplemented => 4,
            ResponseCode::Refused => 5,
            ResponseCode::YXDomain => 6,
            ResponseCode::YXRRSet => 7,
            ResponseCode::NXRRSet => 8,
            ResponseCode::NotAuth => 9,
            ResponseCode::NotZone => 10,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u8) -> bool {
        false
        || c == 0
        || c == 1
        || c == 2
        || c == 3
        || c == 4
        || c == 5
        || c == 6
        || c == 7
        || c == 8
        || c == 9
        || c == 10
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_header_responsecode(a: ResponseCode, b: ResponseCode)
    requires a.canon(), b.canon(),
    ensures ResponseCode::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl ResponseCode::TryFrom<u8>
    #[verifier::prophetic] open spec fn tf_pre(v: u8) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u8, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => ResponseCode::valid(v) && x.code() == v && x.canon(), Err(_) => !ResponseCode::valid(v) }
    }
@fn ResponseCode::TryFrom<u8>::try_from
@mod rdata
@spec
impl Algorithm {
    /// The assigned code
    pub open spec fn code(self) -> u8 {
        match self {
            Algorithm::Reserved => 0,
            Algorithm::RSA => 1,
            Algorithm::DSA => 2,
            Algorithm::ECDSA => 3,
            Algorithm::Ed25519 => 4,
            Algorithm::Ed448 => 6,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u8) -> bool {
        false
        || c == 0
        || c == 1
        || c == 2
        || c == 3
        || c == 4
        || c == 6
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_algorithm(a: Algorithm, b: Algorithm)
    requires a.canon(), b.canon(),
    ensures Algorithm::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl Algorithm::TryFrom<u8>
    #[verifier::prophetic] open spec fn tf_pre(v: u8) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u8, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => Algorithm::valid(v) && x.code() == v && x.canon(), Err(_) => !Algorithm::valid(v) }
    }
@fn Algorithm::TryFrom<u8>::try_from
@impl u8::From<Algorithm>
    open spec fn f_pre(v: Algorithm) -> bool { true }
    open spec fn f_post(v: Algorithm, r: u8) -> bool { r == v.code() }
@fn u8::From<Algorithm>::from
@mod rdata::sshfp
@spec
impl FingerprintType {
    /// The assigned code
    pub open spec fn code(self) -> u8 {
        match self {
            FingerprintType::Reserved => 0,
            FingerprintType::SHA1 => 1,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u8) -> bool {
        false
        || c == 0
        || c == 1
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_sshfp_fingerprinttype(a: FingerprintType, b: FingerprintType)
    requires a.canon(), b.canon(),
    ensures FingerprintType::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl FingerprintType::TryFrom<u8>
    #[verifier::prophetic] open spec fn tf_pre(v: u8) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u8, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => FingerprintType::valid(v) && x.code() == v && x.canon(), Err(_) => !FingerprintType::valid(v) }
    }
@fn FingerprintType::TryFrom<u8>::try_from
@impl u8::From<FingerprintType>
    open spec fn f_pre(v: FingerprintType) -> bool { true }
    open spec fn f_post(v: FingerprintType, r: u8) -> bool { r == v.code() }
@fn u8::From<FingerprintType>::from
@mod rdata::tlsa
@spec
impl CertUsage {
    /// The assigned code
    pub open spec fn code(self) -> u8 {
        match self {
            CertUsage::Ca => 0,
            CertUsage::ServiceCertificateConstraint => 1,
            CertUsage::TrustAnchor => 2,
            CertUsage::DomainIssuedCertificate => 3,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u8) -> bool {
        false
        || c == 0
        || c == 1
        || c == 2
        || c == 3
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_tlsa_certusage(a: CertUsage, b: CertUsage)
    requires a.canon(), b.canon(),
    ensures CertUsage::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl CertUsage::TryFrom<u8>
    #[verifier::prophetic] open spec fn tf_pre(v: u8) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u8, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => CertUsage::valid(v) && x.code() == v && x.canon(), Err(_) => !CertUsage::valid(v) }
    }
@fn CertUsage::TryFrom<u8>::try_from
@impl u8::From<CertUsage>
    open spec fn f_pre(v: CertUsage) -> bool { true }
    open spec fn f_post(v: CertUsage, r: u8) -> bool { r == v.code() }
@fn u8::From<CertUsage>::from
@mod rdata::tlsa
@spec
impl Selector {
    /// The assigned code
    pub open spec fn code(self) -> u8 {
        match self {
            Selector::Full => 0,
            Selector::SubjectPublicKeyInfo => 1,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u8) -> bool {
        false
        || c == 0
        || c == 1
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_tlsa_selector(a: Selector, b: Selector)
    requires a.canon(), b.canon(),
    ensures Selector::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl Selector::TryFrom<u8>
    #[verifier::prophetic] open spec fn tf_pre(v: u8) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u8, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => Selector::valid(v) && x.code() == v && x.canon(), Err(_) => !Selector::valid(v) }
    }
@fn Selector::TryFrom<u8>::try_from
@impl u8::From<Selector>
    open spec fn f_pre(v: Selector) -> bool { true }
    open spec fn f_post(v: Selector, r: u8) -> bool { r == v.code() }
@fn u8::From<Selector>::from
@mod rdata::tlsa
@spec
impl MatchingType {
    /// The assigned code
    pub open spec fn code(self) -> u8 {
        match self {
            MatchingType::ExactMatch => 0,
            MatchingType::SHA256 => 1,
            MatchingType::SHA512 => 2,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u8) -> bool {
        false
        || c == 0
        || c == 1
        || c == 2
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_tlsa_matchingtype(a: MatchingType, b: MatchingType)
    requires a.canon(), b.canon(),
    ensures MatchingType::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl MatchingType::TryFrom<u8>
    #[verifier::prophetic] open spec fn tf_pre(v: u8) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u8, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => MatchingType::valid(v) && x.code() == v && x.canon(), Err(_) => !MatchingType::valid(v) }
    }
@fn MatchingType::TryFrom<u8>::try_from
@impl u8::From<MatchingType>
    open spec fn f_pre(v: MatchingType) -> bool { true }
    open spec fn f_post(v: MatchingType, r: u8) -> bool { r == v.code() }
@fn u8::From<MatchingType>::from
@mod rdata::naptr
@spec
impl Flag {
    /// The assigned code
    pub open spec fn code(self) -> u8 {
        match self {
            Flag::S => 83,
            Flag::A => 65,
            Flag::U => 85,
            Flag::P => 80,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u8) -> bool {
        false
        || c == 83
        || c == 65
        || c == 85
        || c == 80
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_naptr_flag(a: Flag, b: Flag)
    requires a.canon(), b.canon(),
    ensures Flag::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl Flag::TryFrom<u8>
    #[verifier::prophetic] open spec fn tf_pre(v: u8) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u8, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => Flag::valid(v) && x.code() == v && x.canon(), Err(_) => !Flag::valid(v) }
    }
@fn Flag::TryFrom<u8>::try_from
@impl u8::From<Flag>
    open spec fn f_pre(v: Flag) -> bool { true }
    open spec fn f_post(v: Flag, r: u8) -> bool { r == v.code() }
@fn u8::From<Flag>::from
@mod rdata::tkey
@spec
impl Mode {
    /// The assigned code
    pub open spec fn code(self) -> u16 {
        match self {
            Mode::ServerAssignment => 1,
            Mode::DiffieHellmanExchange => 2,
            Mode::GssApiNegotiation => 3,
            Mode::ResolverAssignment => 4,
            Mode::KeyDeletion => 5,
            Mode::Available(x) => x,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u16) -> bool {
        false
        || c == 1
        || c == 2
        || c == 3
        || c == 4
        || c == 5
        || 6 <= c <= 65534
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { match self { Mode::Available(x) => 6 <= x <= 65534, _ => true } }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_tkey_mode(a: Mode, b: Mode)
    requires a.canon(), b.canon(),
    ensures Mode::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl Mode::TryFrom<u16>
    #[verifier::prophetic] open spec fn tf_pre(v: u16) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u16, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => Mode::valid(v) && x.code() == v && x.canon(), Err(_) => !Mode::valid(v) }
    }
@fn Mode::TryFrom<u16>::try_from
@impl u16::From<Mode>
    open spec fn f_pre(v: Mode) -> bool { true }
    open spec fn f_post(v: Mode, r: u16) -> bool { r == v.code() }
@fn u16::From<Mode>::from
@mod rdata::tkey
@spec
impl Error {
    /// The assigned code
    pub open spec fn code(self) -> u16 {
        match self {
            Error::None => 0,
            Error::BadSig => 16,
            Error::BadKey => 17,
            Error::BadTime => 18,
            Error::BadMode => 19,
            Error::BadName => 20,
            Error::BadAlg => 21,
            Error::NonExtendedRcode(x) => x,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u16) -> bool {
        false
        || c == 0
        || c == 16
        || c == 17
        || c == 18
        || c == 19
        || c == 20
        || c == 21
        || 1 <= c <= 15
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { match self { Error::NonExtendedRcode(x) => 1 <= x <= 15, _ => true } }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_tkey_error(a: Error, b: Error)
    requires a.canon(), b.canon(),
    ensures Error::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl Error::TryFrom<u16>
    #[verifier::prophetic] open spec fn tf_pre(v: u16) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u16, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => Error::valid(v) && x.code() == v && x.canon(), Err(_) => !Error::valid(v) }
    }
@fn Error::TryFrom<u16>::try_from
@impl u16::From<Error>
    open spec fn f_pre(v: Error) -> bool { true }
    open spec fn f_post(v: Error, r: u16) -> bool { r == v.code() }
@fn u16::From<Error>::from
@mod rdata::tsig
@spec
impl Error {
    /// The assigned code
    pub open spec fn code(self) -> u16 {
        match self {
            Error::None => 0,
            Error::BadSig => 16,
            Error::BadKey => 17,
            Error::BadTime => 18,
            Error::BadTrunc => 22,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u16) -> bool {
        false
        || c == 0
        || c == 16
        || c == 17
        || c == 18
        || c == 22
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_tsig_error(a: Error, b: Error)
    requires a.canon(), b.canon(),
    ensures Error::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl Error::TryFrom<u16>
    #[verifier::prophetic] open spec fn tf_pre(v: u16) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u16, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => Error::valid(v) && x.code() == v && x.canon(), Err(_) => !Error::valid(v) }
    }
@fn Error::TryFrom<u16>::try_from
@impl u16::From<Error>
    open spec fn f_pre(v: Error) -> bool { true }
    open spec fn f_post(v: Error, r: u16) -> bool { r == v.code() }
@fn u16::From<Error>::from
@mod rdata::dhcid
@spec
impl IdentifierType {
    /// The assigned code
    pub open spec fn code(self) -> u16 {
        match self {
            IdentifierType::ChaddrOfDhcpRequest => 0,
            IdentifierType::ClientIdentifierOption => 1,
            IdentifierType::DUID => 2,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u16) -> bool {
        false
        || c == 0
        || c == 1
        || c == 2
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_dhcid_identifiertype(a: IdentifierType, b: IdentifierType)
    requires a.canon(), b.canon(),
    ensures IdentifierType::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl IdentifierType::TryFrom<u16>
    #[verifier::prophetic] open spec fn tf_pre(v: u16) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u16, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => IdentifierType::valid(v) && x.code() == v && x.canon(), Err(_) => !IdentifierType::valid(v) }
    }
@fn IdentifierType::TryFrom<u16>::try_from
@impl u16::From<IdentifierType>
    open spec fn f_pre(v: IdentifierType) -> bool { true }
    open spec fn f_post(v: IdentifierType, r: u16) -> bool { r == v.code() }
@fn u16::From<IdentifierType>::from
@mod rdata::svcb
@spec
impl ParamKey {
    /// The assigned code
    pub open spec fn code(self) -> u16 {
        match self {
            ParamKey::Mandatory => 0,
            ParamKey::Alpn => 1,
            ParamKey::NoDefaultAlpn => 2,
            ParamKey::Port => 3,
            ParamKey::IpV4Hint => 4,
            ParamKey::Ech => 5,
            ParamKey::IpV6Hint => 6,
            ParamKey::Invalid => 65535,
            ParamKey::Private(x) => x,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u16) -> bool {
        false
        || c == 0
        || c == 1
        || c == 2
        || c == 3
        || c == 4
        || c == 5
        || c == 6
        || c == 65535
        || 65280 <= c <= 65534
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { match self { ParamKey::Private(x) => 65280 <= x <= 65534, _ => true } }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_svcb_paramkey(a: ParamKey, b: ParamKey)
    requires a.canon(), b.canon(),
    ensures ParamKey::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl ParamKey::TryFrom<u16>
    #[verifier::prophetic] open spec fn tf_pre(v: u16) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u16, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => ParamKey::valid(v) && x.code() == v && x.canon(), Err(_) => !ParamKey::valid(v) }
    }
@fn ParamKey::TryFrom<u16>::try_from
@impl u16::From<ParamKey>
    open spec fn f_pre(v: ParamKey) -> bool { true }
    open spec fn f_post(v: ParamKey, r: u16) -> bool { r == v.code() }
@fn u16::From<ParamKey>::from
@if dnssec
@mod rdata::dnssec
@spec
impl Algorithm {
    /// The assigned code
    pub open spec fn code(self) -> u8 {
        match self {
            Algorithm::RSA_MD5 => 1,
            Algorithm::DSA_SHA1 => 3,
            Algorithm::RSA_SHA1 => 5,
            Algorithm::RSA_SHA256 => 8,
            Algorithm::RSA_SHA512 => 10,
            Algorithm::ECDSA_P256 => 13,
            Algorithm::ECDSA_P384 => 14,
            Algorithm::ED25519 => 15,
            Algorithm::ED448 => 16,
            Algorithm::Indirect => 252,
            Algorithm::PrivateDns => 253,
            Algorithm::PrivateOid => 254,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u8) -> bool {
        false
        || c == 1
        || c == 3
        || c == 5
        || c == 8
        || c == 10
        || c == 13
        || c == 14
        || c == 15
        || c == 16
        || c == 252
        || c == 253
        || c == 254
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_dnssec_algorithm(a: Algorithm, b: Algorithm)
    requires a.canon(), b.canon(),
    ensures Algorithm::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl Algorithm::TryFrom<u8>
    #[verifier::prophetic] open spec fn tf_pre(v: u8) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u8, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => Algorithm::valid(v) && x.code() == v && x.canon(), Err(_) => !Algorithm::valid(v) }
    }
@fn Algorithm::TryFrom<u8>::try_from
@impl u8::From<Algorithm>
    open spec fn f_pre(v: Algorithm) -> bool { true }
    open spec fn f_post(v: Algorithm, r: u8) -> bool { r == v.code() }
@fn u8::From<Algorithm>::from
@endif
@if dnssec
@mod rdata::dnssec
@spec
impl DigestType {
    /// The assigned code
    pub open spec fn code(self) -> u8 {
        match self {
            DigestType::SHA1 => 1,
            DigestType::SHA256 => 2,
            DigestType::SHA384 => 4,
            DigestType::SHA512 => 5,
        }
    }
    /// Codes the enumeration has a value for
    pub open spec fn valid(c: u8) -> bool {
        false
        || c == 1
        || c == 2
        || c == 4
        || c == 5
    }
    /// Is this the value that stands for its code (and not an alias of it)?
    pub open spec fn canon(self) -> bool { true }
}
/// Codes and values correspond one to one
pub proof fn codes_rdata_dnssec_digesttype(a: DigestType, b: DigestType)
    requires a.canon(), b.canon(),
    ensures DigestType::valid(a.code()), a.code() == b.code() ==> a == b,
{ }
@impl DigestType::TryFrom<u8>
    #[verifier::prophetic] open spec fn tf_pre(v: u8) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u8, r: Result<Self, DnsError>) -> bool {
        match r { Ok(x) => DigestType::valid(v) && x.code() == v && x.canon(), Err(_) => !DigestType::valid(v) }
    }
@fn DigestType::TryFrom<u8>::try_from
@impl u8::From<DigestType>
    open spec fn f_pre(v: DigestType) -> bool { true }
    open spec fn f_post(v: DigestType, r: u8) -> bool { r == v.code() }
@fn u8::From<DigestType>::from
@endif
