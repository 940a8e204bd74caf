"""Which obligations decide which property: (pattern over function keys, kind of obligation)."""
SAFETY = "safety"
ALL, SAFE, VALUE = "all", "safety", "value"
PARSE = r"TryFrom<&mut DnsBuffer>::try_from$"
# Parts of the code several properties rest on: a property's proof uses the contracts of these
# functions, so a failed obligation in one of them leaves the property unproved.
BUFFER = (r"^buffer::", ALL)
NAMES = (r"^fqdn::FQDN::(TryFrom<&mut DnsBuffer>|ByteConvertible|From<Vec<Vec<u8>>>)::", ALL)
RDATA_PARSE = [(r"^rdata::.*TryFrom<&mut DnsBuffer>::try_from$", ALL), (r"^rdata::RecordData::from$", ALL)]
RDATA_WRITE = [(r"^rdata::.*::ByteConvertible::(to_bytes|byte_size)$", ALL)]
CODES = [(r"TryFrom<(u8|u16|u32)>::try_from$", ALL), (r"^(rdata|header|question|resource).*::From<[^&]*>::(from|into)$", ALL), (r"::(From|Into)<u(8|16|32)>", ALL), (r"for (u8|u16)", ALL)]
TYPE_CODES = [(r"^resource::(RecordType::TryFrom<u16>::try_from|u16::From<Record(Type|Class)>::from|RecordClass::From<u16>::from)$", ALL)]
HEADER_WIRE = (r"^header::Header::(ByteConvertible::to_bytes|TryFrom<&mut DnsBuffer>::try_from)$", ALL)
PROPS = {
    "C01": dict(level="proof", own=[(r"^buffer::", SAFE), (PARSE, SAFE), (r"TryFrom<(u8|u16|u32|&\[u8\]|Vec<u8>|RecordType|QType)>::try_from$", SAFE), (r"RecordData::from$", SAFE), (r"::From<(u8|u16|&\[u8\])>::from$", SAFE), (r"rdata::.*::(from_|read|parse)", SAFE)]),
    "C02": dict(level="proof", own=[(r"^buffer::DnsBuffer::extract_fqdn$", ALL), (r"^fqdn::FQDN::(TryFrom<&mut DnsBuffer>|From<Vec<Vec<u8>>>)::", ALL), (r"^lemma (lemma_name|lemma_enc_name)", ALL), BUFFER]),
    "C03": dict(level="proof", own=[(r"^rdata::.*TryFrom<&mut DnsBuffer>::try_from$", VALUE), (r"^rdata::.*::ByteConvertible::to_bytes$", ALL), (r"^rdata::RecordData::from$", VALUE), (r"^rdata::.*::(new|with_types|inner|inner_mut|into_inner)$", ALL), (r"^rdata::(a|aaaa)::", ALL), (r"^lemma (rt_|lemma_rt)", ALL), BUFFER, NAMES] + CODES),
    "C04": dict(level="proof", own=[(r"::to_bytes_compressed$", ALL), (r"^lemma lemma_c_", ALL), BUFFER, NAMES, (r"^(packet|question|resource)::.*TryFrom<&mut DnsBuffer>::try_from$", ALL)] + RDATA_PARSE),
    "C05": dict(level="proof", own=[(r"::ByteConvertible::byte_size$", ALL), (r"::byte_size$", ALL), (r"::ByteConvertible::to_bytes$", ALL)]),
    "C06": dict(level="proof", own=[(r"^packet::Packet::((ByteConvertible|CompressedByteConvertible)::to_bytes|to_bytes_compressed)", ALL), (r"^resource::ResourceRecord::(ByteConvertible|CompressedByteConvertible)::to_bytes", ALL), (r"^packet::Packet::(?!TryFrom)", ALL), (r"^rdata::.*::to_bytes_compressed$", ALL)] + RDATA_WRITE),
    "C07": dict(level="proof", own=[(r"^resource::ResourceRecord::TryFrom<&mut DnsBuffer>", ALL), (r"^buffer::DnsBuffer::sub_buffer", ALL), (r"^rdata::RecordData::from$", ALL), (r"^lemma lemma_confine", ALL), BUFFER] + RDATA_PARSE),
    "C08": dict(level="proof", own=[(r"^buffer::", ALL)]),
    "C09": dict(level="proof", own=CODES + [(r"^lemma (codes_|lemma_code)", ALL)]),
    "C10": dict(level="proof", own=[(r"^header::", ALL), (r"^lemma lemma_hdr", ALL), BUFFER]),
    "C11": dict(level="proof", own=[(r"^packet::Packet::(?!ByteConvertible|Compressed|TryFrom|to_bytes)", ALL), (r"^header::Header::.*(count|_ref|new|default)", ALL)]),
    "C12": dict(level="proof", own=[(r"^rdata::(csync::Csync|dnssec::Nsec)::", ALL), (r"^lemma lemma_bm", ALL), BUFFER] + TYPE_CODES),
    "C13": dict(level="proof", own=[(r"^rdata::dnssec::(DnsKey::compute_key_tag|Ds::try_from_dnskey|Ds::new|DigestType::|u8::From|DnsKey::ByteConvertible::to_bytes)", ALL), (r"^fqdn::FQDN::ByteConvertible::to_bytes$", ALL), (r"^lemma lemma_tag", ALL)], cfgs=["mdns,dnssec", "dnssec"]),
    "C14": dict(level="proof", own=[(r"^resource_record_set::ResourceRecordSet::", ALL), (r"^lemma lemma_set", ALL), (r"^fqdn::FQDN::ByteConvertible::", ALL)] + RDATA_WRITE + TYPE_CODES),
    "C15": dict(level="proof", own=[(r"^fqdn::FQDN::(new|append_label|iter|Display::fmt|From<&str>::from|From<&\[&str\]>::from|From<&\[Vec<u8>\]>::from|From<Vec<Vec<u8>>>::from)$", ALL), (r"^lemma lemma_text", ALL)]),
    "C16": dict(level="proof", own=[(r"^rdata::(svcb|https)::", ALL), (r"^lemma lemma_svcb", ALL), BUFFER, NAMES]),
    "C17": dict(level="proof", own=[(r"^(packet|question|resource)::.*(TryFrom<&mut DnsBuffer>::try_from|ByteConvertible::to_bytes)$", ALL), (r"^packet::Packet::TryFrom", ALL), (r"^lemma (lemma_rt|rt_)", ALL), BUFFER, NAMES, HEADER_WIRE] + RDATA_PARSE + RDATA_WRITE + CODES),
}

NA = {
    "C18": "the property is a statement about ring, rsa, dsa and crrl (external cryptographic code without contracts) and unforgeability is not a functional contract",
}
