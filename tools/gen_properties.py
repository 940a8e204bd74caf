#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=False)))
RD = "src/rdata/*.rs"
p("C01", "Parsing is total: any bytes give a value or an error, never a panic or hang",
  "Parsing any byte sequence as a DNS message, a question, a resource record, a header, a name or the data of any record type terminates with a value or an error. It never panics, never overflows an integer, never reads outside the given bytes and never loops on compression pointers. Reading any property of a successfully parsed message (including its response code) does not panic either.",
  ["inputs"], "for all byte sequences, all record types, all start positions and all feature configurations",
  "The tests parse a handful of well-formed captures; truncation, hostile lengths and pointer cycles are unbounded families of inputs no sample covers.",
  ["src/buffer.rs", "src/packet.rs", "src/question.rs", "src/resource.rs", "src/header.rs", "src/fqdn.rs", RD],
  [("bounded cursor", "src/buffer.rs: every extract_*/peek/advance/sub_buffer"), ("pointer progress", "src/buffer.rs: extract_fqdn"), ("record parsers", "TryFrom<&mut DnsBuffer> in src/rdata/*.rs, src/resource.rs, src/question.rs, src/header.rs, src/packet.rs")],
  "the result of TryFrom on bytes / buffers")
p("C02", "Domain names decode exactly as RFC 1035 prescribes, compression included",
  "Decoding a name at any position yields exactly the label sequence that the uncompressed bytes or the chain of compression pointers spell, and leaves the read position just behind the name as it stands at that position (behind the first pointer when there is one). Names that run past the end, use reserved label types or whose pointers do not lead strictly backwards are rejected, all others are accepted.",
  ["inputs"], "for all byte sequences and positions, any number of labels and pointers",
  "Tests cover a few names with at most one pointer each; multi-hop chains, pointers at the end of data and every label length are not sampled.",
  ["src/buffer.rs", "src/fqdn.rs"],
  [("name decoder", "src/buffer.rs: DnsBuffer::extract_fqdn"), ("wrapper", "src/fqdn.rs: TryFrom<&mut DnsBuffer> for FQDN")],
  "labels of the returned name and position of the buffer")
p("C03", "Record data is serialized in its RFC wire layout and parses back unchanged",
  "For every supported record type, serializing record data yields exactly the field sequence, widths, byte order and length prefixes its RFC defines, and parsing record data accepts exactly that layout and recovers the same field values. Consequently parsing the serialization of a representable value gives back an equal value, for values with labels of 1 to 63 bytes and variable-length parts that fit their length fields. Constructors and accessors hand the field values through unchanged.",
  ["inputs"], "for all field values of all record data types (about 38), and for all byte sequences on the parsing side",
  "Each type has at most one or two example vectors, several have none; a swapped field, a wrong width or a dropped byte shows only for particular values.",
  [RD, "src/fqdn.rs", "src/buffer.rs"],
  [("parsers", "TryFrom<&mut DnsBuffer> for every rdata type"), ("serializers", "ByteConvertible::to_bytes for every rdata type"), ("dispatch", "src/rdata/mod.rs: RecordData::from, RecordData::to_bytes")],
  "bytes of record data, fields of parsed record data")
p("C04", "Compressed messages decode to the same message as uncompressed ones",
  "Every name in a message serialized with compression decodes, from where it stands, to the name that was serialized, and the whole compressed message parses to the same questions and records as the message it was produced from. Every compression pointer emitted refers to an earlier position within the first 16384 bytes.",
  ["inputs"], "for all messages with labels of 1 to 63 bytes, any number of shared suffixes and any message size",
  "The tests compress a few small messages; sharing patterns between sections, names inside record data and offsets beyond the pointer range are combinatorial.",
  ["src/fqdn.rs", "src/packet.rs", "src/question.rs", "src/resource.rs", RD],
  [("suffix table", "src/fqdn.rs: CompressedByteConvertible for FQDN"), ("offset bookkeeping", "to_bytes_compressed of Question, ResourceRecord, RecordData and the rdata types with names; Packet::to_bytes_compressed")],
  "output of compressed serialization and its parse")
p("C05", "The announced size equals the serialized length",
  "For every name, question, header, record data value, resource record, record set and message, the reported byte size is exactly the number of bytes its uncompressed serialization produces.",
  ["inputs"], "for all values of all serializable types",
  "Tests compare sizes for single examples of some types; several types have no size test at all.",
  ["src/byteconvertible.rs", "src/fqdn.rs", "src/header.rs", "src/packet.rs", "src/question.rs", "src/resource.rs", "src/resource_record_set.rs", RD],
  [("size functions", "ByteConvertible::byte_size of every implementer")],
  "byte_size() against to_bytes().len()")
p("C06", "Length and count fields on the wire match what follows them",
  "In every serialized resource record, compressed or not, the data length field equals the number of data bytes that follow, and in every serialized message the four section counts equal the number of entries actually serialized in each section. This holds whatever sequence of constructors and modifications produced the message, as long as the lengths fit 16 bits.",
  ["inputs", "histories"], "for all records and messages and all histories of public modifications",
  "Only messages built one way are tested; stale counts and wrong lengths appear after particular modification sequences or for particular types.",
  ["src/resource.rs", "src/packet.rs", "src/resource_record_set.rs"],
  [("RDLENGTH", "src/resource.rs: to_bytes, to_bytes_compressed"), ("counts", "src/packet.rs: to_bytes, to_bytes_compressed")],
  "bytes of the serialized record or message")
p("C07", "A record's data is confined to its declared length",
  "Parsing a resource record reads its data only from the bytes its data length covers (plus earlier message bytes reached by compression pointers) and continues exactly behind them, whatever the data parser consumed. A record whose data does not fit the message or cannot be parsed within the declared length is rejected.",
  ["inputs"], "for all messages and all declared lengths, shorter and longer than the data needs",
  "No test uses a data length that disagrees with the data; the interesting inputs are exactly the malformed ones.",
  ["src/resource.rs", "src/buffer.rs", RD],
  [("window", "src/resource.rs: TryFrom<&mut DnsBuffer> for ResourceRecord"), ("sub buffer", "src/buffer.rs: sub_buffer, advance")],
  "parsed record and read position")
p("C08", "Buffer reads are exact: right bytes, big-endian, no effect on failure",
  "A read of n bytes from a buffer succeeds exactly when n bytes remain; it returns those bytes (integers in network byte order), moves the position by exactly n and leaves the data untouched. A failing read leaves the position where it was, and peeking never moves it.",
  ["inputs", "histories"], "for all buffers, positions, lengths (up to the largest representable) and sequences of reads",
  "One test reads a few bytes from a ten byte array; boundary positions and huge lengths are not covered.",
  ["src/buffer.rs"],
  [("cursor operations", "src/buffer.rs: sub_buffer, remaining, position, set_position, advance, peek_bytes, extract_*")],
  "returned values and position")
p("C09", "Numeric codes and their enumerations correspond one to one as assigned",
  "For every enumeration with a numeric wire code (record and query types, classes, response codes, operation codes, algorithms, digest types, certificate usages, key modes, error codes, parameter keys, flags), converting a value to its code and back yields the same value. The code is the one the IANA registry or RFC assigns, and codes without an assigned value in the enumeration are rejected or preserved as documented.",
  ["inputs", "configurations"], "for all 8 or 16 bit codes and all enumeration values, with and without DNSSEC",
  "The tests touch a few codes; a single missing or swapped table entry among hundreds is visible only for that code.",
  ["src/resource.rs", "src/question.rs", "src/header.rs", "src/rdata/mod.rs", "src/rdata/dnssec.rs", "src/rdata/tlsa.rs", "src/rdata/tkey.rs", "src/rdata/tsig.rs", "src/rdata/sshfp.rs", "src/rdata/dhcid.rs", "src/rdata/naptr.rs", "src/rdata/svcb.rs", "src/rdata/csync.rs"],
  [("tables", "TryFrom<u8>/TryFrom<u16> and From<...> for u8/u16 of each enumeration")],
  "conversion results")
p("C10", "Header bits: each flag is independent and sits at its RFC 1035 position",
  "The twelve header bytes carry the identifier, the flags and the four counts at the positions RFC 1035 defines, and parsing then serializing a header reproduces them. Setting a flag, operation code or response code changes what that accessor reports and no other field, apart from the documented coupling with the query/response bit.",
  ["inputs", "histories"], "for all 2^96 header values and all sequences of setters",
  "Tests check a couple of header values; cross-talk between adjacent bits needs particular prior states.",
  ["src/header.rs", "src/packet.rs"],
  [("bit field", "src/header.rs: FlagBitfield and the accessors of Header"), ("wire format", "src/header.rs: to_bytes, try_from")],
  "accessor results and header bytes")
p("C11", "Section operations act on exactly one section and keep its count in step",
  "Adding to, replacing or taking a section of a message affects exactly that section: the list holds exactly the expected entries in order, its stored count equals its length, and every other section and count is unchanged.",
  ["histories", "inputs"], "for all messages and all sequences of section operations",
  "Tests use single calls on fresh messages; a wrong counter shows only when another section is populated.",
  ["src/packet.rs"],
  [("section operations", "src/packet.rs: new_query, new_reply, with_questions, add_*, set_*, take_*")],
  "section lists and the counts in the serialized header")
p("C12", "Type bitmaps encode and decode exactly the given set of record types",
  "The windowed bitmap of NSEC and CSYNC records has exactly the bits of the given record types set, with ascending windows, no empty window and no trailing zero octet, and decoding a bitmap yields exactly the set of types whose bits are set or an error if a bit stands for an unknown type or a window is malformed.",
  ["inputs"], "for all sets of record types and all bitmap byte sequences",
  "Two example sets are tested out of 2^38; window boundaries and empty sets are not.",
  ["src/rdata/dnssec.rs", "src/rdata/csync.rs"],
  [("bitmap decoder", "TryFrom<&mut DnsBuffer> for Nsec / Csync"), ("bitmap encoder", "to_bytes, byte_size of Nsec / Csync")],
  "record data bytes and decoded sets")
p("C13", "Key tags and DS records are computed as RFC 4034 defines",
  "The key tag of a DNSKEY is the RFC 4034 appendix B checksum of its record data, and a DS record derived from a key carries that tag, the key's algorithm, the requested digest type and the digest of owner name followed by key record data.",
  ["inputs"], "for all keys (any flags, algorithm and key length) and all owner names",
  "One key is tested; carry propagation and odd key lengths depend on the data.",
  ["src/rdata/dnssec.rs"],
  [("key tag", "src/rdata/dnssec.rs: DnsKey::compute_key_tag"), ("DS", "src/rdata/dnssec.rs: Ds::try_from_dnskey")],
  "key_tag and digest of the DS record")
p("C14", "Record sets serialize canonically, independent of the order given",
  "The signing form of a record set is, for its records sorted by their data bytes, the concatenation of owner name, type, class, TTL, data length and data. It is the same for every order in which the records are supplied, and canonical reordering only permutes the records.",
  ["inputs"], "for all record sets, any number and order of records",
  "Tests use sets with one record; ordering needs several records with common prefixes.",
  ["src/resource_record_set.rs"],
  [("canonical form", "src/resource_record_set.rs: to_bytes, byte_size, canonical_reorder")],
  "bytes of the record set")
p("C15", "Names and their text form correspond label by label",
  "Building a name from dotted text keeps exactly the non-empty parts between dots, in order, as labels; printing a name made of dot-free text labels and reading it back gives the same name.",
  ["inputs"], "for all texts",
  "A few literal names are tested.",
  ["src/fqdn.rs"],
  [("text", "src/fqdn.rs: FQDN::new, Display, From<&str>")],
  "labels and displayed text")
p("C16", "Service binding parameters stay within their announced length and order",
  "Each service binding parameter is serialized as key, exact value length and value, in ascending key order with keys listed once, and parsing accepts a parameter only if its value fills its announced length exactly; parsing the serialization gives back the same parameters.",
  ["inputs"], "for all parameter sets and all byte sequences",
  "One record is tested in each direction; short, long and repeated values are not.",
  ["src/rdata/svcb.rs"],
  [("parameters", "src/rdata/svcb.rs: Param/ParamKey conversions, Ord, byte_size, to_bytes, try_from"), ("record", "src/rdata/svcb.rs: Svcb")],
  "record data bytes and parsed parameters")
p("C17", "Messages survive serialization: parse(serialize(m)) equals m",
  "Parsing the uncompressed serialization of a message yields a message equal to it: same header fields, same questions and same records in the same sections and order, including the mDNS unicast-response and cache-flush bits. This holds for every message whose parts are representable on the wire and whose counts are in step.",
  ["inputs", "configurations"], "for all messages, with and without the mDNS and DNSSEC features",
  "Round trips are tested for a few captured packets only.",
  ["src/packet.rs", "src/question.rs", "src/resource.rs", "src/header.rs", "src/fqdn.rs", RD],
  [("message", "src/packet.rs: to_bytes, try_from"), ("question", "src/question.rs"), ("record", "src/resource.rs")],
  "the parsed message")
p("C18", "A signature made with a key verifies with that key and only for that data",
  "A signature record created over a record set with a private key verifies with the matching public key and does not verify when the set, the signature fields or the key differ.",
  ["inputs"], "for all algorithms, keys and record sets",
  "Tests sign and verify one set for four of nine algorithms.",
  ["src/rdata/dnssec.rs"],
  [("signing", "src/rdata/dnssec.rs: Rrsig::from_dnskey, verify, Algorithm::sign_data")],
  "verify()")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
