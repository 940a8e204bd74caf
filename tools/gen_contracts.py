#!/usr/bin/env python3
"""Writes contracts/gen_enums.vspec and contracts/gen_rdata.vspec from the tables below.

The tables restate the registries (IANA) and record layouts (RFCs); they are not derived from the code.
"""
import os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")

TYPES = """A 1,NS 2,CNAME 5,SOA 6,NULL 10,WKS 11,PTR 12,HINFO 13,MINFO 14,MX 15,TXT 16,AAAA 28,LOC 29,SRV 33,NAPTR 35,OPT 41,APL 42,*DS 43,
SSHFP 44,IPSECKEY 45,*RRSIG 46,*NSEC 47,*DNSKEY 48,DHCID 49,TLSA 52,HIP 55,*CDS 59,*CDNSKEY 60,OPENPGPKEY 61,CSYNC 62,SVCB 64,EUI48 108,
EUI64 109,TKEY 249,TSIG 250,URI 256,CAA 257"""
def tab(s):
    r = []
    for x in s.replace("\n", "").split(","):
        n, c = x.split()
        r.append((n.lstrip("*"), int(c), n.startswith("*")))
    return r
RT = tab(TYPES)
QT = RT + tab("AXFR 252,MAILB 253,MAILA 254,ANY 255")

# module, enum, code type, [(variant, code, dnssec only)], data variant (name, low, high) or None, options
ENUMS = [
    ("resource", "RecordType", "u16", RT, None, {}),
    ("question", "QType", "u16", QT, None, {}),
    ("question", "QClass", "u16", tab("IN 1,CS 2,CH 3,HS 4,NONE 254,ANY 255"), None, {"mask": "0x7FFF"}),
    ("resource", "RecordClass", "u16", tab("IN 1,CS 2,CH 3,HS 4"), None, {"class": 1}),
    ("header", "OpCode", "u8", tab("StandardQuery 0,InverseQuery 1,ServerStatusRequest 2,Reserved 3"), None, {"opcode": 1}),
    ("header", "ResponseCode", "u8", tab("NoError 0,FormatError 1,ServerFailure 2,NameError 3,NotImplemented 4,Refused 5,YXDomain 6,YXRRSet 7,NXRRSet 8,NotAuth 9,NotZone 10"), None, {"nofrom": 1}),
    ("rdata", "Algorithm", "u8", tab("Reserved 0,RSA 1,DSA 2,ECDSA 3,Ed25519 4,Ed448 6"), None, {}),
    ("rdata::sshfp", "FingerprintType", "u8", tab("Reserved 0,SHA1 1"), None, {}),
    ("rdata::tlsa", "CertUsage", "u8", tab("Ca 0,ServiceCertificateConstraint 1,TrustAnchor 2,DomainIssuedCertificate 3"), None, {}),
    ("rdata::tlsa", "Selector", "u8", tab("Full 0,SubjectPublicKeyInfo 1"), None, {}),
    ("rdata::tlsa", "MatchingType", "u8", tab("ExactMatch 0,SHA256 1,SHA512 2"), None, {}),
    ("rdata::naptr", "Flag", "u8", tab("S 83,A 65,U 85,P 80"), None, {}),
    ("rdata::tkey", "Mode", "u16", tab("ServerAssignment 1,DiffieHellmanExchange 2,GssApiNegotiation 3,ResolverAssignment 4,KeyDeletion 5"), ("Available", 6, 65534), {}),
    ("rdata::tkey", "Error", "u16", tab("None 0,BadSig 16,BadKey 17,BadTime 18,BadMode 19,BadName 20,BadAlg 21"), ("NonExtendedRcode", 1, 15), {}),
    ("rdata::tsig", "Error", "u16", tab("None 0,BadSig 16,BadKey 17,BadTime 18,BadTrunc 22"), None, {}),
    ("rdata::dhcid", "IdentifierType", "u16", tab("ChaddrOfDhcpRequest 0,ClientIdentifierOption 1,DUID 2"), None, {}),
    ("rdata::svcb", "ParamKey", "u16", tab("Mandatory 0,Alpn 1,NoDefaultAlpn 2,Port 3,IpV4Hint 4,Ech 5,IpV6Hint 6,Invalid 65535"), ("Private", 65280, 65534), {}),
    ("rdata::dnssec", "Algorithm", "u8", tab("RSA_MD5 1,DSA_SHA1 3,RSA_SHA1 5,RSA_SHA256 8,RSA_SHA512 10,ECDSA_P256 13,ECDSA_P384 14,ED25519 15,ED448 16,Indirect 252,PrivateDns 253,PrivateOid 254"), None, {"dnssec": 1}),
    ("rdata::dnssec", "DigestType", "u8", tab("SHA1 1,SHA256 2,SHA384 4,SHA512 5"), None, {"dnssec": 1}),
]

def lines_cfg(rows, f):
    """rows with dnssec-only ones guarded"""
    out, g = [], False
    for r in rows:
        if r[2] != g:
            out.append("@if dnssec" if r[2] else "@endif")
            g = r[2]
        out.append(f(r))
    if g:
        out.append("@endif")
    return out

def gen_enums():
    o = ["// GENERATED by tools/gen_contracts.py"]
    for mod, e, t, rows, data, opt in ENUMS:
        if opt.get("dnssec"):
            o.append("@if dnssec")
        o.append(f"@mod {mod}")
        o.append("@spec")
        o.append(f"impl {e} {{")
        o.append(f"    /// The assigned code")
        o.append(f"    pub open spec fn code(self) -> {t} {{")
        o.append("        match self {")
        o += lines_cfg(rows, lambda r: f"            {e}::{r[0]} => {r[1]},")
        if data:
            o.append(f"            {e}::{data[0]}(x) => x,")
        if opt.get("class"):
            o.append(f"            {e}::UdpPayloadSize(x) => x,")
        o.append("        }\n    }")
        o.append(f"    /// Codes the enumeration has a value for")
        o.append(f"    pub open spec fn valid(c: {t}) -> bool {{")
        if opt.get("class"):
            o.append("        c < 0x8000")
        else:
            o.append("        false")
            o += lines_cfg(rows, lambda r: f"        || c == {r[1]}")
            if data:
                o.append(f"        || {data[1]} <= c <= {data[2]}")
        o.append("    }")
        o.append("    /// Is this the value that stands for its code (and not an alias of it)?")
        if data:
            o.append(f"    pub open spec fn canon(self) -> bool {{ match self {{ {e}::{data[0]}(x) => {data[1]} <= x <= {data[2]}, _ => true }} }}")
        elif opt.get("class"):
            o.append(f"    pub open spec fn canon(self) -> bool {{ match self {{ {e}::UdpPayloadSize(x) => x < 0x8000 && !(1 <= x <= 4), _ => true }} }}")
        else:
            o.append("    pub open spec fn canon(self) -> bool { true }")
        o.append("}")
        o.append(f"/// Codes and values correspond one to one")
        lem = f"codes_{mod.replace('::', '_')}_{e.lower()}"
        o.append(f"pub proof fn {lem}(a: {e}, b: {e})")
        o.append(f"    requires a.canon(), b.canon(),")
        o.append(f"    ensures {e}::valid(a.code()), a.code() == b.code() ==> a == b,")
        o.append("{ }")
        conv = "TryFrom"
        m = opt.get("mask")
        val = f"(v & {m})" if m else "v"
        if opt.get("class"):
            o += [f"@impl {e}::From<u16>",
                  "    open spec fn f_pre(v: u16) -> bool { true }",
                  "    open spec fn f_post(v: u16, r: Self) -> bool { r.canon() && r.code() == v & 0x7FFF }",
                  f"@fn {e}::From<u16>::from",
                  "@head", "    proof { lemma_and7fff(); }"]
        elif opt.get("opcode"):
            o += [f"@impl {e}::From<u8>",
                  "    open spec fn f_pre(v: u8) -> bool { true }",
                  f"    open spec fn f_post(v: u8, r: Self) -> bool {{ if v <= 2 {{ r.code() == v }} else {{ r == {e}::Reserved }} }}",
                  f"@fn {e}::From<u8>::from"]
        else:
            o += [f"@impl {e}::TryFrom<{t}>",
                  f"    #[verifier::prophetic] open spec fn tf_pre(v: {t}) -> bool {{ true }}",
                  f"    #[verifier::prophetic] open spec fn tf_post(v: {t}, r: Result<Self, DnsError>) -> bool {{",
                  f"        match r {{ Ok(x) => {e}::valid({val}) && x.code() == {val} && x.canon(), Err(_) => !{e}::valid({val}) }}",
                  "    }",
                  f"@fn {e}::TryFrom<{t}>::try_from"]
            if m:
                o += ["@head", "    proof { lemma_and7fff(); }"]
        if not opt.get("opcode") and not opt.get("nofrom"):
            o += [f"@impl {t}::From<{e}>",
                  f"    open spec fn f_pre(v: {e}) -> bool {{ true }}",
                  f"    open spec fn f_post(v: {e}, r: {t}) -> bool {{ r == v.code() }}",
                  f"@fn {t}::From<{e}>::from"]
        if mod in ("resource", "question"):
            o += [f"@impl {e}::ByteConvertible",
                  "    open spec fn bc_bytes(&self) -> Seq<u8> { enc16(self.code()) }",
              "    open spec fn bs_extra(&self) -> nat { 0 }",
                  f"@fn {e}::ByteConvertible::byte_size", f"@fn {e}::ByteConvertible::to_bytes"]
        if opt.get("dnssec"):
            o.append("@endif")
    open(f"{OUT}/gen_enums.vspec", "w").write("\n".join(o) + "\n")

# --- record data ---------------------------------------------------------------------------------
# kinds: u8 u16 u32 name str blob rest fixN; field: (kind, value expression of type per kind, acceptance of the raw value or None)
def num(k, f):
    return (k, f"self.{f}", None)
def name(f):
    return ("name", f"self.{f}.ls()", None)
def raw(k, f):
    return (k, f"self.{f}@", None)
def enum(k, f, t):
    return (k, f"self.{f}.code()", f"{t}::valid")
RD = [
    ("a", "A", [("u32", "ip4(self.0)", None)]),
    ("aaaa", "Aaaa", [("fix16", "ip6b(self.0)", None)]),
    ("cname", "Cname", [name("cname")]),
    ("ns", "Ns", [name("nsdname")]),
    ("ptr", "Ptr", [name("0")]),
    ("mx", "Mx", [num("u16", "preference"), name("exchange")]),
    ("minfo", "Minfo", [name("rmailbx"), name("emailbx")]),
    ("hinfo", "Hinfo", [raw("str", "cpu"), raw("str", "os")]),
    ("soa", "Soa", [name("mname"), name("rname")] + [num("u32", x) for x in "serial refresh retry expire minimum".split()]),
    ("srv", "Srv", [num("u16", "priority"), num("u16", "weight"), num("u16", "port"), name("target")]),
    ("uri", "Uri", [num("u16", "priority"), num("u16", "weight"), raw("rest", "target")]),
    ("null", "Null", [raw("rest", "anything")]),
    ("openpgpkey", "OpenPgpKey", [raw("rest", "0")]),
    ("eui48", "Eui48", [raw("fix6", "0")]),
    ("eui64", "Eui64", [raw("fix8", "0")]),
    ("loc", "Loc", [num("u8", x) for x in "version size horiz_pre vert_pre".split()] + [num("u32", x) for x in "latitude longitude altitude".split()]),
    ("wks", "Wks", [("u32", "ip4(self.address)", None), num("u8", "protocol"), raw("rest", "bitmap")]),
    ("sshfp", "Sshfp", [enum("u8", "algorithm", "Algorithm"), enum("u8", "fingerprint_type", "FingerprintType"), raw("rest", "fingerprint")]),
    ("tlsa", "Tlsa", [enum("u8", "cert_usage", "CertUsage"), enum("u8", "selector", "Selector"), enum("u8", "matching_type", "MatchingType"), raw("rest", "associated_data")]),
    ("dhcid", "Dhcid", [enum("u16", "identifier_code", "IdentifierType"), ("u8", "1", "is_one"), raw("rest", "digest")]),
    ("tkey", "Tkey", [name("algorithm"), num("u32", "inception"), num("u32", "expiration"), enum("u16", "mode", "Mode"), enum("u16", "error", "Error"), raw("blob", "key_data"), raw("blob", "other_data")]),
    ("dnssec", "Ds", [num("u16", "key_tag"), enum("u8", "algorithm", "Algorithm"), enum("u8", "digest_type", "DigestType"), raw("rest", "digest")]),
    ("dnssec", "Rrsig", [enum("u16", "type_covered", "crate::resource::RecordType"), enum("u8", "algorithm", "Algorithm"), num("u8", "labels"), num("u32", "original_ttl"), num("u32", "sig_expiration"), num("u32", "sig_inception"), num("u16", "key_tag"), name("signers_name"), raw("rest", "signature")]),
]
KIND = {"u8": ("K::U8", "N8"), "u16": ("K::U16", "N16"), "u32": ("K::U32", "N32"), "name": ("K::Name", "L"), "str": ("K::Str", "B"), "blob": ("K::Blob16", "B"), "rest": ("K::Rest", "B"), "strs": ("K::Strs", "L")}
def kind(k):
    if k.startswith("fix"):
        return (f"K::Fix({k[3:]})", "B")
    return KIND[k]

def rt_lemma(T, n, extra=(), proof=""):
    ex = "".join(f" && {e}" for e in extra)
    return ["/// The values the wire form can carry",
            f"impl {T} {{ pub open spec fn rep(&self) -> bool {{ oks(Self::layout(), self.fields()){ex} }} }}",
            f"pub proof fn rt_{T.lower()}(x: {T}, d: Seq<u8>, p: int)",
            f"    requires x.rep(), at(d, p, {T}::renc(x.fields())), p + {T}::renc(x.fields()).len() == d.len(),",
            f"    ensures val_of::<{T}>(d, p) == Some(x.fields()),",
            f"{{ {proof}reveal_with_fuel(wnth, {n+1}); rt_layout({T}::layout(), x.fields(), d, p); }}"]

def gen_rdata():
    o = ["// GENERATED by tools/gen_contracts.py"]
    for m, T, fs in RD:
        n = len(fs)
        if m == "dnssec":
            o.append("@if dnssec")
        ks = "kn()"
        for k, _, _ in reversed(fs):
            ks = f"kc({kind(k)[0]}, {ks})"
        ws = "wn()"
        for k, v, _ in reversed(fs):
            ws = f"wc(W::{kind(k)[1]}({v}), {ws})"
        o += [f"@mod rdata::{m}", "@spec",
              f"impl {T} {{ pub open spec fn layout() -> Ks {{ {ks} }} }}",
              f"impl Rec for {T} {{",
              f"    open spec fn fields(&self) -> Ws {{ {ws} }}",
              f"    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> {{ decs(Self::layout(), d, p) }}",
              f"    open spec fn renc(w: Ws) -> Seq<u8> {{ encs(Self::layout(), w) }}"]
        acc = [(i, kind(k)[1], a) for i, (k, _, a) in enumerate(fs) if a]
        if acc:
            o.append("    open spec fn acc(w: Ws) -> bool { " + " && ".join(f"(match wnth(w, {i}) {{ W::{kk}(x) => {a}(x), _ => false }})" for i, kk, a in acc) + " }")
        o.append("}")
        o += rt_lemma(T, n, [f"{a}({v})" for _, v, a in fs if a in ("Mode::valid", "Error::valid")], "broadcast use axiom_ip6_len; " if m == "aaaa" else "")
        pre = "broadcast use axiom_ip6_len; " if m == "aaaa" else ""
        rd = pre + f"reveal_with_fuel(decs, {n+1});" + (f" reveal_with_fuel(wnth, {n+1});" if acc else "")
        rv = pre + f"reveal_with_fuel(encs, {n+1});"
        o += [f"@impl {T}::TryFrom<&mut DnsBuffer>",
              "    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool { v.wf() }",
              "    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool { parse_post(v, r) }",
              f"@fn {T}::TryFrom<&mut DnsBuffer>::try_from", "@head", f"    proof {{ {rd} }}",
              f"@impl {T}::ByteConvertible",
              "    open spec fn bc_bytes(&self) -> Seq<u8> { Self::renc(self.fields()) }",
              "    open spec fn bs_extra(&self) -> nat { 0 }",
              f"@fn {T}::ByteConvertible::byte_size", "@head", f"    proof {{ {rv} }}",
              f"@fn {T}::ByteConvertible::to_bytes", "@head", f"    proof {{ {rv} }}",
              "@tail", "    proof { assert(__ret@ =~= self.bc_bytes()); }"]
        if m == "dnssec":
            o.append("@endif")
    open(f"{OUT}/gen_rdata.vspec", "w").write("\n".join(o) + "\n")

BITMAP = '''
@impl {T}::TryFrom<&mut DnsBuffer>
    #[verifier::prophetic] open spec fn tf_pre(v: &mut DnsBuffer<'a>) -> bool {{ v.wf() }}
    #[verifier::prophetic] open spec fn tf_post(v: &mut DnsBuffer<'a>, r: Result<Self, DnsError>) -> bool {{ parse_post(v, r) }}
@fn {T}::TryFrom<&mut DnsBuffer>::try_from [params=buffer; muts=types; attr=#[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(80)]]
@head
    hide(codes); hide(bm_part); hide(all_valid); hide(win); hide(dec_bm);
    broadcast use {{axiom_bsq_empty, lemma_codes_empty}};
    proof {{ reveal_with_fuel(decs, 4); reveal_with_fuel(wnth, 4); lemma_shift8(); lemma_all_valid(); }}
    let ghost d = buffer.data@;
@loop 1
    invariant buffer.wf(), buffer.data@ == d, all_valid(codes(bsq(types))),
        dec_bm(d, {p0}, ISet::empty()) == dec_bm(d, buffer.pos as int, codes(bsq(types))),
    decreases buffer.rest(),
@lhead 1
    proof {{ reveal_with_fuel(dec_bm, 2); }}
    let ghost p = buffer.pos as int;
    let ghost s0 = codes(bsq(types));
    proof {{ if d[p + 1] <= 32 {{ lemma_bm_part(s0, d, p); }} }}
@lafter 1
    proof {{ reveal_with_fuel(dec_bm, 2); }}
@loop 2
    invariant
        all_valid(codes(bsq(types))), bm_part(codes(bsq(types)), s0, d, p, 8 * $i),
@loop 3
    invariant $n == 8, $i <= 8,
        all_valid(codes(bsq(types))), bm_part(codes(bsq(types)), s0, d, p, 8 * (__i2 - 1) + $i),
@lhead 3
    proof {{ lemma_bm_bit(bsq(types), s0, d, p, 8 * (__i2 - 1) + $i); lemma_shift8(); }}
@impl {T}::ByteConvertible
    open spec fn bc_bytes(&self) -> Seq<u8> {{ Self::renc(self.fields()) }}
    open spec fn bs_extra(&self) -> nat {{ 0 }}
@fn {T}::ByteConvertible::byte_size [muts=byte_size,rtype_iter,block_num,last_rtype; attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(80)]]
@head
    broadcast use axiom_bsq;
    proof {{ reveal_with_fuel(encs, 4); crate::resource::lemma_type_codes(bsq(self.types)); }}
    let ghost q = bsq(self.types);
    let ghost pre = {pre};
@loop 1
    invariant_except_break
        bm_inv(q, rtype_iter.i as int, block_num as int), rtype_iter.i <= q.len(), rtype_iter.s@.len() == q.len(),
        forall|k: int| 0 <= k < q.len() ==> *rtype_iter.s@[k] == q[k],
        match last_rtype {{ Some(x) => rtype_iter.i > 0 && x == q[rtype_iter.i - 1].code(), None => rtype_iter.i == 0 }},
        byte_size == pre.len() + enc_bm(codes(q), block_num as int).len(),
        enc_bm(codes(q), block_num as int).len() <= 40 * block_num,
    ensures byte_size == pre.len() + enc_bm(codes(q), 256).len(),
    decreases q.len() - rtype_iter.i,
@lhead 1
    proof {{ lemma_bm_step(q, rtype_iter.i as int, block_num as int);
        reveal_with_fuel(enc_bm, 2); }}
@fn {T}::ByteConvertible::to_bytes [muts=buffer,block_num,block_len,block_data,rtype_iter; attr=#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover] #[verifier::rlimit(80)]]
@head
    hide(wo); hide(codes); hide(enc_win); hide(asc);
    broadcast use axiom_bsq;
    proof {{ reveal_with_fuel(encs, 4); crate::resource::lemma_type_codes(bsq(self.types)); lemma_bm_init(bsq(self.types)); }}
    let ghost q = bsq(self.types);
    let ghost pre = {pre};
@loop 1
    invariant_except_break
        bm_inv(q, rtype_iter.i as int, block_num as int), rtype_iter.i <= q.len(), rtype_iter.s@.len() == q.len(),
        forall|k: int| 0 <= k < q.len() ==> *rtype_iter.s@[k] == q[k],
        block_len == bm_len(q, rtype_iter.i as int),
        forall|k: int| 0 <= k < 32 ==> block_data@[k] == wo(codes(q.take(rtype_iter.i as int)), block_num as int, k),
        buffer@ == pre + enc_bm(codes(q), block_num as int),
    ensures buffer@ == pre + enc_bm(codes(q), 256),
    decreases q.len() - rtype_iter.i,
@lhead 1
    let ghost i0 = rtype_iter.i as int;
    let ghost b0 = buffer@;
    proof {{ lemma_bm_step(q, i0, block_num as int);
        reveal_with_fuel(enc_bm, 2);
        assert(block_data@.subrange(0, block_len + 1) =~= Seq::new((block_len + 1) as nat, |k: int| wo(codes(q.take(i0)), block_num as int, k))); }}
@tail
    proof {{ assert(__ret@ =~= self.bc_bytes()); }}
'''

def gen_bitmaps():
    out = '''@mod resource
@spec
impl VKey for RecordType { open spec fn vk(&self) -> int { self.code() as int } }
pub proof fn lemma_type_codes(q: Seq<RecordType>) ensures forall|i: int| 0 <= i < q.len() ==> 0 <= (#[trigger] q[i]).vk() <= 257 { }
pub open spec fn all_valid(s: ISet<u16>) -> bool { forall|c: u16| #[trigger] s.contains(c) ==> RecordType::valid(c) }
pub proof fn lemma_all_valid() ensures all_valid(ISet::empty()) { }
/// One bit of a window is read
pub proof fn lemma_bm_bit(q: Seq<RecordType>, s0: ISet<u16>, d: Seq<u8>, p: int, n: int)
    requires bm_part(codes(q), s0, d, p, n), all_valid(codes(q)), 0 <= n < 8 * d[p + 1], d[p + 1] <= 32, 0 <= p, p + 2 + d[p + 1] <= d.len(),
    ensures !obit(d[p + 2 + n / 8], n % 8) ==> bm_part(codes(q), s0, d, p, n + 1),
        obit(d[p + 2 + n / 8], n % 8) ==> {
            let c = (256 * d[p] + n) as u16;
            &&& forall|x: RecordType| x.code() == c ==> bm_part(codes(#[trigger] ins(q, x)), s0, d, p, n + 1) && all_valid(codes(ins(q, x)))
            &&& !RecordType::valid(c) ==> match dec_bm(d, p, s0) { Some(r) => !all_valid(r), None => true }
        },
{
    hide(RecordType::valid); hide(codes);
    let c = (256 * d[p] + n) as u16;
    lemma_win_step(d, p, n);
    if obit(d[p + 2 + n / 8], n % 8) {
        assert forall|x: RecordType| x.code() == c implies bm_part(codes(#[trigger] ins(q, x)), s0, d, p, n + 1) && all_valid(codes(ins(q, x))) by {
            lemma_codes_ins(q, x); lemma_code_valid(x);
            assert(codes(ins(q, x)) =~= s0.union(win(d, p, n + 1)));
        }
        lemma_dec_bm_mono(d, p + 2 + d[p + 1], s0.union(win(d, p, 256)));
        assert(win(d, p, n + 1).contains(c));
        assert(win(d, p, 256).contains(c));
        if let Some(r) = dec_bm(d, p, s0) { assert(r.contains(c)); }
    }
}
pub proof fn lemma_code_valid(x: RecordType) ensures RecordType::valid(x.code()) { }
pub proof fn lemma_codes_valid(q: Seq<RecordType>) ensures all_valid(codes(q))
{ assert forall|c: u16| #[trigger] codes(q).contains(c) implies RecordType::valid(c) by { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).vk() == c; lemma_code_valid(q[i]); } }
@mod rdata::csync
@spec
use crate::resource::{all_valid, lemma_all_valid, lemma_bm_bit};
impl Csync { pub open spec fn layout() -> Ks { kc(K::U32, kc(K::U16, kc(K::Bm, kn()))) } }
impl Rec for Csync {
    open spec fn fields(&self) -> Ws { wc(W::N32(self.soa_serial), wc(W::N16(self.flags.0), wc(W::S(codes(bsq(self.types))), wn()))) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { wnth(w, 1)->N16_0 & 0xFFFC == 0 && all_valid(wnth(w, 2)->S_0) }
}
''' + "\n".join(rt_lemma("Csync", 3, ["self.flags.0 & 0xFFFC == 0"], "crate::resource::lemma_codes_valid(bsq(x.types)); ")) + '''
@impl Flags::TryFrom<u16>
    #[verifier::prophetic] open spec fn tf_pre(v: u16) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: u16, r: Result<Self, DnsError>) -> bool { match r { Ok(f) => f.0 == v && v & 0xFFFC == 0, Err(_) => v & 0xFFFC != 0 } }
@fn Flags::TryFrom<u16>::try_from
@head
    proof { assert(forall|x: u16| #![trigger x & 0xFFFC] (x & 0xFFFC == 0) == (x <= 3)) by(bit_vector); }
@impl u16::From<Flags>
    open spec fn f_pre(v: Flags) -> bool { true }
    open spec fn f_post(v: Flags, r: u16) -> bool { r == v.0 }
@fn u16::From<Flags>::from
@fn Flags::immediate
    ensures r == (self.0 & 1 != 0),
@fn Flags::soa_minimum
    ensures r == (self.0 & 2 != 0),
@fn Flags::set_immediate [params=self,active]
    ensures final(self).0 == if active { old(self).0 | 1 } else { old(self).0 & !1u16 },
@fn Flags::set_soa_minimum [params=self,active]
    ensures final(self).0 == if active { old(self).0 | 2 } else { old(self).0 & !2u16 },
'''
    out += BITMAP.format(T='Csync', head_inv="soa_serial == be32(buffer.data@, old(buffer).pos as int), flags.0 == be16(buffer.data@, old(buffer).pos + 4), flags.0 & 0xFFFC == 0, old(buffer).pos + 6 <= buffer.data@.len()", p0="old(buffer).pos + 6", pre="enc32(self.soa_serial) + enc16(self.flags.0)")
    out += '''@if dnssec
@mod rdata::dnssec
@spec
use crate::resource::{all_valid, lemma_all_valid, lemma_bm_bit};
impl Nsec { pub open spec fn layout() -> Ks { kc(K::Name, kc(K::Bm, kn())) } }
impl Rec for Nsec {
    open spec fn fields(&self) -> Ws { wc(W::L(self.next_domain_name.ls()), wc(W::S(codes(bsq(self.types))), wn())) }
    open spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)> { decs(Self::layout(), d, p) }
    open spec fn renc(w: Ws) -> Seq<u8> { encs(Self::layout(), w) }
    open spec fn acc(w: Ws) -> bool { all_valid(wnth(w, 1)->S_0) }
}
''' + "\n".join(rt_lemma("Nsec", 2, [], "crate::resource::lemma_codes_valid(bsq(x.types)); ")) + "\n"
    out += BITMAP.format(T='Nsec', head_inv="name_at(buffer.data@, old(buffer).pos as int, old(buffer).pos as int) == Some(next_domain_name.ls()), name_end(buffer.data@, old(buffer).pos as int) <= buffer.pos", p0="name_end(buffer.data@, old(buffer).pos as int)", pre="enc_name(self.next_domain_name.ls())")
    out += "@endif\n"
    open(f'{OUT}/gen_bitmaps.vspec','w').write(out)

gen_enums()
gen_rdata()
gen_bitmaps()

RDATA = [("A","A","a"),("NS","Ns","ns"),("CNAME","Cname","cname"),("SOA","Soa","soa"),("NULL","Null","null"),("WKS","Wks","wks"),("PTR","Ptr","ptr"),
    ("HINFO","Hinfo","hinfo"),("MINFO","Minfo","minfo"),("MX","Mx","mx"),("TXT","Txt","txt"),("AAAA","Aaaa","aaaa"),("LOC","Loc","loc"),("SRV","Srv","srv"),
    ("NAPTR","Naptr","naptr"),("OPT","Opt","opt"),("APL","Apl","apl"),("DS","Ds","dnssec"),("SSHFP","Sshfp","sshfp"),("IPSECKEY","IpSecKey","ipseckey"),
    ("RRSIG","Rrsig","dnssec"),("NSEC","Nsec","dnssec"),("DNSKEY","DnsKey","dnssec"),("DHCID","Dhcid","dhcid"),("TLSA","Tlsa","tlsa"),("HIP","Hip","hip"),
    ("CDS","Ds","dnssec"),("CDNSKEY","DnsKey","dnssec"),("OPENPGPKEY","OpenPgpKey","openpgpkey"),("CSYNC","Csync","csync"),("SVCB","Svcb","svcb"),
    ("EUI48","Eui48","eui48"),("EUI64","Eui64","eui64"),("TKEY","Tkey","tkey"),("TSIG","Tsig","tsig"),("URI","Uri","uri"),("CAA","Caa","caa")]

def gen_recorddata():
    def arms(f):
        o = []
        for v, T, m in RDATA:
            if m == "dnssec": o.append("@if dnssec")
            o.append("            " + f(v, T))
            if m == "dnssec": o.append("@endif")
        return o
    o = ["@mod rdata", "@trait RData", "    spec fn rt(&self) -> RecordType;", "    spec fn ird(self) -> RecordData;",
         "@fn RData::record_type", "    ensures r == self.rt(),", "@fn RData::into_record_data", "    ensures r == self.ird(),",
         "@spec", "impl RecordData {",
         "    /// The record type this data belongs to",
         "    pub open spec fn rtype(&self) -> RecordType {", "        match *self {"] + arms(lambda v, T: f"RecordData::{v}(_) => RecordType::{v},") + ["        }", "    }",
         "    pub open spec fn rfields(&self) -> Ws {", "        match *self {"] + arms(lambda v, T: f"RecordData::{v}(x) => x.fields(),") + ["        }", "    }",
         "    pub open spec fn rbytes(&self) -> Seq<u8> {", "        match *self {"] + arms(lambda v, T: f"RecordData::{v}(x) => " + ("enc_opts(opt_of(hm_seq(x.0)))," if v == "OPT" else f"{T}::renc(x.fields()),")) + ["        }", "    }",
         "    pub open spec fn rbs(&self) -> nat {", "        match *self {"] + ["            RecordData::SVCB(x) => 4 * bsq(x.params).len(),", "            _ => 0,"] + ["        }", "    }",
         "    /// The values the wire form can carry",
         "    pub open spec fn rrep(&self) -> bool {", "        match *self {"] + arms(lambda v, T: f"RecordData::{v}(x) => x.rep(),") + ["        }", "    }",
         "}",
         "/// The value of record data of type `t` that occupies `p` up to the end of `d`",
         "pub open spec fn rd_val(t: RecordType, d: Seq<u8>, p: int) -> Option<Ws> {", "        match t {"] + arms(lambda v, T: f"RecordType::{v} => val_of::<{T}>(d, p),") + ["        }", "}",
         "pub proof fn lemma_rbs(x: RecordData) ensures x.rbs() <= x.rbytes().len() {",
         "    match x { RecordData::SVCB(s) => { reveal_with_fuel(wnth, 3); lemma_enc_params_len(bsq(s.params).map_values(svcb::pf())); }, _ => {} }", "}",
         "/// Record data as written is read back",
         "pub proof fn rt_rdata(x: RecordData, d: Seq<u8>, p: int)",
         "    requires x.rrep(), at(d, p, x.rbytes()), p + x.rbytes().len() == d.len(),",
         "    ensures rd_val(x.rtype(), d, p) == Some(x.rfields()),",
         "{", "    hide(val_of);", "        match x {"] + [a for v, T, m in RDATA for a in (["@if dnssec"] if m == "dnssec" else []) + [f"            RecordData::{v}(y) => {m}::rt_{T.lower()}(y, d, p),"] + (["@endif"] if m == "dnssec" else [])] + ["        }", "}",
         "@fn RecordData::from [params=rec_type,buffer]",
         "    requires old(buffer).wf(),",
         "    ensures final(buffer).same(old(buffer)), match r {",
         "        Ok(x) => x.rtype() == rec_type && rd_val(rec_type, old(buffer).data@, old(buffer).pos as int) == Some(x.rfields()),",
         "        Err(_) => rd_val(rec_type, old(buffer).data@, old(buffer).pos as int) is None },",
         "@head", "    hide(val_of); hide(end_of);",
         "@impl RecordData::ByteConvertible",
         "    open spec fn bc_bytes(&self) -> Seq<u8> { self.rbytes() }",
         "    open spec fn bs_extra(&self) -> nat { self.rbs() }",
         "@fn RecordData::ByteConvertible::byte_size", "@fn RecordData::ByteConvertible::to_bytes"]
    for v, T, m in RDATA:
        if v in ("CDS", "CDNSKEY"): continue
        if m == "dnssec": o.append("@if dnssec")
        o += [f"@mod rdata::{m}", f"@impl {T}::RData", f"    open spec fn rt(&self) -> RecordType {{ RecordType::{v} }}", f"    open spec fn ird(self) -> RecordData {{ RecordData::{v}(self) }}",
              f"@fn {T}::RData::record_type", f"@fn {T}::RData::into_record_data"]
        if m == "dnssec": o.append("@endif")
    open(f"{OUT}/gen_recorddata.vspec", "w").write("\n".join(o) + "\n")

gen_recorddata()
# ---- compressed forms
CF = [  # type, module, fields in order: ("n16"|"n32"|"name", expression)
    ("Ns", "ns", [("name", "nsdname")]),
    ("Cname", "cname", [("name", "cname")]),
    ("Ptr", "ptr", [("name", "0")]),
    ("Mx", "mx", [("n16", "preference"), ("name", "exchange")]),
    ("Minfo", "minfo", [("name", "rmailbx"), ("name", "emailbx")]),
    ("Soa", "soa", [("name", "mname"), ("name", "rname"), ("n32", "serial"), ("n32", "refresh"), ("n32", "retry"), ("n32", "expire"), ("n32", "minimum")]),
    ("Srv", "srv", [("n16", "priority"), ("n16", "weight"), ("n16", "port"), ("name", "target")]),
]

C_GOAL = "c_in(names@, e, u, offset + __ret@.len()) && self.c_post(e, offset as int, __ret@.len() as int)"

def c_impl(T, names):
    return [f"@impl {T}::CompressedByteConvertible",
            "    open spec fn c_len(&self) -> nat { Self::renc(self.fields()).len() }",
            "    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rep() && " + " && ".join(f"sfx_in(self.{n}.ls(), u)" for n in names) + " }",
            f"    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool {{ e.len() == off + n ==> val_of::<{T}>(e, off) == Some(self.fields()) }}"]

def c_all(body):
    return ["        assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(old(names)@, e, u, offset as int) && ate(e, offset as int, __ret@) && self.c_pre(u)",
            f"            implies {C_GOAL} by {{"] + ["            " + b for b in body] + ["        }"]

def gen_compressed():
    o = ["// Generated by tools/gen_contracts.py"]
    w = {"n16": 2, "n32": 4}
    for T, m, fs in CF:
        names = [x for k, x in fs if k == "name"]
        i0 = [k for k, _ in fs].index("name")
        lead, trail = fs[:i0], [f for f in fs[i0:] if f[0] != "name"]
        body = ["let off = offset as int;", "let n = __ret@.len() as int;", f"lemma_c_ok_{T.lower()}(*self);"]
        at, req = 0, []
        for k, x in lead:
            body += [f"assert(__ret@.subrange({at}, {at + w[k]}) =~= enc{k[1:]}(self.{x}));", f"lemma_ate(e, off, __ret@, {at}, {at + w[k]});"]
            req.append((f"at(e, off + {at}, enc{k[1:]}(x.{x}))", f"lemma_at_{k[1:]}(e, off + {at}, x.{x});"))
            at += w[k]
        if at: body.append(f"lemma_c_skip(old(names)@, e, u, off, {at});")
        pos = f"off + {at}" if at else "off"
        for x in names:
            req.append((f"name_at(e, {pos}, {pos}) == Some(x.{x}.ls())", ""))
            pos = f"name_end(e, {pos})"
        tl = sum(w[k] for k, _ in trail)
        back = tl
        for k, x in trail:
            body += [f"assert(__ret@.subrange(n - {back}, n - {back} + {w[k]}) =~= enc{k[1:]}(self.{x}));", f"lemma_ate(e, off, __ret@, n - {back}, n - {back} + {w[k]});"]
            req.append((f"at(e, {pos} + {tl - back}, enc{k[1:]}(x.{x}))", f"lemma_at_{k[1:]}(e, {pos} + {tl - back}, x.{x});"))
            back -= w[k]
        if tl: body.append(f"lemma_c_skip(names@, e, u, off + n - {tl}, {tl});")
        body.append(f"lemma_c_{T.lower()}(*self, e, off);")
        fu = len(fs) + 1
        o += [f"@mod rdata::{m}", "@spec",
              f"pub proof fn lemma_c_ok_{T.lower()}(x: {T}) requires x.rep() ensures {', '.join(f'name_ok(x.{n}.ls())' for n in names)} {{ reveal_with_fuel(oks, {fu}); }}",
              "/// Names that read back where they stand make the record data read back",
              f"pub proof fn lemma_c_{T.lower()}(x: {T}, e: Seq<u8>, off: int)",
              f"    requires 0 <= off, x.rep(), {', '.join(r for r, _ in req)},",
              f"    ensures val_of::<{T}>(e, off) == Some(x.fields()),",
              f"{{ hide(name_at); hide(name_end); reveal_with_fuel(decs, {fu}); {' '.join(l for _, l in req)} }}"] + c_impl(T, names)
        o += [f"@fn {T}::CompressedByteConvertible::byte_size_compressed [params=self,names,offset]", "@head", f"    proof {{ reveal_with_fuel(encs, {fu}); }}"]
        o += [f"@fn {T}::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]",
              "@head", f"    hide(name_at); hide(name_end); hide(sfx_in); hide(c_in); hide(val_of); hide({T}::rep);", f"    proof {{ reveal_with_fuel(encs, {fu}); }}",
              "@tail", "    proof {"] + c_all(body) + ["    }"]
    CN = {T: [x for k, x in fs if k == "name"] for T, m, fs in CF}
    CN.update({"Naptr": ["replacement"], "Nsec": ["next_domain_name"]})
    def arm2(f):
        r = []
        for v, T, m in RDATA:
            if m == "dnssec": r.append("@if dnssec")
            r.append("            " + f(v, T))
            if m == "dnssec": r.append("@endif")
        return r
    o += ["@mod rdata", "@spec", "impl RecordData {", "    /// The names that may be written in compressed form are in `u`",
          "    pub open spec fn rnames(&self, u: ISet<Seq<Seq<u8>>>) -> bool {", "        match *self {"]
    for T, ns in CN.items():
        if T == "Nsec": o.append("@if dnssec")
        o.append(f"            RecordData::{T.upper()}(x) => " + " && ".join(f"sfx_in(x.{n}.ls(), u)" for n in ns) + ",")
        if T == "Nsec": o.append("@endif")
    o += ["            _ => true,", "        }", "    }", "}",
          "@impl RecordData::CompressedByteConvertible",
          "    open spec fn c_len(&self) -> nat { self.rbytes().len() }",
          "    open spec fn c_pre(&self, u: ISet<Seq<Seq<u8>>>) -> bool { self.rrep() && self.rnames(u) }",
          "    open spec fn c_post(&self, e: Seq<u8>, off: int, n: int) -> bool { e.len() == off + n ==> rd_val(self.rtype(), e, off) == Some(self.rfields()) }",
          "@fn RecordData::CompressedByteConvertible::to_bytes_compressed [params=self,names,offset]",
          "@head", "    hide(c_in); hide(sfx_in); hide(val_of);",
          "@tail", "    proof {"]
    o += c_all(["if __ret@ == self.rbytes() && names@ == old(names)@ {", "    lemma_ate(e, offset as int, __ret@, 0, __ret@.len() as int);", "    assert(__ret@.subrange(0, __ret@.len() as int) =~= __ret@);",
                "    lemma_c_skip(names@, e, u, offset as int, __ret@.len() as int);", "    if e.len() == offset + __ret@.len() { rt_rdata(*self, e, offset as int); }", "}"]) + ["    }"]
    open(f"{OUT}/gen_compressed.vspec", "w").write("\n".join(o) + "\n")

gen_compressed()
