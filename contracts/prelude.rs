pub mod vprelude {
#[allow(unused_imports)] use vstd::prelude::*;
pub use core::cmp::Ordering;
pub use std::collections::{HashMap, BTreeSet};
pub use std::net::{Ipv4Addr, Ipv6Addr};
use crate::error::DnsError;
pub use std::time::SystemTimeError;

// ---------------------------------------------------------------------------------------------
// Big-endian numbers
// ---------------------------------------------------------------------------------------------
pub open spec fn enc16(x: u16) -> Seq<u8> { seq![(x / 256) as u8, (x % 256) as u8] }
pub open spec fn enc32(x: u32) -> Seq<u8> {
    seq![(x / 0x1000000) as u8, ((x / 0x10000) % 256) as u8, ((x / 0x100) % 256) as u8, (x % 256) as u8]
}
pub open spec fn be16(d: Seq<u8>, p: int) -> u16 { (d[p] as int * 256 + d[p + 1] as int) as u16 }
pub open spec fn be32(d: Seq<u8>, p: int) -> u32 {
    (d[p] as int * 0x1000000 + d[p + 1] as int * 0x10000 + d[p + 2] as int * 0x100 + d[p + 3] as int) as u32
}
/// Big-endian value of a byte string of any length
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as nat }
}

// ---------------------------------------------------------------------------------------------
// Domain names (RFC 1035 section 3.1 and 4.1.4)
// ---------------------------------------------------------------------------------------------
/// The labels the name at `p` spells; `s` is where the current run of labels begins, and a
/// compression pointer has to refer to a position before it.
pub open spec fn name_at(d: Seq<u8>, p: int, s: int) -> Option<Seq<Seq<u8>>>
    decreases s, d.len() - p
{
    if p < 0 || s < 0 || p >= d.len() { None }
    else if d[p] == 0 { Some(Seq::empty()) }
    else if d[p] < 64 {
        if p + 1 + d[p] > d.len() { None }
        else {
            match name_at(d, p + 1 + d[p], s) {
                Some(t) => Some(seq![d.subrange(p + 1, p + 1 + d[p])] + t),
                None => None,
            }
        }
    }
    else if d[p] < 192 { None }
    else if p + 2 > d.len() { None }
    else {
        let t = (d[p] - 192) * 256 + d[p + 1];
        if t < s { name_at(d, t, t) } else { None }
    }
}
/// The position behind the name at `p`
pub open spec fn name_end(d: Seq<u8>, p: int) -> int
    decreases d.len() - p
{
    if p < 0 || p >= d.len() { p }
    else if d[p] == 0 { p + 1 }
    else if d[p] < 64 { if p + 1 + d[p] > d.len() { p } else { name_end(d, p + 1 + d[p]) } }
    else { p + 2 }
}
/// A label as it is written: empty labels are left out
pub open spec fn enc_label(l: Seq<u8>) -> Seq<u8> {
    if l.len() == 0 { Seq::empty() } else { seq![l.len() as u8] + l }
}
pub open spec fn enc_labels(ls: Seq<Seq<u8>>) -> Seq<u8>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { enc_labels(ls.drop_last()) + enc_label(ls.last()) }
}
pub open spec fn enc_name(ls: Seq<Seq<u8>>) -> Seq<u8> { enc_labels(ls) + seq![0u8] }
pub open spec fn label_ok(l: Seq<u8>) -> bool { 1 <= l.len() <= 63 }
pub open spec fn name_ok(ls: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> label_ok(#[trigger] ls[i]) }
pub open spec fn bytes_of(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { v.map_values(|x: Vec<u8>| x@) }

// ---------------------------------------------------------------------------------------------
// Record layouts
// ---------------------------------------------------------------------------------------------
/// Kinds of wire fields
pub enum K { U8, U16, U32, Fix(nat), Str, Blob16, Name, Rest, Strs, Names, Bm }
/// Values of wire fields
#[verifier::ext_equal]
pub enum W { N8(u8), N16(u16), N32(u32), B(Seq<u8>), L(Seq<Seq<u8>>), NL(Seq<Seq<Seq<u8>>>), M(Map<u16, Seq<u8>>), S(ISet<u16>), P(Seq<PV>) }
/// A service parameter: key and value octets
#[verifier::ext_equal]
pub struct PV { pub k: u16, pub v: Seq<u8> }
pub enum Ks { Nil, Cons(K, Box<Ks>) }
#[verifier::ext_equal]
pub enum Ws { Nil, Cons(W, Box<Ws>) }

pub open spec fn dec_strs(d: Seq<u8>, p: int) -> Option<Seq<Seq<u8>>>
    decreases d.len() - p
{
    if p < 0 || p > d.len() { None }
    else if p == d.len() { Some(Seq::empty()) }
    else if p + 1 + d[p] > d.len() { None }
    else {
        match dec_strs(d, p + 1 + d[p]) {
            Some(t) => Some(seq![d.subrange(p + 1, p + 1 + d[p])] + t),
            None => None,
        }
    }
}
pub open spec fn dec_names(d: Seq<u8>, p: int) -> Option<Seq<Seq<Seq<u8>>>>
    decreases d.len() - p
{
    if p < 0 || p > d.len() { None }
    else if p == d.len() { Some(Seq::empty()) }
    else if name_end(d, p) <= p || name_end(d, p) > d.len() { None }
    else {
        match (name_at(d, p, p), dec_names(d, name_end(d, p))) {
            (Some(n), Some(t)) => Some(seq![n] + t),
            _ => None,
        }
    }
}
pub open spec fn dec1(k: K, d: Seq<u8>, p: int) -> Option<(W, int)> {
    match k {
        K::U8 => if p + 1 <= d.len() { Some((W::N8(d[p]), p + 1)) } else { None },
        K::U16 => if p + 2 <= d.len() { Some((W::N16(be16(d, p)), p + 2)) } else { None },
        K::U32 => if p + 4 <= d.len() { Some((W::N32(be32(d, p)), p + 4)) } else { None },
        K::Fix(n) => if p + n <= d.len() { Some((W::B(d.subrange(p, p + n)), p + n)) } else { None },
        K::Str => if p + 1 <= d.len() && p + 1 + d[p] <= d.len() {
            Some((W::B(d.subrange(p + 1, p + 1 + d[p])), p + 1 + d[p])) } else { None },
        K::Blob16 => if p + 2 <= d.len() && p + 2 + be16(d, p) <= d.len() {
            Some((W::B(d.subrange(p + 2, p + 2 + be16(d, p))), p + 2 + be16(d, p))) } else { None },
        K::Name => match name_at(d, p, p) { Some(n) => Some((W::L(n), name_end(d, p))), None => None },
        K::Rest => if p <= d.len() { Some((W::B(d.subrange(p, d.len() as int)), d.len() as int)) } else { None },
        K::Strs => match dec_strs(d, p) { Some(n) => Some((W::L(n), d.len() as int)), None => None },
        K::Names => match dec_names(d, p) { Some(n) => Some((W::NL(n), d.len() as int)), None => None },
        K::Bm => match dec_bm(d, p, ISet::empty()) { Some(n) => Some((W::S(n), d.len() as int)), None => None },
    }
}
pub open spec fn decs(ks: Ks, d: Seq<u8>, p: int) -> Option<(Ws, int)>
    decreases ks
{
    match ks {
        Ks::Nil => Some((Ws::Nil, p)),
        Ks::Cons(k, r) => match dec1(k, d, p) {
            None => None,
            Some((w, e)) => match decs(*r, d, e) {
                None => None,
                Some((ws, e2)) => Some((Ws::Cons(w, Box::new(ws)), e2)),
            },
        },
    }
}
pub open spec fn enc_strs(ls: Seq<Seq<u8>>) -> Seq<u8>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { enc_strs(ls.drop_last()) + (seq![ls.last().len() as u8] + ls.last()) }
}
pub open spec fn enc_names(ls: Seq<Seq<Seq<u8>>>) -> Seq<u8>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else { enc_names(ls.drop_last()) + enc_name(ls.last()) }
}
pub open spec fn enc1(k: K, w: W) -> Seq<u8> {
    match (k, w) {
        (K::U8, W::N8(x)) => seq![x],
        (K::U16, W::N16(x)) => enc16(x),
        (K::U32, W::N32(x)) => enc32(x),
        (K::Fix(_), W::B(b)) => b,
        (K::Str, W::B(b)) => seq![b.len() as u8] + b,
        (K::Blob16, W::B(b)) => enc16(b.len() as u16) + b,
        (K::Name, W::L(n)) => enc_name(n),
        (K::Rest, W::B(b)) => b,
        (K::Strs, W::L(n)) => enc_strs(n),
        (K::Names, W::NL(n)) => enc_names(n),
        (K::Bm, W::S(s)) => enc_bm(s, 256),
        _ => Seq::empty(),
    }
}
pub open spec fn encs(ks: Ks, ws: Ws) -> Seq<u8>
    decreases ks
{
    match (ks, ws) {
        (Ks::Cons(k, kr), Ws::Cons(w, wr)) => enc1(k, w) + encs(*kr, *wr),
        _ => Seq::empty(),
    }
}
pub open spec fn names_ok_all(ns: Seq<Seq<Seq<u8>>>) -> bool { forall|i: int| 0 <= i < ns.len() ==> name_ok(#[trigger] ns[i]) }
pub open spec fn strs_ok_all(ns: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).len() <= 255 }
/// The values a layout can carry
pub open spec fn ok1(k: K, w: W) -> bool {
    match (k, w) {
        (K::U8, W::N8(_)) => true,
        (K::U16, W::N16(_)) => true,
        (K::U32, W::N32(_)) => true,
        (K::Fix(n), W::B(b)) => b.len() == n,
        (K::Str, W::B(b)) => b.len() <= 255,
        (K::Blob16, W::B(b)) => b.len() <= 65535,
        (K::Name, W::L(n)) => name_ok(n),
        (K::Rest, W::B(_)) => true,
        (K::Strs, W::L(n)) => strs_ok_all(n),
        (K::Names, W::NL(n)) => names_ok_all(n),
        (K::Bm, W::S(_)) => true,
        _ => false,
    }
}
pub open spec fn tail_kind(k: K) -> bool { k is Rest || k is Strs || k is Names || k is Bm }
/// Only the last field may take everything that is left
pub open spec fn oks(ks: Ks, ws: Ws) -> bool
    decreases ks
{
    match (ks, ws) {
        (Ks::Nil, Ws::Nil) => true,
        (Ks::Cons(k, kr), Ws::Cons(w, wr)) => ok1(k, w) && oks(*kr, *wr) && (tail_kind(k) ==> *kr is Nil),
        _ => false,
    }
}
pub open spec fn has_tail(ks: Ks) -> bool decreases ks {
    match ks { Ks::Nil => false, Ks::Cons(k, r) => tail_kind(k) || has_tail(*r) }
}
pub open spec fn k1(a: K) -> Ks { Ks::Cons(a, Box::new(Ks::Nil)) }
pub open spec fn kc(a: K, r: Ks) -> Ks { Ks::Cons(a, Box::new(r)) }
pub open spec fn wc(a: W, r: Ws) -> Ws { Ws::Cons(a, Box::new(r)) }
pub open spec fn wn() -> Ws { Ws::Nil }
pub open spec fn kn() -> Ks { Ks::Nil }

// ---------------------------------------------------------------------------------------------
// Stand-ins for std traits and functions (assumed contracts, see DESIGN.md)
// ---------------------------------------------------------------------------------------------
pub trait VTryFrom<T>: Sized {
    type Error;
    #[verifier::prophetic] spec fn tf_pre(v: T) -> bool;
    #[verifier::prophetic] spec fn tf_post(v: T, r: Result<Self, Self::Error>) -> bool;
    fn v_try_from(v: T) -> (r: Result<Self, Self::Error>)
        requires Self::tf_pre(v),
        ensures Self::tf_post(v, r);
}
pub trait VTryInto<U: VTryFrom<Self>>: Sized {
    fn v_try_into(self) -> (r: Result<U, U::Error>)
        requires U::tf_pre(self),
        ensures U::tf_post(self, r);
}
impl<T, U: VTryFrom<T>> VTryInto<U> for T {
    fn v_try_into(self) -> (r: Result<U, U::Error>) { U::v_try_from(self) }
}
pub trait VFrom<T>: Sized {
    spec fn f_pre(v: T) -> bool;
    spec fn f_post(v: T, r: Self) -> bool;
    fn v_from(v: T) -> (r: Self)
        requires Self::f_pre(v),
        ensures Self::f_post(v, r);
}
pub trait VInto<U: VFrom<Self>>: Sized {
    fn v_into(self) -> (r: U)
        requires U::f_pre(self),
        ensures U::f_post(self, r);
}
impl<T, U: VFrom<T>> VInto<U> for T {
    fn v_into(self) -> (r: U) { U::v_from(self) }
}
impl<'a, const N: usize> VTryFrom<&'a [u8]> for [u8; N] {
    type Error = DnsError;
    #[verifier::prophetic] open spec fn tf_pre(v: &'a [u8]) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: &'a [u8], r: Result<[u8; N], DnsError>) -> bool {
        match r { Ok(a) => v@.len() == N && a@ == v@, Err(_) => v@.len() != N }
    }
    #[verifier::external_body] fn v_try_from(v: &'a [u8]) -> (r: Result<[u8; N], DnsError>) { unimplemented!() }
}
pub trait VBytes<const N: usize>: Sized {
    spec fn b_enc(x: Self) -> Seq<u8>;
    spec fn b_dec(b: Seq<u8>) -> Self;
    fn v_from_be_bytes(b: [u8; N]) -> (r: Self) ensures Self::b_enc(r) == b@, Self::b_dec(b@) == r;
    fn v_to_be_bytes(self) -> (r: [u8; N]) ensures r@ == Self::b_enc(self);
}
impl VBytes<1> for u8 {
    open spec fn b_enc(x: u8) -> Seq<u8> { seq![x] }
    open spec fn b_dec(b: Seq<u8>) -> u8 { b[0] }
    #[verifier::external_body] fn v_from_be_bytes(b: [u8; 1]) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 1]) { unimplemented!() }
}
impl VBytes<2> for u16 {
    open spec fn b_enc(x: u16) -> Seq<u8> { enc16(x) }
    open spec fn b_dec(b: Seq<u8>) -> u16 { be16(b, 0) }
    #[verifier::external_body] fn v_from_be_bytes(b: [u8; 2]) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 2]) { unimplemented!() }
}
impl VBytes<4> for u32 {
    open spec fn b_enc(x: u32) -> Seq<u8> { enc32(x) }
    open spec fn b_dec(b: Seq<u8>) -> u32 { be32(b, 0) }
    #[verifier::external_body] fn v_from_be_bytes(b: [u8; 4]) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
}
pub open spec fn enc64(x: u64) -> Seq<u8> {
    seq![(x / 0x100_0000_0000_0000) as u8, ((x / 0x1_0000_0000_0000) % 256) as u8, ((x / 0x100_0000_0000) % 256) as u8, ((x / 0x1_0000_0000) % 256) as u8,
        ((x / 0x100_0000) % 256) as u8, ((x / 0x1_0000) % 256) as u8, ((x / 0x100) % 256) as u8, (x % 256) as u8]
}
pub uninterp spec fn enc128(x: u128) -> Seq<u8>;
impl VBytes<8> for u64 {
    open spec fn b_enc(x: u64) -> Seq<u8> { enc64(x) }
    open spec fn b_dec(b: Seq<u8>) -> u64 { be(b) as u64 }
    #[verifier::external_body] fn v_from_be_bytes(b: [u8; 8]) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 8]) { unimplemented!() }
}
impl VBytes<16> for u128 {
    open spec fn b_enc(x: u128) -> Seq<u8> { enc128(x) }
    open spec fn b_dec(b: Seq<u8>) -> u128 { be(b) as u128 }
    #[verifier::external_body] fn v_from_be_bytes(b: [u8; 16]) -> (r: u128) { unimplemented!() }
    #[verifier::external_body] fn v_to_be_bytes(self) -> (r: [u8; 16]) { unimplemented!() }
}
pub trait VToVec { spec fn tv(&self) -> Seq<u8>; fn v_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.tv(); }
impl VToVec for [u8] {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
impl<const N: usize> VToVec for [u8; N] {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<u8>) { unimplemented!() }
}
pub trait VToVecs { spec fn tvs(&self) -> Seq<Seq<u8>>; fn v_to_vec(&self) -> (r: Vec<Vec<u8>>) ensures bytes_of(r@) == self.tvs(); }
impl VToVecs for [Vec<u8>] {
    open spec fn tvs(&self) -> Seq<Seq<u8>> { bytes_of(self@) }
    #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<Vec<u8>>) { unimplemented!() }
}

/// Rust's limit on the size of a slice
pub axiom fn axiom_slice_len(s: Seq<u8>) ensures s.len() <= isize::MAX;

// ---- text -----------------------------------------------------------------------------------
/// The bytes of a string, and which byte strings are valid UTF-8
pub uninterp spec fn sbytes(s: String) -> Seq<u8>;
pub uninterp spec fn is_utf8(b: Seq<u8>) -> bool;
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_lossy(b: Seq<u8>) ensures is_utf8(b) ==> #[trigger] lossy(b) == b;
pub trait VString: Sized {
    fn v_from_utf8(b: Vec<u8>) -> (r: Result<Self, DnsError>)
        ensures match r { Ok(s) => Self::is_str(s, b@) && is_utf8(b@), Err(_) => !is_utf8(b@) };
    spec fn is_str(s: Self, b: Seq<u8>) -> bool;
}
impl VString for String {
    open spec fn is_str(s: String, b: Seq<u8>) -> bool { sbytes(s) == b }
    #[verifier::external_body]
    fn v_from_utf8(b: Vec<u8>) -> (r: Result<String, DnsError>) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_utf8_lossy(b: &[u8]) -> (r: String) ensures sbytes(r) == lossy(b@) { unimplemented!() }

// ---- names ----------------------------------------------------------------------------------
pub open spec fn opt_prepend(a: Seq<Seq<u8>>, o: Option<Seq<Seq<u8>>>) -> Option<Seq<Seq<u8>>> {
    match o { Some(t) => Some(a + t), None => None }
}
pub proof fn lemma_masks()
    ensures
        forall|l: u8| #![trigger l & 0xc0] (l & 0xc0 == 0xc0) == (l >= 192),
        forall|l: u8| #![trigger l & 0xc0] (l & 0xc0 == 0) == (l < 64),
        forall|l: u16| #![trigger l & !0xc000u16] (l >= 0xc000 ==> l & !0xc000u16 == l - 0xc000),
        !0xc000u16 == 0x3fff,
{
    assert(forall|l: u8| #![trigger l & 0xc0] (l & 0xc0 == 0xc0) == (l >= 192)) by(bit_vector);
    assert(forall|l: u8| #![trigger l & 0xc0] (l & 0xc0 == 0) == (l < 64)) by(bit_vector);
    assert(forall|l: u16| #![trigger l & !0xc000u16] (l >= 0xc000 ==> l & !0xc000u16 == sub(l, 0xc000))) by(bit_vector);
    assert(!0xc000u16 == 0x3fff) by(bit_vector);
}
pub broadcast proof fn lemma_bytes_of_push(v: Seq<Vec<u8>>, x: Vec<u8>)
    ensures #[trigger] bytes_of(v.push(x)) == bytes_of(v).push(x@)
{ assert(bytes_of(v.push(x)) =~= bytes_of(v).push(x@)); }

pub proof fn lemma_enc_labels_mono(ls: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= ls.len(),
    ensures enc_labels(ls.take(i)).len() <= enc_labels(ls).len(),
    decreases ls.len() - i
{
    if i < ls.len() {
        assert(ls.take(i + 1).drop_last() =~= ls.take(i));
        lemma_enc_labels_mono(ls, i + 1);
    } else { assert(ls.take(i) =~= ls); }
}
pub proof fn lemma_enc_labels_step(ls: Seq<Seq<u8>>, i: int)
    requires 0 <= i < ls.len(),
    ensures enc_labels(ls.take(i + 1)) == enc_labels(ls.take(i)) + enc_label(ls[i]),
        enc_labels(ls.take(i + 1)).len() <= enc_labels(ls).len(),
        enc_labels(ls.take(i)).len() <= enc_labels(ls).len(),
{
    assert(ls.take(i + 1).drop_last() =~= ls.take(i));
    lemma_enc_labels_mono(ls, i + 1);
    lemma_enc_labels_mono(ls, i);
}

// ---- sequences of borrowed items ------------------------------------------------------------
/// `x.iter()`, collected: the items in order
pub trait VIter { type It; fn v_iter(&self) -> (r: Vec<&Self::It>) ensures self.it_seq(r@); spec fn it_seq(&self, r: Seq<&Self::It>) -> bool; }
impl<T> VIter for Vec<T> {
    type It = T;
    open spec fn it_seq(&self, r: Seq<&T>) -> bool { r.len() == self@.len() && forall|k: int| 0 <= k < r.len() ==> *(#[trigger] r[k]) == self@[k] }
    #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { unimplemented!() }
}
impl<T> VIter for [T] {
    type It = T;
    open spec fn it_seq(&self, r: Seq<&T>) -> bool { r.len() == self@.len() && forall|k: int| 0 <= k < r.len() ==> *(#[trigger] r[k]) == self@[k] }
    #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { unimplemented!() }
}
impl<T, const N: usize> VIter for [T; N] {
    type It = T;
    open spec fn it_seq(&self, r: Seq<&T>) -> bool { r.len() == self@.len() && forall|k: int| 0 <= k < r.len() ==> *(#[trigger] r[k]) == self@[k] }
    #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { unimplemented!() }
}
/// The entries of a map in its (unspecified) order of iteration
pub uninterp spec fn hm_seq<K, V>(m: HashMap<K, V>) -> Seq<(K, V)>;
pub open spec fn lists_map<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub axiom fn axiom_hm_seq<V>(m: HashMap<u16, V>) ensures lists_map(hm_seq(m), m@);
impl<K, V> VIter for HashMap<K, V> {
    type It = (K, V);
    open spec fn it_seq(&self, r: Seq<&(K, V)>) -> bool { r.len() == hm_seq(*self).len() && forall|k: int| 0 <= k < r.len() ==> *(#[trigger] r[k]) == hm_seq(*self)[k] }
    #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&(K, V)>) { unimplemented!() }
}

/// An iterator that is advanced by hand
pub struct VCursor<'a, T> { pub s: Vec<&'a T>, pub i: usize }
impl<'a, T> VCursor<'a, T> {
    pub fn v_next(&mut self) -> (r: Option<&'a T>)
        ensures final(self).s == old(self).s,
            match r {
                Some(x) => old(self).i < old(self).s@.len() && x == old(self).s@[old(self).i as int] && final(self).i == old(self).i + 1,
                None => old(self).i >= old(self).s@.len() && final(self).i == old(self).i,
            },
    {
        if self.i < self.s.len() { self.i += 1; Some(self.s[self.i - 1]) } else { None }
    }
}
pub fn v_cursor<'a, T>(s: Vec<&'a T>) -> (r: VCursor<'a, T>) ensures r.s == s, r.i == 0 { VCursor { s, i: 0 } }

// ---- ordered sets ---------------------------------------------------------------------------
/// What the order of a set's elements is determined by
pub trait VKey { spec fn vk(&self) -> int; }
impl VKey for PV { open spec fn vk(&self) -> int { self.k as int } }
impl VKey for u16 { open spec fn vk(&self) -> int { *self as int } }
/// The elements in ascending order
pub uninterp spec fn bsq<T>(s: BTreeSet<T>) -> Seq<T>;
pub open spec fn asc<T: VKey>(q: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).vk() < (#[trigger] q[j]).vk() }
pub broadcast axiom fn axiom_bsq<T: VKey>(s: BTreeSet<T>) ensures asc(#[trigger] bsq(s)), bsq(s).len() == s@.len();
pub broadcast axiom fn axiom_bsq_empty<T>(s: BTreeSet<T>) requires s@ == Set::<T>::empty() ensures (#[trigger] bsq(s)).len() == 0;
pub broadcast axiom fn axiom_bs_len<T>(s: BTreeSet<T>) ensures #[trigger] vstd::std_specs::btree::spec_btree_set_len(&s) == bsq(s).len();
pub broadcast proof fn lemma_map_empty<A, B>(q: Seq<A>, f: spec_fn(A) -> B) requires q.len() == 0 ensures #[trigger] q.map_values(f) == Seq::<B>::empty() { assert(q.map_values(f) =~= Seq::<B>::empty()); }
/// Insertion into an ascending sequence; an element with the same key stays
pub open spec fn ins<T: VKey>(q: Seq<T>, x: T) -> Seq<T>
    decreases q.len()
{
    if q.len() == 0 || q.last().vk() < x.vk() { q.push(x) }
    else if q.last().vk() == x.vk() { q }
    else { ins(q.drop_last(), x).push(q.last()) }
}
/// Insertion only looks at the keys
pub proof fn lemma_ins_map<A: VKey, B: VKey>(q: Seq<A>, x: A, f: spec_fn(A) -> B)
    requires forall|a: A| (#[trigger] f(a)).vk() == a.vk(),
    ensures ins(q.map_values(f), f(x)) == ins(q, x).map_values(f),
    decreases q.len()
{
    let m = q.map_values(f);
    if q.len() > 0 { assert(m.last() == f(q.last())); assert(m.drop_last() =~= q.drop_last().map_values(f)); }
    if q.len() == 0 || q.last().vk() < x.vk() { assert(m.push(f(x)) =~= q.push(x).map_values(f)); }
    else if q.last().vk() == x.vk() { }
    else { lemma_ins_map(q.drop_last(), x, f); assert(ins(m, f(x)) =~= ins(q, x).map_values(f)); }
}
pub trait VInsert<T: VKey> { spec fn sq(&self) -> Seq<T>; fn v_insert(&mut self, x: T) -> (r: bool) ensures final(self).sq() == ins(old(self).sq(), x); }
impl<T: VKey> VInsert<T> for BTreeSet<T> {
    open spec fn sq(&self) -> Seq<T> { bsq(*self) }
    #[verifier::external_body] fn v_insert(&mut self, x: T) -> (r: bool) { unimplemented!() }
}
impl<T> VIter for BTreeSet<T> {
    type It = T;
    open spec fn it_seq(&self, r: Seq<&T>) -> bool { r.len() == bsq(*self).len() && forall|k: int| 0 <= k < r.len() ==> *(#[trigger] r[k]) == bsq(*self)[k] }
    #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { unimplemented!() }
}

pub trait VDefault: Sized { spec fn is_def(&self) -> bool; fn v_default() -> (r: Self) ensures r.is_def(); }
impl<T> VDefault for Vec<T> {
    open spec fn is_def(&self) -> bool { self@.len() == 0 }
    fn v_default() -> (r: Self) { Vec::new() }
}
impl<T> VDefault for Option<T> {
    open spec fn is_def(&self) -> bool { *self is None }
    fn v_default() -> (r: Self) { None }
}
pub fn v_default<T: VDefault>() -> (r: T) ensures r.is_def() { T::v_default() }
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExSystemTimeError(std::time::SystemTimeError);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExIpv4Addr(std::net::Ipv4Addr);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExIpv6Addr(std::net::Ipv6Addr);
impl VDefault for u8 { open spec fn is_def(&self) -> bool { *self == 0 } fn v_default() -> (r: Self) { 0 } }
impl VDefault for u16 { open spec fn is_def(&self) -> bool { *self == 0 } fn v_default() -> (r: Self) { 0 } }
impl VDefault for u32 { open spec fn is_def(&self) -> bool { *self == 0 } fn v_default() -> (r: Self) { 0 } }
impl VDefault for u64 { open spec fn is_def(&self) -> bool { *self == 0 } fn v_default() -> (r: Self) { 0 } }
impl VDefault for u128 { open spec fn is_def(&self) -> bool { *self == 0 } fn v_default() -> (r: Self) { 0 } }
impl VDefault for usize { open spec fn is_def(&self) -> bool { *self == 0 } fn v_default() -> (r: Self) { 0 } }
impl VDefault for bool { open spec fn is_def(&self) -> bool { !*self } fn v_default() -> (r: Self) { false } }
impl VDefault for String { open spec fn is_def(&self) -> bool { sbytes(*self).len() == 0 } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
impl<V> VDefault for HashMap<u16, V> { open spec fn is_def(&self) -> bool { self@ == Map::<u16, V>::empty() } fn v_default() -> (r: Self) { HashMap::new() } }
impl<T> VDefault for BTreeSet<T> { open spec fn is_def(&self) -> bool { self@ == Set::<T>::empty() } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
impl<const N: usize> VDefault for [u8; N] { open spec fn is_def(&self) -> bool { forall|i: int| 0 <= i < N ==> self@[i] == 0 } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
pub const HEADER_LAYOUT_SIZE: usize = 12;
pub open spec fn ord_i(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl VOrd for u16 { open spec fn cmp_s(&self, o: &Self) -> Ordering { ord_i(*self as int, *o as int) } fn v_cmp(&self, o: &Self) -> (r: Ordering) { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } } }
pub trait VOrd: Sized { spec fn cmp_s(&self, o: &Self) -> Ordering; fn v_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.cmp_s(o); }

// ---- byte sinks and sources -----------------------------------------------------------------
/// What can be appended to a byte vector with `extend`
pub trait VSrc: Sized { spec fn bs(self) -> Seq<u8>; }
impl<const N: usize> VSrc for [u8; N] { open spec fn bs(self) -> Seq<u8> { self@ } }
impl<'a, const N: usize> VSrc for &'a [u8; N] { open spec fn bs(self) -> Seq<u8> { self@ } }
impl VSrc for Vec<u8> { open spec fn bs(self) -> Seq<u8> { self@ } }
impl<'a> VSrc for &'a Vec<u8> { open spec fn bs(self) -> Seq<u8> { self@ } }
impl<'a> VSrc for &'a [u8] { open spec fn bs(self) -> Seq<u8> { self@ } }
pub trait VExtend { spec fn ex_view(&self) -> Seq<u8>; fn v_extend<S: VSrc>(&mut self, s: S) ensures final(self).ex_view() == old(self).ex_view() + s.bs(); }
impl VExtend for Vec<u8> {
    open spec fn ex_view(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn v_extend<S: VSrc>(&mut self, s: S) { unimplemented!() }
}
pub trait VClone: Sized { spec fn cl(&self, o: &Self) -> bool; fn v_clone(&self) -> (r: Self) ensures r.cl(self); }
impl VClone for Vec<u8> { open spec fn cl(&self, o: &Self) -> bool { self@ == o@ } #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for String { open spec fn cl(&self, o: &Self) -> bool { sbytes(*self) == sbytes(*o) } #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for crate::fqdn::FQDN { open spec fn cl(&self, o: &Self) -> bool { self.ls() == o.ls() } #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
/// Vec<u8> to array
impl<const N: usize> VTryFrom<Vec<u8>> for [u8; N] {
    type Error = DnsError;
    #[verifier::prophetic] open spec fn tf_pre(v: Vec<u8>) -> bool { true }
    #[verifier::prophetic] open spec fn tf_post(v: Vec<u8>, r: Result<[u8; N], DnsError>) -> bool {
        match r { Ok(a) => v@.len() == N && a@ == v@, Err(_) => v@.len() != N }
    }
    #[verifier::external_body] fn v_try_from(v: Vec<u8>) -> (r: Result<[u8; N], DnsError>) { unimplemented!() }
}
pub trait VExpect<T>: Sized { spec fn is_ok_s(&self) -> bool; spec fn val(&self) -> T; fn v_expect(self, m: &str) -> (r: T) requires self.is_ok_s(), ensures r == self.val(); fn v_unwrap(self) -> (r: T) requires self.is_ok_s(), ensures r == self.val(); }
impl<T, E> VExpect<T> for Result<T, E> {
    open spec fn is_ok_s(&self) -> bool { *self is Ok }
    open spec fn val(&self) -> T { self->Ok_0 }
    #[verifier::external_body] fn v_expect(self, m: &str) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn v_unwrap(self) -> (r: T) { unimplemented!() }
}
impl<T> VExpect<T> for Option<T> {
    open spec fn is_ok_s(&self) -> bool { *self is Some }
    open spec fn val(&self) -> T { self->Some_0 }
    #[verifier::external_body] fn v_expect(self, m: &str) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn v_unwrap(self) -> (r: T) { unimplemented!() }
}
/// Vec::resize
pub trait VResize { spec fn rz(&self) -> Seq<u8>; fn v_resize(&mut self, n: usize, x: u8)
    ensures final(self).rz().len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(self).rz()[i] == (if i < old(self).rz().len() { old(self).rz()[i] } else { x }); }
impl VResize for Vec<u8> { open spec fn rz(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_resize(&mut self, n: usize, x: u8) { unimplemented!() } }
pub trait VFill { spec fn fz(&self) -> Seq<u8>; fn v_fill(&mut self, x: u8)
    ensures final(self).fz().len() == old(self).fz().len(), forall|i: int| 0 <= i < final(self).fz().len() ==> #[trigger] final(self).fz()[i] == x; }
impl<const N: usize> VFill for [u8; N] { open spec fn fz(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_fill(&mut self, x: u8) { unimplemented!() } }
/// `&TEMPORARY[a..b]` and `&TEMPORARY[a..]`
pub trait VSlice { spec fn sl(&self) -> Seq<u8>;
    fn v_slice(&self, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= self.sl().len(), ensures r@ == self.sl().subrange(a as int, b as int);
    fn v_slice_from(&self, a: usize) -> (r: &[u8]) requires a <= self.sl().len(), ensures r@ == self.sl().subrange(a as int, self.sl().len() as int); }
impl VSlice for Vec<u8> { open spec fn sl(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() } }
impl VSlice for [u8] { open spec fn sl(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() } }
impl<const N: usize> VSlice for [u8; N] { open spec fn sl(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &[u8]) { unimplemented!() } #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &[u8]) { unimplemented!() } }
/// `a[i..j].copy_from_slice(src)`
pub trait VCopyRange { spec fn cr(&self) -> Seq<u8>;
    fn v_copy_range(&mut self, a: usize, b: usize, src: &[u8])
        requires a <= b <= old(self).cr().len(), src@.len() == b - a,
        ensures final(self).cr() == old(self).cr().subrange(0, a as int) + src@ + old(self).cr().subrange(b as int, old(self).cr().len() as int); }
impl VCopyRange for Vec<u8> { open spec fn cr(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_copy_range(&mut self, a: usize, b: usize, src: &[u8]) { unimplemented!() } }
impl<const N: usize> VCopyRange for [u8; N] { open spec fn cr(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn v_copy_range(&mut self, a: usize, b: usize, src: &[u8]) { unimplemented!() } }
/// `&a[i..j]` of an array of known size and `&a[i..]`
pub trait VAsBytes { spec fn ab(&self) -> Seq<u8>; fn v_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.ab(); }
impl VAsBytes for String { open spec fn ab(&self) -> Seq<u8> { sbytes(*self) } #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
#[verifier::external_body]
pub fn v_string_len(s: &String) -> (r: usize) ensures r == sbytes(*s).len() { unimplemented!() }
/// Anything with a length (`len()` is left to vstd where it has it)
pub trait VLen { spec fn ln(&self) -> nat; fn v_len(&self) -> (r: usize) ensures r == self.ln(); }
impl VLen for String { open spec fn ln(&self) -> nat { sbytes(*self).len() } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } }
impl<T> VLen for Vec<T> { open spec fn ln(&self) -> nat { self@.len() } fn v_len(&self) -> (r: usize) { self.len() } }
impl<T> VLen for [T] { open spec fn ln(&self) -> nat { self@.len() } fn v_len(&self) -> (r: usize) { self.len() } }
impl<T, const N: usize> VLen for [T; N] { open spec fn ln(&self) -> nat { self@.len() } #[verifier::external_body] fn v_len(&self) -> (r: usize) { N } }
pub trait VAsRef<T> { spec fn as_opt(&self) -> Option<&T>; fn v_as_ref(&self) -> (r: Option<&T>) ensures r == self.as_opt(); }
impl<T> VAsRef<T> for Option<T> {
    open spec fn as_opt(&self) -> Option<&T> { match self { Some(x) => Some(x), None => None } }
    fn v_as_ref(&self) -> (r: Option<&T>) { match self { Some(x) => Some(x), None => None } }
}
/// std::mem::take
#[verifier::external_body]
pub fn v_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
pub trait VOk<T>: Sized { spec fn ok_s(self) -> Option<T>; fn v_ok_m(self) -> (r: Option<T>) ensures r == self.ok_s(); }
impl<T, E> VOk<T> for Result<T, E> {
    open spec fn ok_s(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn v_ok_m(self) -> (r: Option<T>) { match self { Ok(x) => Some(x), Err(_) => None } }
}
impl<T> VOk<T> for Option<T> {
    open spec fn ok_s(self) -> Option<T> { self }
    fn v_ok_m(self) -> (r: Option<T>) { self }
}
pub fn v_ok<T, R: VOk<T>>(r: R) -> (o: Option<T>) ensures o == r.ok_s() { r.v_ok_m() }

/// `transmute` of a bool or of a fieldless `repr(u8)` enumeration to u8
pub trait VTransmute: Sized { spec fn tcode(self) -> u8; fn v_tcode(self) -> (r: u8) ensures r == self.tcode(); }
impl VTransmute for bool { open spec fn tcode(self) -> u8 { if self { 1 } else { 0 } } fn v_tcode(self) -> (r: u8) { if self { 1 } else { 0 } } }
pub fn v_transmute<T: VTransmute>(x: T) -> (r: u8) ensures r == x.tcode() { x.v_tcode() }
// ---- further std functions ------------------------------------------------------------------
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T: Copy>[ Option::<&T>::copied ](a: Option<&T>) -> (r: Option<T>) ensures match a { Some(x) => r == Some(*x), None => r is None };
pub assume_specification<T>[ std::mem::replace::<T> ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T>[ bool::then_some::<T> ](b: bool, x: T) -> (r: Option<T>) ensures r == (if b { Some(x) } else { None });
pub assume_specification[ u16::swap_bytes ](x: u16) -> (r: u16) ensures r == (x << 8u16) | (x >> 8u16);
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize) requires b != 0, ensures r == (a + b - 1) / (b as int);
impl VFrom<bool> for u8 {
    open spec fn f_pre(v: bool) -> bool { true }
    open spec fn f_post(v: bool, r: Self) -> bool { r == (if v { 1 as u8 } else { 0 as u8 }) }
    fn v_from(v: bool) -> (r: Self) { if v { 1 } else { 0 } }
}
impl VFrom<bool> for u16 {
    open spec fn f_pre(v: bool) -> bool { true }
    open spec fn f_post(v: bool, r: Self) -> bool { r == (if v { 1 as u16 } else { 0 as u16 }) }
    fn v_from(v: bool) -> (r: Self) { if v { 1 } else { 0 } }
}
impl VFrom<bool> for u32 {
    open spec fn f_pre(v: bool) -> bool { true }
    open spec fn f_post(v: bool, r: Self) -> bool { r == (if v { 1 as u32 } else { 0 as u32 }) }
    fn v_from(v: bool) -> (r: Self) { if v { 1 } else { 0 } }
}
impl VFrom<bool> for usize {
    open spec fn f_pre(v: bool) -> bool { true }
    open spec fn f_post(v: bool, r: Self) -> bool { r == (if v { 1 as usize } else { 0 as usize }) }
    fn v_from(v: bool) -> (r: Self) { if v { 1 } else { 0 } }
}
impl VFrom<u8> for u16 {
    open spec fn f_pre(v: u8) -> bool { true }
    open spec fn f_post(v: u8, r: Self) -> bool { r == v }
    fn v_from(v: u8) -> (r: Self) { v as u16 }
}
impl VFrom<u8> for u32 {
    open spec fn f_pre(v: u8) -> bool { true }
    open spec fn f_post(v: u8, r: Self) -> bool { r == v }
    fn v_from(v: u8) -> (r: Self) { v as u32 }
}
impl VFrom<u8> for u64 {
    open spec fn f_pre(v: u8) -> bool { true }
    open spec fn f_post(v: u8, r: Self) -> bool { r == v }
    fn v_from(v: u8) -> (r: Self) { v as u64 }
}
impl VFrom<u8> for usize {
    open spec fn f_pre(v: u8) -> bool { true }
    open spec fn f_post(v: u8, r: Self) -> bool { r == v }
    fn v_from(v: u8) -> (r: Self) { v as usize }
}
impl VFrom<u16> for u32 {
    open spec fn f_pre(v: u16) -> bool { true }
    open spec fn f_post(v: u16, r: Self) -> bool { r == v }
    fn v_from(v: u16) -> (r: Self) { v as u32 }
}
impl VFrom<u16> for u64 {
    open spec fn f_pre(v: u16) -> bool { true }
    open spec fn f_post(v: u16, r: Self) -> bool { r == v }
    fn v_from(v: u16) -> (r: Self) { v as u64 }
}
impl VFrom<u16> for usize {
    open spec fn f_pre(v: u16) -> bool { true }
    open spec fn f_post(v: u16, r: Self) -> bool { r == v }
    fn v_from(v: u16) -> (r: Self) { v as usize }
}
impl VFrom<u32> for u64 {
    open spec fn f_pre(v: u32) -> bool { true }
    open spec fn f_post(v: u32, r: Self) -> bool { r == v }
    fn v_from(v: u32) -> (r: Self) { v as u64 }
}
/// A vector of values that take up space holds at most isize::MAX of them
pub broadcast axiom fn axiom_len_q(v: Vec<crate::question::Question>) ensures (#[trigger] v@.len()) <= usize::MAX as int / 2;
pub broadcast axiom fn axiom_len_rr(v: Vec<crate::resource::ResourceRecord>) ensures (#[trigger] v@.len()) <= usize::MAX as int / 2;

// ---- addresses ------------------------------------------------------------------------------
pub uninterp spec fn ip4(a: Ipv4Addr) -> u32;
pub uninterp spec fn ip6b(a: Ipv6Addr) -> Seq<u8>;
pub broadcast axiom fn axiom_ip6_len(a: Ipv6Addr) ensures (#[trigger] ip6b(a)).len() == 16;
impl VFrom<u32> for Ipv4Addr {
    open spec fn f_pre(v: u32) -> bool { true }
    open spec fn f_post(v: u32, r: Self) -> bool { ip4(r) == v }
    #[verifier::external_body] fn v_from(v: u32) -> (r: Self) { unimplemented!() }
}
impl VFrom<Ipv4Addr> for u32 {
    open spec fn f_pre(v: Ipv4Addr) -> bool { true }
    open spec fn f_post(v: Ipv4Addr, r: Self) -> bool { r == ip4(v) }
    #[verifier::external_body] fn v_from(v: Ipv4Addr) -> (r: Self) { unimplemented!() }
}
impl VFrom<u128> for Ipv6Addr {
    open spec fn f_pre(v: u128) -> bool { true }
    open spec fn f_post(v: u128, r: Self) -> bool { ip6b(r) == enc128(v) }
    #[verifier::external_body] fn v_from(v: u128) -> (r: Self) { unimplemented!() }
}
impl VFrom<Ipv6Addr> for u128 {
    open spec fn f_pre(v: Ipv6Addr) -> bool { true }
    open spec fn f_post(v: Ipv6Addr, r: Self) -> bool { enc128(r) == ip6b(v) }
    #[verifier::external_body] fn v_from(v: Ipv6Addr) -> (r: Self) { unimplemented!() }
}
pub trait VOctets<const N: usize> { spec fn oc(&self) -> Seq<u8>; fn v_octets(&self) -> (r: [u8; N]) ensures r@ == self.oc(); }
impl VOctets<4> for Ipv4Addr { open spec fn oc(&self) -> Seq<u8> { enc32(ip4(*self)) } #[verifier::external_body] fn v_octets(&self) -> (r: [u8; 4]) { unimplemented!() } }
impl VOctets<16> for Ipv6Addr { open spec fn oc(&self) -> Seq<u8> { ip6b(*self) } #[verifier::external_body] fn v_octets(&self) -> (r: [u8; 16]) { unimplemented!() } }
pub assume_specification[ Ipv4Addr::new ](a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr) ensures enc32(ip4(r)) == seq![a, b, c, d];

// ---- record data ----------------------------------------------------------------------------
/// The wire form of record data: its fields, and how a field list is read and written
pub trait Rec: Sized {
    /// The field values of this record data
    spec fn fields(&self) -> Ws;
    /// What reading record data at `p` up to the end of `d` yields, and where reading ends
    spec fn rdec(d: Seq<u8>, p: int) -> Option<(Ws, int)>;
    /// The wire form of a field list
    spec fn renc(w: Ws) -> Seq<u8>;
    /// The field values that survive: what the record data type keeps of a field list
    open spec fn norm(w: Ws) -> Ws { w }
    /// Is this field list one the type accepts (enumerations have the code, lengths allowed)?
    open spec fn acc(w: Ws) -> bool { true }
}
/// The value record data of type `T` at `p` (up to the end of `d`) has, if it is acceptable
pub open spec fn val_of<T: Rec>(d: Seq<u8>, p: int) -> Option<Ws> {
    match T::rdec(d, p) { Some((w, e)) => if T::acc(w) { Some(T::norm(w)) } else { None }, None => None }
}
pub open spec fn end_of<T: Rec>(d: Seq<u8>, p: int) -> int { match T::rdec(d, p) { Some((w, e)) => e, None => p } }
/// The contract of reading record data of type `T`
#[verifier::prophetic]
pub open spec fn parse_post<'a, T: Rec>(v: &mut crate::buffer::DnsBuffer<'a>, r: Result<T, DnsError>) -> bool {
    &&& final(v).same(v)
    &&& match r {
        Ok(x) => val_of::<T>(v.data@, v.pos as int) == Some(x.fields()) && final(v).pos == end_of::<T>(v.data@, v.pos as int),
        Err(_) => val_of::<T>(v.data@, v.pos as int) is None,
    }
}
pub open spec fn wnth(w: Ws, n: nat) -> W decreases n {
    match w { Ws::Cons(a, r) => if n == 0 { a } else { wnth(*r, (n - 1) as nat) }, Ws::Nil => W::N8(0) }
}
pub open spec fn is_one(x: u8) -> bool { x == 1 }
pub proof fn lemma_and7fff()
    ensures forall|x: u16| #![trigger x & 0x7FFF] x & 0x7FFF < 0x8000, forall|x: u16| #![trigger x & 0x7FFF] x < 0x8000 ==> x & 0x7FFF == x,
{
    assert(forall|x: u16| #![trigger x & 0x7FFF] x & 0x7FFF < 0x8000) by(bit_vector);
    assert(forall|x: u16| #![trigger x & 0x7FFF] x < 0x8000 ==> x & 0x7FFF == x) by(bit_vector);
}

// ---- strings and lists of fields ------------------------------------------------------------
pub assume_specification[ String::len ](s: &String) -> (r: usize) ensures r == sbytes(*s).len();
pub open spec fn strs_of(v: Seq<String>) -> Seq<Seq<u8>> { v.map_values(|x: String| sbytes(x)) }
pub broadcast proof fn lemma_strs_push(v: Seq<String>, x: String)
    ensures #[trigger] strs_of(v.push(x)) == strs_of(v).push(sbytes(x))
{ assert(strs_of(v.push(x)) =~= strs_of(v).push(sbytes(x))); }
pub open spec fn names_of(v: Seq<crate::fqdn::FQDN>) -> Seq<Seq<Seq<u8>>> { v.map_values(|x: crate::fqdn::FQDN| x.ls()) }
pub broadcast proof fn lemma_names_push(v: Seq<crate::fqdn::FQDN>, x: crate::fqdn::FQDN)
    ensures #[trigger] names_of(v.push(x)) == names_of(v).push(x.ls())
{ assert(names_of(v.push(x)) =~= names_of(v).push(x.ls())); }
pub open spec fn opt_pre<T>(a: Seq<T>, o: Option<Seq<T>>) -> Option<Seq<T>> { match o { Some(t) => Some(a + t), None => None } }
pub broadcast proof fn lemma_opt_pre_push<T>(a: Seq<T>, x: T, o: Option<Seq<T>>)
    ensures #[trigger] opt_pre(a.push(x), o) == opt_pre(a, opt_pre(seq![x], o))
{ match o { Some(t) => { assert(a.push(x) + t =~= a + (seq![x] + t)); }, None => {} } }
pub open spec fn lossy_all(o: Option<Seq<Seq<u8>>>) -> Option<Seq<Seq<u8>>> {
    match o { Some(t) => Some(t.map_values(|x: Seq<u8>| lossy(x))), None => None }
}
pub proof fn lemma_lossy_step(d: Seq<u8>, p: int)
    requires 0 <= p < d.len(),
    ensures lossy_all(dec_strs(d, p)) == (if p + 1 + d[p] > d.len() { None } else { opt_pre(seq![lossy(d.subrange(p + 1, p + 1 + d[p]))], lossy_all(dec_strs(d, p + 1 + d[p]))) }),
{
    reveal_with_fuel(dec_strs, 2);
    if p + 1 + d[p] <= d.len() {
        match dec_strs(d, p + 1 + d[p]) {
            Some(t) => { let x = d.subrange(p + 1, p + 1 + d[p]);
                assert((seq![x] + t).map_values(|x: Seq<u8>| lossy(x)) =~= seq![lossy(x)] + t.map_values(|x: Seq<u8>| lossy(x))); },
            None => {},
        }
    }
}
pub proof fn lemma_enc_strs_mono(ls: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= ls.len(),
    ensures enc_strs(ls.take(i)).len() <= enc_strs(ls).len(),
    decreases ls.len() - i
{
    if i < ls.len() {
        assert(ls.take(i + 1).drop_last() =~= ls.take(i));
        lemma_enc_strs_mono(ls, i + 1);
    } else { assert(ls.take(i) =~= ls); }
}
pub proof fn lemma_enc_strs_step(ls: Seq<Seq<u8>>, i: int)
    requires 0 <= i < ls.len(),
    ensures enc_strs(ls.take(i + 1)) == enc_strs(ls.take(i)) + (seq![ls[i].len() as u8] + ls[i]),
        enc_strs(ls.take(i + 1)).len() <= enc_strs(ls).len(),
        enc_strs(ls.take(i)).len() <= enc_strs(ls).len(),
{
    assert(ls.take(i + 1).drop_last() =~= ls.take(i));
    lemma_enc_strs_mono(ls, i + 1);
    lemma_enc_strs_mono(ls, i);
}
pub proof fn lemma_enc_names_mono(ls: Seq<Seq<Seq<u8>>>, i: int)
    requires 0 <= i <= ls.len(),
    ensures enc_names(ls.take(i)).len() <= enc_names(ls).len(),
    decreases ls.len() - i
{
    if i < ls.len() {
        assert(ls.take(i + 1).drop_last() =~= ls.take(i));
        lemma_enc_names_mono(ls, i + 1);
    } else { assert(ls.take(i) =~= ls); }
}
pub proof fn lemma_enc_names_step(ls: Seq<Seq<Seq<u8>>>, i: int)
    requires 0 <= i < ls.len(),
    ensures enc_names(ls.take(i + 1)) == enc_names(ls.take(i)) + enc_name(ls[i]),
        enc_names(ls.take(i + 1)).len() <= enc_names(ls).len(),
        enc_names(ls.take(i)).len() <= enc_names(ls).len(),
{
    assert(ls.take(i + 1).drop_last() =~= ls.take(i));
    lemma_enc_names_mono(ls, i + 1);
    lemma_enc_names_mono(ls, i);
}
pub proof fn lemma_name_end(d: Seq<u8>, p: int, s: int)
    requires 0 <= p, name_at(d, p, s) is Some,
    ensures p < name_end(d, p) <= d.len(),
    decreases d.len() - p
{
    if p < d.len() && d[p] != 0 && d[p] < 64 && p + 1 + d[p] <= d.len() { lemma_name_end(d, p + 1 + d[p], s); }
}
pub proof fn lemma_be16(d: Seq<u8>, p: int)
    requires 0 <= p,
    ensures p + 2 <= d.len() ==> enc16(be16(d, p)) == d.subrange(p, p + 2),
{ if p + 2 <= d.len() { assert(enc16(be16(d, p)) =~= d.subrange(p, p + 2)); } }
pub proof fn lemma_be32(d: Seq<u8>, p: int)
    requires 0 <= p,
    ensures p + 4 <= d.len() ==> enc32(be32(d, p)) == d.subrange(p, p + 4),
{
    if p + 4 <= d.len() {
        let (a, b, c, e) = (d[p] as int, d[p + 1] as int, d[p + 2] as int, d[p + 3] as int);
        let v = a * 0x1000000 + b * 0x10000 + c * 0x100 + e;
        assert(v / 0x1000000 == a && v / 0x10000 == a * 256 + b && v / 0x100 == a * 65536 + b * 256 + c);
        assert((a * 256 + b) % 256 == b && (a * 65536 + b * 256 + c) % 256 == c && v % 256 == e);
        assert(enc32(be32(d, p)) =~= d.subrange(p, p + 4));
    }
}
// ---- EDNS options (RFC 6891 section 6.1.2) --------------------------------------------------
/// The options from `p` on, added to `m`: a later option replaces an earlier one of the same code
pub open spec fn dec_opts(d: Seq<u8>, p: int, m: Map<u16, Seq<u8>>) -> Option<Map<u16, Seq<u8>>>
    decreases d.len() - p
{
    if p < 0 || p > d.len() { None }
    else if p == d.len() { Some(m) }
    else if p + 4 > d.len() || p + 4 + be16(d, p + 2) > d.len() { None }
    else { dec_opts(d, p + 4 + be16(d, p + 2), m.insert(be16(d, p), d.subrange(p + 4, p + 4 + be16(d, p + 2)))) }
}
pub open spec fn optmap(m: Map<u16, Vec<u8>>) -> Map<u16, Seq<u8>> { m.map_values(|v: Vec<u8>| v@) }
pub broadcast proof fn lemma_optmap_insert(m: Map<u16, Vec<u8>>, k: u16, v: Vec<u8>)
    ensures #[trigger] optmap(m.insert(k, v)) == optmap(m).insert(k, v@)
{ assert(optmap(m.insert(k, v)) =~= optmap(m).insert(k, v@)); }
pub open spec fn opt_of(v: Seq<(u16, Vec<u8>)>) -> Seq<(u16, Seq<u8>)> { v.map_values(|x: (u16, Vec<u8>)| (x.0, x.1@)) }
pub open spec fn enc_opt(o: (u16, Seq<u8>)) -> Seq<u8> { enc16(o.0) + enc16(o.1.len() as u16) + o.1 }
pub open spec fn enc_opts(s: Seq<(u16, Seq<u8>)>) -> Seq<u8>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { enc_opts(s.drop_last()) + enc_opt(s.last()) } }
pub proof fn lemma_enc_opts_mono(ls: Seq<(u16, Seq<u8>)>, i: int)
    requires 0 <= i <= ls.len(),
    ensures enc_opts(ls.take(i)).len() <= enc_opts(ls).len(),
    decreases ls.len() - i
{
    if i < ls.len() {
        assert(ls.take(i + 1).drop_last() =~= ls.take(i));
        lemma_enc_opts_mono(ls, i + 1);
    } else { assert(ls.take(i) =~= ls); }
}
pub proof fn lemma_enc_opts_step(ls: Seq<(u16, Seq<u8>)>, i: int)
    requires 0 <= i < ls.len(),
    ensures enc_opts(ls.take(i + 1)) == enc_opts(ls.take(i)) + enc_opt(ls[i]),
        enc_opts(ls.take(i + 1)).len() <= enc_opts(ls).len(),
        enc_opts(ls.take(i)).len() <= enc_opts(ls).len(),
{
    assert(ls.take(i + 1).drop_last() =~= ls.take(i));
    lemma_enc_opts_mono(ls, i + 1);
    lemma_enc_opts_mono(ls, i);
}
// ---- type bitmaps (RFC 4034 section 4.1.2) --------------------------------------------------
/// Is bit `k` (from the left) of the octet set?
pub open spec fn obit(o: u8, k: int) -> bool { 0 <= k < 8 && (o << (k as u8)) & 0x80u8 > 0 }
/// The types the window at `p` lists, as far as their number in the window is below `n`
pub open spec fn win(d: Seq<u8>, p: int, n: int) -> ISet<u16> {
    ISet::new(|c: u16| c / 256 == d[p] as int && c % 256 < n && c % 256 < 8 * d[p + 1] && obit(d[p + 2 + (c % 256) / 8], (c % 8) as int))
}
pub open spec fn dec_bm(d: Seq<u8>, p: int, s: ISet<u16>) -> Option<ISet<u16>>
    decreases d.len() - p
{
    if p < 0 || p > d.len() { None }
    else if p == d.len() { Some(s) }
    else if p + 2 > d.len() || d[p + 1] > 32 || p + 2 + d[p + 1] > d.len() { None }
    else { dec_bm(d, p + 2 + d[p + 1], s.union(win(d, p, 256))) }
}
pub proof fn lemma_dec_bm_mono(d: Seq<u8>, p: int, s: ISet<u16>)
    ensures match dec_bm(d, p, s) { Some(r) => s.subset_of(r), None => true },
    decreases d.len() - p
{
    if 0 <= p < d.len() && p + 2 <= d.len() && d[p + 1] <= 32 && p + 2 + d[p + 1] <= d.len() {
        lemma_dec_bm_mono(d, p + 2 + d[p + 1], s.union(win(d, p, 256)));
    }
}
pub proof fn lemma_win_step(d: Seq<u8>, p: int, n: int)
    requires 0 <= n < 256,
    ensures ({ let c = (256 * d[p] + n) as u16;
        win(d, p, n + 1) == if n < 8 * d[p + 1] && obit(d[p + 2 + n / 8], n % 8) { win(d, p, n).insert(c) } else { win(d, p, n) } }),
{
    let c = (256 * d[p] + n) as u16;
    assert(c / 256 == d[p] && c % 256 == n && c % 8 == n % 8);
    assert forall|x: u16| #[trigger] win(d, p, n + 1).contains(x) == (if n < 8 * d[p + 1] && obit(d[p + 2 + n / 8], n % 8) { win(d, p, n).insert(c) } else { win(d, p, n) }).contains(x) by {
        if x / 256 == d[p] as int && x % 256 == n { assert(x == c); }
    }
    assert(win(d, p, n + 1) =~= if n < 8 * d[p + 1] && obit(d[p + 2 + n / 8], n % 8) { win(d, p, n).insert(c) } else { win(d, p, n) });
}
/// `s` is `s0` and the first `n` types of the window at `p`
pub open spec fn bm_part(s: ISet<u16>, s0: ISet<u16>, d: Seq<u8>, p: int, n: int) -> bool { s == s0.union(win(d, p, n)) }
pub proof fn lemma_bm_part(s: ISet<u16>, d: Seq<u8>, p: int)
    requires d[p + 1] <= 32,
    ensures bm_part(s, s, d, p, 0), forall|t: ISet<u16>| #[trigger] bm_part(t, s, d, p, 8 * d[p + 1]) ==> t == s.union(win(d, p, 256)),
{
    assert(s.union(win(d, p, 0)) =~= s);
    assert(win(d, p, 8 * d[p + 1]) =~= win(d, p, 256));
}
/// The codes of a sequence of types
pub open spec fn codes<T: VKey>(q: Seq<T>) -> ISet<u16> { ISet::new(|c: u16| exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).vk() == c) }
pub broadcast proof fn lemma_codes_ins<T: VKey>(q: Seq<T>, x: T)
    requires 0 <= x.vk() < 65536,
    ensures #[trigger] codes(ins(q, x)) == codes(q).insert(x.vk() as u16),
    decreases q.len()
{
    let r = ins(q, x);
    if q.len() == 0 || q.last().vk() < x.vk() {
        assert(r == q.push(x));
        assert forall|c: u16| codes(r).contains(c) == codes(q).insert(x.vk() as u16).contains(c) by {
            if codes(q).contains(c) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).vk() == c; assert(r[i].vk() == c); }
            if c == x.vk() { assert(r[q.len() as int].vk() == c); }
            if codes(r).contains(c) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).vk() == c; if i < q.len() { assert(q[i].vk() == c); } }
        }
    } else if q.last().vk() == x.vk() {
        assert(q[q.len() - 1].vk() == x.vk());
    } else {
        lemma_codes_ins(q.drop_last(), x);
        let t = ins(q.drop_last(), x);
        assert(r == t.push(q.last()));
        assert forall|c: u16| codes(r).contains(c) == codes(q).insert(x.vk() as u16).contains(c) by {
            if codes(r).contains(c) {
                let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).vk() == c;
                if i < t.len() { assert(t[i].vk() == c); assert(codes(t).contains(c));
                    if c != x.vk() { let j = choose|j: int| 0 <= j < q.len() - 1 && (#[trigger] q.drop_last()[j]).vk() == c; assert(q[j].vk() == c); } }
                else { assert(q[q.len() - 1].vk() == c); }
            }
            if codes(q).insert(x.vk() as u16).contains(c) {
                if codes(q).contains(c) {
                    let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).vk() == c;
                    if i == q.len() - 1 { assert(r[r.len() - 1].vk() == c); }
                    else { assert(q.drop_last()[i].vk() == c); assert(codes(t).contains(c)); let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).vk() == c; assert(r[j].vk() == c); }
                } else { assert(codes(t).contains(c)); let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).vk() == c; assert(r[j].vk() == c); }
            }
        }
    }
    assert(codes(r) =~= codes(q).insert(x.vk() as u16));
}
pub broadcast proof fn lemma_codes_empty<T: VKey>(q: Seq<T>)
    requires q.len() == 0
    ensures #[trigger] codes(q) == ISet::<u16>::empty()
{ assert(codes(q) =~= ISet::<u16>::empty()); }
pub open spec fn ob(s: ISet<u16>, base: int, k: int) -> u8 {
    if s.contains((base + k) as u16) { if k == 0 { 128u8 } else if k == 1 { 64u8 } else if k == 2 { 32u8 } else if k == 3 { 16u8 } else if k == 4 { 8u8 } else if k == 5 { 4u8 } else if k == 6 { 2u8 } else { 1u8 } } else { 0u8 }
}
/// The octet of the types `base` to `base + 7`
pub open spec fn octet(s: ISet<u16>, base: int) -> u8 {
    ob(s, base, 0) | ob(s, base, 1) | ob(s, base, 2) | ob(s, base, 3) | ob(s, base, 4) | ob(s, base, 5) | ob(s, base, 6) | ob(s, base, 7)
}
/// Octet `k` of window `w`
pub open spec fn wo(s: ISet<u16>, w: int, k: int) -> u8 { octet(s, 256 * w + 8 * k) }
/// The number of octets of window `w` up to the last one that is not zero
pub open spec fn wlen(s: ISet<u16>, w: int, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else if wo(s, w, n - 1) != 0 { n } else { wlen(s, w, n - 1) } }
pub open spec fn enc_win(s: ISet<u16>, w: int) -> Seq<u8> {
    let n = wlen(s, w, 32);
    if n == 0 { Seq::empty() } else { seq![w as u8, n as u8] + Seq::new(n as nat, |k: int| wo(s, w, k)) }
}
/// Windows 0 to w - 1
pub open spec fn enc_bm(s: ISet<u16>, w: int) -> Seq<u8>
    decreases w
{ if w <= 0 { Seq::empty() } else { enc_bm(s, w - 1) + enc_win(s, w - 1) } }
pub proof fn lemma_octet_empty(s: ISet<u16>, base: int)
    requires forall|k: int| 0 <= k < 8 ==> !s.contains(#[trigger] ((base + k) as u16)),
    ensures octet(s, base) == 0,
{
    assert forall|k: int| 0 <= k < 8 implies ob(s, base, k) == 0 by { assert(!s.contains((base + k) as u16)); }
    assert(0u8 | 0 | 0 | 0 | 0 | 0 | 0 | 0 == 0) by(bit_vector);
}
pub proof fn lemma_octet_ins(s: ISet<u16>, base: int, c: u16)
    requires 0 <= base <= c < base + 8, base % 8 == 0, base < 65536,
    ensures octet(s.insert(c), base) == octet(s, base) | (128u8 >> ((c % 8) as u8)), octet(s.insert(c), base) != 0,
{
    let t = s.insert(c);
    let (a0, a1, a2, a3, a4, a5, a6, a7) = (ob(s, base, 0), ob(s, base, 1), ob(s, base, 2), ob(s, base, 3), ob(s, base, 4), ob(s, base, 5), ob(s, base, 6), ob(s, base, 7));
    assert(c % 8 == c - base);
    assert forall|k: int| 0 <= k < 8 && k != c - base implies ob(t, base, k) == ob(s, base, k) by { assert((base + k) as u16 != c); }
    assert(128u8 >> 0u8 == 128 && 128u8 >> 1u8 == 64 && 128u8 >> 2u8 == 32 && 128u8 >> 3u8 == 16 && 128u8 >> 4u8 == 8 && 128u8 >> 5u8 == 4 && 128u8 >> 6u8 == 2 && 128u8 >> 7u8 == 1) by(bit_vector);
    assert(a0 == 0 || a0 == 128 ==> 128|a1|a2|a3|a4|a5|a6|a7 == (a0|a1|a2|a3|a4|a5|a6|a7) | 128) by(bit_vector);
    assert(a1 == 0 || a1 == 64 ==> a0|64|a2|a3|a4|a5|a6|a7 == (a0|a1|a2|a3|a4|a5|a6|a7) | 64) by(bit_vector);
    assert(a2 == 0 || a2 == 32 ==> a0|a1|32|a3|a4|a5|a6|a7 == (a0|a1|a2|a3|a4|a5|a6|a7) | 32) by(bit_vector);
    assert(a3 == 0 || a3 == 16 ==> a0|a1|a2|16|a4|a5|a6|a7 == (a0|a1|a2|a3|a4|a5|a6|a7) | 16) by(bit_vector);
    assert(a4 == 0 || a4 == 8 ==> a0|a1|a2|a3|8|a5|a6|a7 == (a0|a1|a2|a3|a4|a5|a6|a7) | 8) by(bit_vector);
    assert(a5 == 0 || a5 == 4 ==> a0|a1|a2|a3|a4|4|a6|a7 == (a0|a1|a2|a3|a4|a5|a6|a7) | 4) by(bit_vector);
    assert(a6 == 0 || a6 == 2 ==> a0|a1|a2|a3|a4|a5|2|a7 == (a0|a1|a2|a3|a4|a5|a6|a7) | 2) by(bit_vector);
    assert(a7 == 0 || a7 == 1 ==> a0|a1|a2|a3|a4|a5|a6|1 == (a0|a1|a2|a3|a4|a5|a6|a7) | 1) by(bit_vector);
    let x = octet(s, base);
    assert(x | 128 != 0 && x | 64 != 0 && x | 32 != 0 && x | 16 != 0 && x | 8 != 0 && x | 4 != 0 && x | 2 != 0 && x | 1 != 0) by(bit_vector);
}
pub proof fn lemma_octet_other(s: ISet<u16>, base: int, c: u16)
    requires 0 <= base, base + 8 <= 65536, !(base <= c < base + 8),
    ensures octet(s.insert(c), base) == octet(s, base),
{
    assert forall|k: int| 0 <= k < 8 implies ob(s.insert(c), base, k) == ob(s, base, k) by { assert((base + k) as u16 != c); }
}
/// Two sets that agree on a window have the same octets there
pub proof fn lemma_win_same(s: ISet<u16>, t: ISet<u16>, w: int)
    requires 0 <= w < 256, forall|c: u16| c / 256 == w ==> (s.contains(c) == t.contains(c)),
    ensures enc_win(s, w) == enc_win(t, w), forall|k: int| 0 <= k < 32 ==> wo(s, w, k) == wo(t, w, k),
{
    assert forall|k: int| 0 <= k < 32 implies wo(s, w, k) == wo(t, w, k) by {
        let base = 256 * w + 8 * k;
        assert forall|b: int| 0 <= b < 8 implies #[trigger] ob(s, base, b) == ob(t, base, b) by {
            let c = (base + b) as u16; assert(c / 256 == w);
        }
    }
    lemma_wlen_same(s, t, w, 32);
    assert(enc_win(s, w) =~= enc_win(t, w));
}
pub proof fn lemma_wlen_same(s: ISet<u16>, t: ISet<u16>, w: int, n: int)
    requires n <= 32, forall|k: int| 0 <= k < 32 ==> wo(s, w, k) == wo(t, w, k),
    ensures wlen(s, w, n) == wlen(t, w, n), wlen(s, w, n) <= n || n < 0, wlen(s, w, n) >= 0,
    decreases n
{ if n > 0 { lemma_wlen_same(s, t, w, n - 1); } }
/// The window's length follows from its last octet that is not zero
pub proof fn lemma_wlen(s: ISet<u16>, w: int, l: int, n: int)
    requires 0 <= l < n <= 32, wo(s, w, l) != 0, forall|k: int| l < k < n ==> wo(s, w, k) == 0,
    ensures wlen(s, w, n) == l + 1,
    decreases n
{ if n - 1 > l { assert(wo(s, w, n - 1) == 0); lemma_wlen(s, w, l, n - 1); } }
pub proof fn lemma_wlen_zero(s: ISet<u16>, w: int, n: int)
    requires n <= 32, forall|k: int| 0 <= k < 32 ==> wo(s, w, k) == 0,
    ensures wlen(s, w, n) == 0,
    decreases n
{ if n > 0 { assert(wo(s, w, n - 1) == 0); lemma_wlen_zero(s, w, n - 1); } }
pub proof fn lemma_win_empty(s: ISet<u16>, w: int)
    requires 0 <= w < 256, forall|c: u16| c / 256 == w ==> !s.contains(c),
    ensures enc_win(s, w) == Seq::<u8>::empty(), forall|k: int| 0 <= k < 32 ==> wo(s, w, k) == 0,
{
    assert forall|k: int| 0 <= k < 32 implies wo(s, w, k) == 0 by {
        let base = 256 * w + 8 * k;
        assert forall|b: int| 0 <= b < 8 implies !s.contains(#[trigger] ((base + b) as u16)) by { assert(((base + b) as u16) / 256 == w); }
        lemma_octet_empty(s, base);
    }
    lemma_wlen_zero(s, w, 32);
}
pub proof fn lemma_bm_rest(s: ISet<u16>, w: int, v: int)
    requires 0 <= w <= v <= 256, forall|c: u16| #[trigger] s.contains(c) ==> c / 256 < w,
    ensures enc_bm(s, v) == enc_bm(s, w),
    decreases v - w
{
    if v > w {
        lemma_bm_rest(s, w, v - 1);
        assert forall|c: u16| c / 256 == v - 1 implies !s.contains(c) by { if s.contains(c) {} }
        lemma_win_empty(s, v - 1);
        assert(enc_bm(s, v) =~= enc_bm(s, v - 1));
    }
}
/// State of the encoder after `i` types: `w` is the window of the last one
pub open spec fn bm_inv<T: VKey>(q: Seq<T>, i: int, w: int) -> bool {
    asc(q) && (forall|k: int| 0 <= k < q.len() ==> 0 <= (#[trigger] q[k]).vk() <= 257) && 0 <= i <= q.len() && w == (if i == 0 { 0 } else { q[i - 1].vk() / 256 })
}
pub open spec fn bm_len<T: VKey>(q: Seq<T>, i: int) -> int { if i == 0 { 0 } else { (q[i - 1].vk() % 256) / 8 } }
pub proof fn lemma_codes_take<T: VKey>(q: Seq<T>, i: int)
    requires 0 <= i < q.len(), 0 <= q[i].vk() < 65536,
    ensures codes(q.take(i + 1)) == codes(q.take(i)).insert(q[i].vk() as u16),
{
    let (a, b) = (q.take(i), q.take(i + 1));
    assert forall|c: u16| codes(b).contains(c) == codes(a).insert(q[i].vk() as u16).contains(c) by {
        if codes(b).contains(c) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).vk() == c; if j < i { assert(a[j].vk() == c); } }
        if codes(a).contains(c) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).vk() == c; assert(b[j].vk() == c); }
        if c == q[i].vk() { assert(b[i].vk() == c); }
    }
    assert(codes(b) =~= codes(a).insert(q[i].vk() as u16));
}
pub proof fn lemma_bm_init<T: VKey>(q: Seq<T>)
    ensures forall|w: int, k: int| 0 <= w < 256 && 0 <= k < 32 ==> #[trigger] wo(codes(q.take(0)), w, k) == 0, enc_bm(codes(q), 0) == Seq::<u8>::empty(),
{
    lemma_codes_empty(q.take(0));
    assert forall|w: int, k: int| 0 <= w < 256 && 0 <= k < 32 implies #[trigger] wo(codes(q.take(0)), w, k) == 0 by { lemma_win_empty(codes(q.take(0)), w); }
}
/// A window is written out when the next type lies behind it or there is none
pub proof fn lemma_bm_flush<T: VKey>(q: Seq<T>, i: int, w: int)
    requires bm_inv(q, i, w), i == q.len() || q[i].vk() / 256 > w,
    ensures ({
        let (s, t, l) = (codes(q), codes(q.take(i)), bm_len(q, i));
        &&& 0 <= l < 32
        &&& i > 0 ==> wo(t, w, l) != 0 && enc_win(s, w) == seq![w as u8, (l + 1) as u8] + Seq::new((l + 1) as nat, |k: int| wo(t, w, k))
        &&& i == 0 ==> enc_win(s, w) == Seq::<u8>::empty() && wo(t, w, l) == 0
        &&& i == q.len() ==> enc_bm(s, 256) == enc_bm(s, w + 1)
        &&& forall|k: int| 0 <= k < 32 ==> #[trigger] wo(t, w + 1, k) == 0
    }),
{
    let (s, t, l) = (codes(q), codes(q.take(i)), bm_len(q, i));
    assert forall|c: u16| c / 256 == w implies s.contains(c) == t.contains(c) by {
        if s.contains(c) { let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).vk() == c; if j >= i { if j > i { assert(q[i].vk() < q[j].vk()); } assert(false); } assert(q.take(i)[j].vk() == c); }
        if t.contains(c) { let j = choose|j: int| 0 <= j < i && (#[trigger] q.take(i)[j]).vk() == c; assert(q[j].vk() == c); }
    }
    lemma_win_same(s, t, w);
    assert forall|c: u16| #[trigger] t.contains(c) implies i > 0 && c <= q[i - 1].vk() by {
        let j = choose|j: int| 0 <= j < i && (#[trigger] q.take(i)[j]).vk() == c; assert(q[j].vk() == c); if j < i - 1 { assert(q[j].vk() < q[i - 1].vk()); }
    }
    if i > 0 {
        lemma_codes_take(q, i - 1);
        lemma_octet_ins(codes(q.take(i - 1)), 256 * w + 8 * l, q[i - 1].vk() as u16);
        assert forall|k: int| l < k < 32 implies #[trigger] wo(t, w, k) == 0 by {
            let base = 256 * w + 8 * k;
            assert forall|b: int| 0 <= b < 8 implies !t.contains(#[trigger] ((base + b) as u16)) by { }
            lemma_octet_empty(t, base);
        }
        lemma_wlen(t, w, l, 32);
        assert(enc_win(t, w) =~= seq![w as u8, (l + 1) as u8] + Seq::new((l + 1) as nat, |k: int| wo(t, w, k)));
    } else {
        lemma_win_empty(t, w);
    }
    assert forall|c: u16| c / 256 == w + 1 implies !t.contains(c) by { if t.contains(c) {} }
    lemma_win_empty(t, w + 1);
    if i == q.len() {
        assert(q.take(i) =~= q);
        lemma_bm_rest(s, w + 1, 256);
    }
}
/// A type sets one bit
pub proof fn lemma_bm_add<T: VKey>(q: Seq<T>, i: int, w: int)
    requires bm_inv(q, i, w), i < q.len(),
    ensures ({
        let (t, u, c) = (codes(q.take(i)), codes(q.take(i + 1)), q[i].vk());
        let v = c / 256;
        let l = (c % 256) / 8;
        &&& bm_inv(q, i + 1, v) && w <= v <= 1
        &&& wo(u, v, l) == wo(t, v, l) | (128u8 >> ((c % 8) as u8))
        &&& forall|k: int| 0 <= k < 32 && k != l ==> #[trigger] wo(u, v, k) == wo(t, v, k)
    }),
{
    let (t, u, c) = (codes(q.take(i)), codes(q.take(i + 1)), q[i].vk());
    let v = c / 256;
    let l = (c % 256) / 8;
    if i > 0 { assert(q[i - 1].vk() < q[i].vk()); }
    lemma_codes_take(q, i);
    lemma_octet_ins(t, 256 * v + 8 * l, c as u16);
    assert forall|k: int| 0 <= k < 32 && k != l implies #[trigger] wo(u, v, k) == wo(t, v, k) by { lemma_octet_other(t, 256 * v + 8 * k, c as u16); }
}
pub open spec fn bm_flushed<T: VKey>(q: Seq<T>, i: int, w: int) -> bool {
    let (s, t, l) = (codes(q), codes(q.take(i)), bm_len(q, i));
    &&& i > 0 ==> wo(t, w, l) != 0 && enc_win(s, w) == seq![w as u8, (l + 1) as u8] + Seq::new((l + 1) as nat, |k: int| wo(t, w, k))
    &&& i == 0 ==> enc_win(s, w) == Seq::<u8>::empty() && wo(t, w, l) == 0
    &&& i == q.len() ==> enc_bm(s, 256) == enc_bm(s, w + 1)
    &&& forall|k: int| 0 <= k < 32 ==> #[trigger] wo(t, w + 1, k) == 0
}
pub open spec fn bm_added<T: VKey>(q: Seq<T>, i: int, w: int) -> bool {
    let (t, u, c) = (codes(q.take(i)), codes(q.take(i + 1)), q[i].vk());
    let v = c / 256;
    let l = (c % 256) / 8;
    &&& bm_inv(q, i + 1, v) && w <= v <= 1
    &&& wo(u, v, l) == wo(t, v, l) | (128u8 >> ((c % 8) as u8))
    &&& forall|k: int| 0 <= k < 32 && k != l ==> #[trigger] wo(u, v, k) == wo(t, v, k)
}
pub proof fn lemma_bm_step<T: VKey>(q: Seq<T>, i: int, w: int)
    requires bm_inv(q, i, w),
    ensures 0 <= bm_len(q, i) < 32, 0 <= w <= 1,
        i == q.len() || q[i].vk() / 256 > w ==> bm_flushed(q, i, w),
        i < q.len() ==> bm_added(q, i, w),
{
    if i == q.len() || q[i].vk() / 256 > w { lemma_bm_flush(q, i, w); }
    if i < q.len() { lemma_bm_add(q, i, w); }
}
pub proof fn lemma_shift8()
    ensures forall|o: u8, i: u16| #![trigger o << i] i < 8 ==> ((o << i) & 0x80 > 0) == obit(o, i as int),
        forall|o: u8, i: u16| #![trigger o & (0x80u8 >> i)] i < 8 ==> (o & (0x80u8 >> i) != 0) == obit(o, i as int),
        forall|o: u8, i: u16| #![trigger o & (1u8 << i)] i < 8 ==> (o & (1u8 << i) != 0) == obit(o, 7 - i),
        forall|o: u8, i: u16| #![trigger (o >> i) & 1] i < 8 ==> ((o >> i) & 1 != 0) == obit(o, 7 - i) && (o >> i) & 1 <= 1,
{
    assert(forall|o: u8, i: u16, j: u8| #![trigger o << i, o << j] i < 8 && j == i ==> (o << i) == (o << j)) by(bit_vector);
    assert forall|o: u8, i: u16| #![trigger o << i] i < 8 implies ((o << i) & 0x80 > 0) == obit(o, i as int) by { let j = i as u8; assert((o << i) == (o << j)); }
    assert forall|o: u8, i: u16| #![trigger o & (0x80u8 >> i)] i < 8 implies (o & (0x80u8 >> i) != 0) == obit(o, i as int) by {
        let j = i as u8;
        assert(i < 8 && j == i ==> (o & (0x80u8 >> i) != 0) == ((o << j) & 0x80 > 0)) by(bit_vector);
    }
    assert forall|o: u8, i: u16| #![trigger o & (1u8 << i)] i < 8 implies (o & (1u8 << i) != 0) == obit(o, 7 - i) by {
        let j = (7 - i) as u8;
        assert(i < 8 && j == sub(7, i as u8) ==> (o & (1u8 << i) != 0) == ((o << j) & 0x80 > 0)) by(bit_vector);
    }
    assert forall|o: u8, i: u16| #![trigger (o >> i) & 1] i < 8 implies ((o >> i) & 1 != 0) == obit(o, 7 - i) && (o >> i) & 1 <= 1 by {
        let j = (7 - i) as u8;
        assert(i < 8 && j == sub(7, i as u8) ==> ((o >> i) & 1 != 0) == ((o << j) & 0x80 > 0) && (o >> i) & 1 <= 1) by(bit_vector);
    }
}
// ---- service parameters (RFC 9460 section 2.2) ----------------------------------------------
pub open spec fn enc_keys(q: Seq<u16>) -> Seq<u8> decreases q.len() { if q.len() == 0 { Seq::empty() } else { enc_keys(q.drop_last()) + enc16(q.last()) } }
pub proof fn lemma_enc_keys_len(q: Seq<u16>) ensures enc_keys(q).len() == 2 * q.len() decreases q.len() { if q.len() > 0 { lemma_enc_keys_len(q.drop_last()); } }
pub proof fn lemma_enc_keys_step(q: Seq<u16>, i: int)
    requires 0 <= i < q.len(),
    ensures enc_keys(q.take(i + 1)) == enc_keys(q.take(i)) + enc16(q[i]),
{ assert(q.take(i + 1).drop_last() =~= q.take(i)); }
/// The keys from `p` to `e`, sorted into `q`
pub open spec fn dec_keys(d: Seq<u8>, p: int, e: int, q: Seq<u16>) -> Option<Seq<u16>>
    decreases e - p
{
    if p == e { Some(q) }
    else if p + 2 > e || !crate::rdata::svcb::ParamKey::valid(be16(d, p)) { None }
    else { dec_keys(d, p + 2, e, ins(q, be16(d, p))) }
}
/// Do character strings fill the octets from `p` to `e`?
pub open spec fn strs_fit(d: Seq<u8>, p: int, e: int) -> bool
    decreases e - p
{ if p >= e { p == e } else if p + 1 + d[p] > e { false } else { strs_fit(d, p + 1 + d[p], e) } }
/// The service parameter at `p`
pub open spec fn dec_param(d: Seq<u8>, p: int) -> Option<PV> {
    if p < 0 || p + 4 > d.len() || p + 4 + be16(d, p + 2) > d.len() { None }
    else {
        let (k, n) = (be16(d, p), be16(d, p + 2));
        let v = d.subrange(p + 4, p + 4 + n);
        if k == 0 { match dec_keys(d, p + 4, p + 4 + n, Seq::empty()) { Some(q) => Some(PV { k, v: enc_keys(q) }), None => None } }
        else if k == 1 { if strs_fit(d, p + 4, p + 4 + n) { Some(PV { k, v }) } else { None } }
        else if k == 2 || k == 65535 { if n == 0 { Some(PV { k, v }) } else { None } }
        else if k == 3 { if n == 2 { Some(PV { k, v }) } else { None } }
        else if k == 4 { if n == 4 { Some(PV { k, v }) } else { None } }
        else if k == 6 { if n == 16 { Some(PV { k, v }) } else { None } }
        else if k == 5 || 65280 <= k { Some(PV { k, v }) }
        else { None }
    }
}
/// The parameters from `p` on, sorted into `q`; of parameters with the same key the first stays
pub open spec fn dec_params(d: Seq<u8>, p: int, q: Seq<PV>) -> Option<Seq<PV>>
    decreases d.len() - p
{
    if p < 0 || p > d.len() { None }
    else if p == d.len() { Some(q) }
    else { match dec_param(d, p) { None => None, Some(x) => dec_params(d, p + 4 + be16(d, p + 2), ins(q, x)) } }
}
pub open spec fn enc_pv(x: PV) -> Seq<u8> { enc16(x.k) + enc16(x.v.len() as u16) + x.v }
pub open spec fn enc_params(q: Seq<PV>) -> Seq<u8> decreases q.len() { if q.len() == 0 { Seq::empty() } else { enc_params(q.drop_last()) + enc_pv(q.last()) } }
pub proof fn lemma_enc_params_mono(ls: Seq<PV>, i: int)
    requires 0 <= i <= ls.len(),
    ensures enc_params(ls.take(i)).len() <= enc_params(ls).len(),
    decreases ls.len() - i
{
    if i < ls.len() {
        assert(ls.take(i + 1).drop_last() =~= ls.take(i));
        lemma_enc_params_mono(ls, i + 1);
    } else { assert(ls.take(i) =~= ls); }
}
pub proof fn lemma_enc_params_step(ls: Seq<PV>, i: int)
    requires 0 <= i < ls.len(),
    ensures enc_params(ls.take(i + 1)) == enc_params(ls.take(i)) + enc_pv(ls[i]),
        enc_params(ls.take(i + 1)).len() <= enc_params(ls).len(),
        enc_params(ls.take(i)).len() <= enc_params(ls).len(),
{
    assert(ls.take(i + 1).drop_last() =~= ls.take(i));
    lemma_enc_params_mono(ls, i + 1);
    lemma_enc_params_mono(ls, i);
}
pub proof fn lemma_enc_params_len(ls: Seq<PV>) ensures 4 * ls.len() <= enc_params(ls).len() decreases ls.len() { if ls.len() > 0 { lemma_enc_params_len(ls.drop_last()); } }
// ---- round trips: what the encoders write, the decoders read back -----------------------------
/// `b` stands at `p` in `d`
pub open spec fn at(d: Seq<u8>, p: int, b: Seq<u8>) -> bool { 0 <= p && p + b.len() <= d.len() && d.subrange(p, p + b.len()) == b }
pub proof fn lemma_at_split(d: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires at(d, p, a + b),
    ensures at(d, p, a), at(d, p + a.len(), b),
{
    let s = d.subrange(p, p + a.len() + b.len());
    assert(s == a + b);
    assert forall|i: int| 0 <= i < a.len() implies d[p + i] == a[i] by { assert(s[i] == d[p + i]); assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies d[p + a.len() + i] == b[i] by { assert(s[a.len() + i] == d[p + a.len() + i]); assert((a + b)[a.len() + i] == b[i]); }
    assert(d.subrange(p, p + a.len()) =~= a);
    assert(d.subrange(p + a.len(), p + a.len() + b.len()) =~= b);
}
pub proof fn lemma_at_byte(d: Seq<u8>, p: int, b: Seq<u8>, i: int)
    requires at(d, p, b), 0 <= i < b.len(),
    ensures d[p + i] == b[i],
{ assert(d.subrange(p, p + b.len())[i] == d[p + i]); }
pub proof fn lemma_at_16(d: Seq<u8>, p: int, x: u16)
    requires at(d, p, enc16(x)),
    ensures be16(d, p) == x, p + 2 <= d.len(),
{ lemma_at_byte(d, p, enc16(x), 0); lemma_at_byte(d, p, enc16(x), 1); }
pub proof fn lemma_at_32(d: Seq<u8>, p: int, x: u32)
    requires at(d, p, enc32(x)),
    ensures be32(d, p) == x, p + 4 <= d.len(),
{
    lemma_at_byte(d, p, enc32(x), 0); lemma_at_byte(d, p, enc32(x), 1); lemma_at_byte(d, p, enc32(x), 2); lemma_at_byte(d, p, enc32(x), 3);
    let v = x as int;
    assert((v / 0x1000000) * 0x1000000 + ((v / 0x10000) % 256) * 0x10000 + ((v / 0x100) % 256) * 0x100 + v % 256 == v) by {
        assert(v / 0x10000 == (v / 0x1000000) * 256 + (v / 0x10000) % 256) by { assert((v / 0x10000) / 256 == v / 0x1000000); }
        assert(v / 0x100 == (v / 0x10000) * 256 + (v / 0x100) % 256) by { assert((v / 0x100) / 256 == v / 0x10000); }
    }
}
pub proof fn lemma_enc_labels_front(ls: Seq<Seq<u8>>)
    requires ls.len() > 0,
    ensures enc_labels(ls) == enc_label(ls[0]) + enc_labels(ls.drop_first()),
    decreases ls.len()
{
    if ls.len() == 1 {
        assert(ls.drop_last() =~= Seq::<Seq<u8>>::empty()); assert(ls.drop_first() =~= Seq::<Seq<u8>>::empty());
        assert(enc_labels(ls) =~= enc_label(ls[0]) + enc_labels(ls.drop_first()));
    } else {
        lemma_enc_labels_front(ls.drop_last());
        assert(ls.drop_last().drop_first() =~= ls.drop_first().drop_last());
        assert(ls.drop_first().last() == ls.last());
        assert(enc_labels(ls) =~= enc_label(ls[0]) + enc_labels(ls.drop_first()));
    }
}
/// A name as written is read back, and reading stops behind it
pub proof fn rt_name(d: Seq<u8>, p: int, s: int, ls: Seq<Seq<u8>>)
    requires name_ok(ls), at(d, p, enc_name(ls)), 0 <= s,
    ensures name_at(d, p, s) == Some(ls), name_end(d, p) == p + enc_name(ls).len(),
    decreases ls.len()
{
    if ls.len() == 0 {
        lemma_at_byte(d, p, enc_name(ls), 0);
        assert(ls =~= Seq::empty());
    } else {
        let (l, r) = (ls[0], ls.drop_first());
        lemma_enc_labels_front(ls);
        assert(label_ok(l));
        assert(enc_name(ls) =~= seq![l.len() as u8] + (l + enc_name(r)));
        lemma_at_byte(d, p, enc_name(ls), 0);
        lemma_at_split(d, p, seq![l.len() as u8], l + enc_name(r));
        lemma_at_split(d, p + 1, l, enc_name(r));
        assert forall|i: int| 0 <= i < r.len() implies label_ok(#[trigger] r[i]) by { assert(r[i] == ls[i + 1]); }
        rt_name(d, p + 1 + l.len(), s, r);
        assert(seq![l] + r =~= ls);
    }
}
pub proof fn lemma_enc_strs_front(ls: Seq<Seq<u8>>)
    requires ls.len() > 0,
    ensures enc_strs(ls) == seq![ls[0].len() as u8] + ls[0] + enc_strs(ls.drop_first()),
    decreases ls.len()
{
    if ls.len() == 1 {
        assert(ls.drop_last() =~= Seq::<Seq<u8>>::empty()); assert(ls.drop_first() =~= Seq::<Seq<u8>>::empty());
        assert(enc_strs(ls) =~= seq![ls[0].len() as u8] + ls[0] + enc_strs(ls.drop_first()));
    } else {
        lemma_enc_strs_front(ls.drop_last());
        assert(ls.drop_last().drop_first() =~= ls.drop_first().drop_last());
        assert(ls.drop_first().last() == ls.last());
        assert(enc_strs(ls) =~= seq![ls[0].len() as u8] + ls[0] + enc_strs(ls.drop_first()));
    }
}
pub proof fn rt_strs(d: Seq<u8>, p: int, ls: Seq<Seq<u8>>)
    requires strs_ok_all(ls), at(d, p, enc_strs(ls)), p + enc_strs(ls).len() == d.len(),
    ensures dec_strs(d, p) == Some(ls),
    decreases ls.len()
{
    if ls.len() == 0 { assert(ls =~= Seq::empty()); }
    else {
        let (l, r) = (ls[0], ls.drop_first());
        lemma_enc_strs_front(ls);
        assert(enc_strs(ls) =~= seq![l.len() as u8] + (l + enc_strs(r)));
        lemma_at_byte(d, p, enc_strs(ls), 0);
        lemma_at_split(d, p, seq![l.len() as u8], l + enc_strs(r));
        lemma_at_split(d, p + 1, l, enc_strs(r));
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).len() <= 255 by { assert(r[i] == ls[i + 1]); }
        rt_strs(d, p + 1 + l.len(), r);
        assert(seq![l] + r =~= ls);
    }
}
pub proof fn lemma_enc_names_front(ls: Seq<Seq<Seq<u8>>>)
    requires ls.len() > 0,
    ensures enc_names(ls) == enc_name(ls[0]) + enc_names(ls.drop_first()),
    decreases ls.len()
{
    if ls.len() == 1 {
        assert(ls.drop_last() =~= Seq::<Seq<Seq<u8>>>::empty()); assert(ls.drop_first() =~= Seq::<Seq<Seq<u8>>>::empty());
        assert(enc_names(ls) =~= enc_name(ls[0]) + enc_names(ls.drop_first()));
    } else {
        lemma_enc_names_front(ls.drop_last());
        assert(ls.drop_last().drop_first() =~= ls.drop_first().drop_last());
        assert(ls.drop_first().last() == ls.last());
        assert(enc_names(ls) =~= enc_name(ls[0]) + enc_names(ls.drop_first()));
    }
}
pub proof fn rt_names(d: Seq<u8>, p: int, ls: Seq<Seq<Seq<u8>>>)
    requires names_ok_all(ls), at(d, p, enc_names(ls)), p + enc_names(ls).len() == d.len(),
    ensures dec_names(d, p) == Some(ls),
    decreases ls.len()
{
    if ls.len() == 0 { assert(ls =~= Seq::empty()); }
    else {
        let (l, r) = (ls[0], ls.drop_first());
        lemma_enc_names_front(ls);
        lemma_at_split(d, p, enc_name(l), enc_names(r));
        assert(name_ok(l));
        rt_name(d, p, p, l);
        assert forall|i: int| 0 <= i < r.len() implies name_ok(#[trigger] r[i]) by { assert(r[i] == ls[i + 1]); }
        rt_names(d, p + enc_name(l).len(), r);
        assert(seq![l] + r =~= ls);
    }
}
/// Bit `k` of the octet of `base` tells whether `base + k` is in the set
pub proof fn lemma_octet_bit(s: ISet<u16>, base: int, k: int)
    requires 0 <= k < 8,
    ensures obit(octet(s, base), k) == s.contains((base + k) as u16),
{
    let (a0, a1, a2, a3, a4, a5, a6, a7) = (ob(s, base, 0), ob(s, base, 1), ob(s, base, 2), ob(s, base, 3), ob(s, base, 4), ob(s, base, 5), ob(s, base, 6), ob(s, base, 7));
    let o = a0 | a1 | a2 | a3 | a4 | a5 | a6 | a7;
    let h = (a0 == 0 || a0 == 128) && (a1 == 0 || a1 == 64) && (a2 == 0 || a2 == 32) && (a3 == 0 || a3 == 16) && (a4 == 0 || a4 == 8) && (a5 == 0 || a5 == 4) && (a6 == 0 || a6 == 2) && (a7 == 0 || a7 == 1);
    assert(h);
    assert((a0 == 0 || a0 == 128) && (a1 == 0 || a1 == 64) && (a2 == 0 || a2 == 32) && (a3 == 0 || a3 == 16) && (a4 == 0 || a4 == 8) && (a5 == 0 || a5 == 4) && (a6 == 0 || a6 == 2) && (a7 == 0 || a7 == 1) ==>
        ((((a0 | a1 | a2 | a3 | a4 | a5 | a6 | a7) << 0u8) & 0x80u8 > 0) == (a0 != 0)) && ((((a0 | a1 | a2 | a3 | a4 | a5 | a6 | a7) << 1u8) & 0x80u8 > 0) == (a1 != 0))
        && ((((a0 | a1 | a2 | a3 | a4 | a5 | a6 | a7) << 2u8) & 0x80u8 > 0) == (a2 != 0)) && ((((a0 | a1 | a2 | a3 | a4 | a5 | a6 | a7) << 3u8) & 0x80u8 > 0) == (a3 != 0))
        && ((((a0 | a1 | a2 | a3 | a4 | a5 | a6 | a7) << 4u8) & 0x80u8 > 0) == (a4 != 0)) && ((((a0 | a1 | a2 | a3 | a4 | a5 | a6 | a7) << 5u8) & 0x80u8 > 0) == (a5 != 0))
        && ((((a0 | a1 | a2 | a3 | a4 | a5 | a6 | a7) << 6u8) & 0x80u8 > 0) == (a6 != 0)) && ((((a0 | a1 | a2 | a3 | a4 | a5 | a6 | a7) << 7u8) & 0x80u8 > 0) == (a7 != 0))) by(bit_vector);
    assert(o == octet(s, base));
}
/// Octets behind the window's length are zero
pub proof fn lemma_wlen_rest(s: ISet<u16>, w: int, n: int)
    ensures 0 <= wlen(s, w, n), n >= 0 ==> wlen(s, w, n) <= n, forall|k: int| wlen(s, w, n) <= k < n ==> wo(s, w, k) == 0,
    decreases n
{ if n > 0 && wo(s, w, n - 1) == 0 { lemma_wlen_rest(s, w, n - 1); } }
pub open spec fn part(s: ISet<u16>, w: int) -> ISet<u16> { ISet::new(|c: u16| s.contains(c) && c as int / 256 == w) }
pub open spec fn from_win(s: ISet<u16>, w: int) -> ISet<u16> { ISet::new(|c: u16| s.contains(c) && c as int / 256 >= w) }
pub proof fn lemma_win_rt(d: Seq<u8>, p: int, s: ISet<u16>, w: int)
    requires 0 <= w < 256, at(d, p, enc_win(s, w)), wlen(s, w, 32) > 0,
    ensures win(d, p, 256) == part(s, w), enc_win(s, w).len() == 2 + d[p + 1], p + 2 <= d.len(), d[p + 1] <= 32,
{
    lemma_wlen_rest(s, w, 32);
    let n = wlen(s, w, 32);
    let b = enc_win(s, w);
    lemma_at_byte(d, p, b, 0); lemma_at_byte(d, p, b, 1);
    assert forall|c: u16| win(d, p, 256).contains(c) == part(s, w).contains(c) by {
        if c as int / 256 == w {
            let k = (c as int % 256) / 8;
            let j = c as int % 8;
            assert(c == 256 * w + 8 * k + j);
            lemma_octet_bit(s, 256 * w + 8 * k, j);
            assert(((256 * w + 8 * k) + j) as u16 == c);
            if k < n { lemma_at_byte(d, p, b, 2 + k); assert(b[2 + k] == wo(s, w, k)); }
            else { assert(wo(s, w, k) == 0); assert((0u8 << (j as u8)) & 0x80u8 == 0) by { let j8 = j as u8; assert((0u8 << j8) & 0x80u8 == 0) by(bit_vector); } }
        }
    }
    assert(win(d, p, 256) =~= part(s, w));
}
pub open spec fn enc_bm_from(s: ISet<u16>, w: int) -> Seq<u8> decreases 256 - w { if w >= 256 { Seq::empty() } else { enc_win(s, w) + enc_bm_from(s, w + 1) } }
pub proof fn lemma_bm_from(s: ISet<u16>, w: int)
    requires 0 <= w <= 256,
    ensures enc_bm(s, 256) == enc_bm(s, w) + enc_bm_from(s, w),
    decreases 256 - w
{
    if w < 256 { lemma_bm_from(s, w + 1); assert(enc_bm(s, 256) =~= enc_bm(s, w) + enc_bm_from(s, w)); }
    else { assert(enc_bm(s, 256) =~= enc_bm(s, w) + enc_bm_from(s, w)); }
}
pub proof fn rt_bm_from(d: Seq<u8>, p: int, s: ISet<u16>, w: int, a: ISet<u16>)
    requires 0 <= w <= 256, at(d, p, enc_bm_from(s, w)), p + enc_bm_from(s, w).len() == d.len(),
    ensures dec_bm(d, p, a) == Some(a.union(from_win(s, w))),
    decreases 256 - w
{
    if w == 256 {
        assert(a.union(from_win(s, w)) =~= a);
    } else {
        lemma_at_split(d, p, enc_win(s, w), enc_bm_from(s, w + 1));
        lemma_wlen_rest(s, w, 32);
        if wlen(s, w, 32) > 0 {
            lemma_win_rt(d, p, s, w);
            let b = a.union(part(s, w));
            rt_bm_from(d, p + 2 + d[p + 1], s, w + 1, b);
            assert(b.union(from_win(s, w + 1)) =~= a.union(from_win(s, w)));
        } else {
            rt_bm_from(d, p, s, w + 1, a);
            assert forall|c: u16| c as int / 256 == w implies !s.contains(c) by {
                let k = (c as int % 256) / 8;
                let j = c as int % 8;
                assert(c == 256 * w + 8 * k + j);
                lemma_octet_bit(s, 256 * w + 8 * k, j);
                assert(((256 * w + 8 * k) + j) as u16 == c);
                assert(wo(s, w, k) == 0);
                assert((0u8 << (j as u8)) & 0x80u8 == 0) by { let j8 = j as u8; assert((0u8 << j8) & 0x80u8 == 0) by(bit_vector); }
            }
            assert(a.union(from_win(s, w + 1)) =~= a.union(from_win(s, w)));
        }
    }
}
/// A type bitmap as written is read back
pub proof fn rt_bm(d: Seq<u8>, p: int, s: ISet<u16>)
    requires at(d, p, enc_bm(s, 256)), p + enc_bm(s, 256).len() == d.len(),
    ensures dec_bm(d, p, ISet::empty()) == Some(s),
{
    lemma_bm_from(s, 0);
    assert(enc_bm(s, 256) =~= enc_bm_from(s, 0));
    rt_bm_from(d, p, s, 0, ISet::empty());
    assert(ISet::<u16>::empty().union(from_win(s, 0)) =~= s);
}
pub proof fn rt_1(k: K, w: W, d: Seq<u8>, p: int)
    requires ok1(k, w), at(d, p, enc1(k, w)), tail_kind(k) ==> p + enc1(k, w).len() == d.len(),
    ensures dec1(k, d, p) == Some((w, p + enc1(k, w).len())),
{
    let b = enc1(k, w);
    match k {
        K::U8 => { lemma_at_byte(d, p, b, 0); }
        K::U16 => { lemma_at_16(d, p, w->N16_0); }
        K::U32 => { lemma_at_32(d, p, w->N32_0); }
        K::Fix(n) => { }
        K::Str => { lemma_at_byte(d, p, b, 0); lemma_at_split(d, p, seq![w->B_0.len() as u8], w->B_0); }
        K::Blob16 => { lemma_at_split(d, p, enc16(w->B_0.len() as u16), w->B_0); lemma_at_16(d, p, w->B_0.len() as u16); }
        K::Name => { rt_name(d, p, p, w->L_0); }
        K::Rest => { }
        K::Strs => { rt_strs(d, p, w->L_0); }
        K::Names => { rt_names(d, p, w->NL_0); }
        K::Bm => { rt_bm(d, p, w->S_0); }
    }
}
/// Every layout reads back what it writes
pub proof fn rt_layout(ks: Ks, ws: Ws, d: Seq<u8>, p: int)
    requires oks(ks, ws), at(d, p, encs(ks, ws)), has_tail(ks) ==> p + encs(ks, ws).len() == d.len(),
    ensures decs(ks, d, p) == Some((ws, p + encs(ks, ws).len())),
    decreases ks
{
    match (ks, ws) {
        (Ks::Cons(k, kr), Ws::Cons(w, wr)) => {
            lemma_at_split(d, p, enc1(k, w), encs(*kr, *wr));
            if tail_kind(k) { assert(encs(*kr, *wr) =~= Seq::empty()); }
            rt_1(k, w, d, p);
            rt_layout(*kr, *wr, d, p + enc1(k, w).len());
        }
        _ => { }
    }
}
// ---- round trips: option and parameter lists --------------------------------------------------
pub broadcast axiom fn axiom_string_utf8(s: String) ensures is_utf8(#[trigger] sbytes(s));
pub proof fn lemma_enc_opts_front(ls: Seq<(u16, Seq<u8>)>)
    requires ls.len() > 0,
    ensures enc_opts(ls) == enc_opt(ls[0]) + enc_opts(ls.drop_first()),
    decreases ls.len()
{
    if ls.len() == 1 {
        assert(ls.drop_last() =~= Seq::<(u16, Seq<u8>)>::empty()); assert(ls.drop_first() =~= Seq::<(u16, Seq<u8>)>::empty());
        assert(enc_opts(ls) =~= enc_opt(ls[0]) + enc_opts(ls.drop_first()));
    } else {
        lemma_enc_opts_front(ls.drop_last());
        assert(ls.drop_last().drop_first() =~= ls.drop_first().drop_last());
        assert(ls.drop_first().last() == ls.last());
        assert(enc_opts(ls) =~= enc_opt(ls[0]) + enc_opts(ls.drop_first()));
    }
}
pub open spec fn opts_ok(q: Seq<(u16, Seq<u8>)>) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).1.len() <= 65535 }
pub open spec fn ins_all(q: Seq<(u16, Seq<u8>)>, m: Map<u16, Seq<u8>>) -> Map<u16, Seq<u8>> decreases q.len() {
    if q.len() == 0 { m } else { ins_all(q.drop_first(), m.insert(q[0].0, q[0].1)) }
}
pub proof fn lemma_ins_all(q: Seq<(u16, Seq<u8>)>, m: Map<u16, Seq<u8>>)
    requires forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).0 != (#[trigger] q[j]).0,
    ensures
        forall|i: int| 0 <= i < q.len() ==> ins_all(q, m).dom().contains((#[trigger] q[i]).0) && ins_all(q, m)[q[i].0] == q[i].1,
        forall|k: u16| (forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0 != k) ==> (#[trigger] ins_all(q, m).dom().contains(k) == m.dom().contains(k)) && ins_all(q, m)[k] == m[k],
    decreases q.len()
{
    if q.len() > 0 {
        let r = q.drop_first();
        let n = m.insert(q[0].0, q[0].1);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0 != (#[trigger] r[j]).0 by { assert(r[i] == q[i + 1] && r[j] == q[j + 1]); }
        lemma_ins_all(r, n);
        assert forall|i: int| 0 <= i < q.len() implies ins_all(q, m).dom().contains((#[trigger] q[i]).0) && ins_all(q, m)[q[i].0] == q[i].1 by {
            if i > 0 { assert(r[i - 1] == q[i]); }
            else { assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]).0 != q[0].0 by { assert(r[j] == q[j + 1]); }
                assert(ins_all(r, n).dom().contains(q[0].0) == n.dom().contains(q[0].0)); }
        }
        assert forall|k: u16| (forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0 != k) implies (#[trigger] ins_all(q, m).dom().contains(k) == m.dom().contains(k)) && ins_all(q, m)[k] == m[k] by {
            assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]).0 != k by { assert(r[j] == q[j + 1]); }
            assert(q[0].0 != k);
            assert(ins_all(r, n).dom().contains(k) == n.dom().contains(k));
        }
    }
}
/// Options as written are read back, whatever order they are written in
pub proof fn rt_opts(d: Seq<u8>, p: int, q: Seq<(u16, Seq<u8>)>, m: Map<u16, Seq<u8>>)
    requires opts_ok(q), at(d, p, enc_opts(q)), p + enc_opts(q).len() == d.len(),
    ensures dec_opts(d, p, m) == Some(ins_all(q, m)),
    decreases q.len()
{
    if q.len() > 0 {
        let (o, r) = (q[0], q.drop_first());
        lemma_enc_opts_front(q);
        lemma_at_split(d, p, enc_opt(o), enc_opts(r));
        lemma_at_split(d, p, enc16(o.0) + enc16(o.1.len() as u16), o.1);
        lemma_at_split(d, p, enc16(o.0), enc16(o.1.len() as u16));
        lemma_at_16(d, p, o.0); lemma_at_16(d, p + 2, o.1.len() as u16);
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).1.len() <= 65535 by { assert(r[i] == q[i + 1]); }
        rt_opts(d, p + 4 + o.1.len(), r, m.insert(o.0, o.1));
    }
}
pub proof fn rt_optmap(d: Seq<u8>, p: int, h: Seq<(u16, Vec<u8>)>, m: Map<u16, Vec<u8>>)
    requires lists_map(h, m), opts_ok(opt_of(h)), at(d, p, enc_opts(opt_of(h))), p + enc_opts(opt_of(h)).len() == d.len(),
    ensures dec_opts(d, p, Map::empty()) == Some(optmap(m)),
{
    let q = opt_of(h);
    rt_opts(d, p, q, Map::empty());
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { assert(q[i].0 == h[i].0 && q[j].0 == h[j].0); }
    lemma_ins_all(q, Map::empty());
    let r = ins_all(q, Map::empty());
    let t = optmap(m);
    assert forall|k: u16| r.dom().contains(k) == t.dom().contains(k) && (t.dom().contains(k) ==> r[k] == t[k]) by {
        if m.dom().contains(k) {
            let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).0 == k;
            assert(q[i].0 == k); assert(q[i].1 == h[i].1@);
        } else {
            assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 != k by { assert(q[i].0 == h[i].0); }
            assert(r.dom().contains(k) == Map::<u16, Seq<u8>>::empty().dom().contains(k));
        }
    }
    assert(r =~= t);
}
pub proof fn lemma_enc_keys_front(ls: Seq<u16>)
    requires ls.len() > 0,
    ensures enc_keys(ls) == enc16(ls[0]) + enc_keys(ls.drop_first()),
    decreases ls.len()
{
    if ls.len() == 1 {
        assert(ls.drop_last() =~= Seq::<u16>::empty()); assert(ls.drop_first() =~= Seq::<u16>::empty());
        assert(enc_keys(ls) =~= enc16(ls[0]) + enc_keys(ls.drop_first()));
    } else {
        lemma_enc_keys_front(ls.drop_last());
        assert(ls.drop_last().drop_first() =~= ls.drop_first().drop_last());
        assert(ls.drop_first().last() == ls.last());
        assert(enc_keys(ls) =~= enc16(ls[0]) + enc_keys(ls.drop_first()));
    }
}
pub proof fn lemma_ins_last<T: VKey>(q: Seq<T>, x: T)
    requires forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).vk() < x.vk(),
    ensures ins(q, x) == q.push(x),
{ if q.len() > 0 { assert(q[q.len() - 1].vk() < x.vk()); } }
pub open spec fn keys_ok(ks: Seq<u16>) -> bool { asc(ks) && forall|i: int| 0 <= i < ks.len() ==> crate::rdata::svcb::ParamKey::valid(#[trigger] ks[i]) }
pub proof fn rt_keys(d: Seq<u8>, p: int, ks: Seq<u16>, i: int)
    requires keys_ok(ks), 0 <= i <= ks.len(), at(d, p, enc_keys(ks.subrange(i, ks.len() as int))),
    ensures dec_keys(d, p, p + 2 * (ks.len() - i), ks.take(i)) == Some(ks),
    decreases ks.len() - i
{
    let r = ks.subrange(i, ks.len() as int);
    lemma_enc_keys_len(r);
    if i == ks.len() { assert(ks.take(i) =~= ks); }
    else {
        lemma_enc_keys_front(r);
        let t = ks.subrange(i + 1, ks.len() as int);
        assert(r.drop_first() =~= t);
        lemma_at_split(d, p, enc16(r[0]), enc_keys(t));
        lemma_at_16(d, p, r[0]);
        assert(r[0] == ks[i]);
        assert forall|j: int| 0 <= j < ks.take(i).len() implies (#[trigger] ks.take(i)[j]).vk() < ks[i].vk() by { assert(ks[j].vk() < ks[i].vk()); }
        lemma_ins_last(ks.take(i), ks[i]);
        assert(ks.take(i).push(ks[i]) =~= ks.take(i + 1));
        rt_keys(d, p + 2, ks, i + 1);
    }
}
pub proof fn rt_strs_fit(d: Seq<u8>, p: int, ls: Seq<Seq<u8>>)
    requires strs_ok_all(ls), at(d, p, enc_strs(ls)),
    ensures strs_fit(d, p, p + enc_strs(ls).len()),
    decreases ls.len()
{
    if ls.len() > 0 {
        let (l, r) = (ls[0], ls.drop_first());
        lemma_enc_strs_front(ls);
        assert(enc_strs(ls) =~= seq![l.len() as u8] + (l + enc_strs(r)));
        lemma_at_byte(d, p, enc_strs(ls), 0);
        lemma_at_split(d, p, seq![l.len() as u8], l + enc_strs(r));
        lemma_at_split(d, p + 1, l, enc_strs(r));
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).len() <= 255 by { assert(r[i] == ls[i + 1]); }
        rt_strs_fit(d, p + 1 + l.len(), r);
    }
}
/// The parameters that can be written: the value has the form its key calls for
pub open spec fn pv_ok(x: PV) -> bool {
    &&& x.v.len() <= 65535
    &&& if x.k == 0 { exists|ks: Seq<u16>| keys_ok(ks) && x.v == #[trigger] enc_keys(ks) }
        else if x.k == 1 { exists|ls: Seq<Seq<u8>>| strs_ok_all(ls) && x.v == #[trigger] enc_strs(ls) }
        else if x.k == 2 || x.k == 65535 { x.v.len() == 0 }
        else if x.k == 3 { x.v.len() == 2 } else if x.k == 4 { x.v.len() == 4 } else if x.k == 6 { x.v.len() == 16 }
        else { x.k == 5 || 65280 <= x.k }
}
pub proof fn rt_param(d: Seq<u8>, p: int, x: PV)
    requires pv_ok(x), at(d, p, enc_pv(x)),
    ensures dec_param(d, p) == Some(x), be16(d, p + 2) == x.v.len(),
{
    lemma_at_split(d, p, enc16(x.k) + enc16(x.v.len() as u16), x.v);
    lemma_at_split(d, p, enc16(x.k), enc16(x.v.len() as u16));
    lemma_at_16(d, p, x.k); lemma_at_16(d, p + 2, x.v.len() as u16);
    if x.k == 0 {
        let ks = choose|ks: Seq<u16>| keys_ok(ks) && x.v == #[trigger] enc_keys(ks);
        assert(ks.subrange(0, ks.len() as int) =~= ks);
        assert(ks.take(0) =~= Seq::empty());
        lemma_enc_keys_len(ks);
        rt_keys(d, p + 4, ks, 0);
    } else if x.k == 1 {
        let ls = choose|ls: Seq<Seq<u8>>| strs_ok_all(ls) && x.v == #[trigger] enc_strs(ls);
        rt_strs_fit(d, p + 4, ls);
    }
}
pub proof fn lemma_enc_params_front(ls: Seq<PV>)
    requires ls.len() > 0,
    ensures enc_params(ls) == enc_pv(ls[0]) + enc_params(ls.drop_first()),
    decreases ls.len()
{
    if ls.len() == 1 {
        assert(ls.drop_last() =~= Seq::<PV>::empty()); assert(ls.drop_first() =~= Seq::<PV>::empty());
        assert(enc_params(ls) =~= enc_pv(ls[0]) + enc_params(ls.drop_first()));
    } else {
        lemma_enc_params_front(ls.drop_last());
        assert(ls.drop_last().drop_first() =~= ls.drop_first().drop_last());
        assert(ls.drop_first().last() == ls.last());
        assert(enc_params(ls) =~= enc_pv(ls[0]) + enc_params(ls.drop_first()));
    }
}
pub open spec fn pvs_ok(q: Seq<PV>) -> bool { asc(q) && forall|i: int| 0 <= i < q.len() ==> pv_ok(#[trigger] q[i]) }
pub proof fn rt_params(d: Seq<u8>, p: int, q: Seq<PV>, i: int)
    requires pvs_ok(q), 0 <= i <= q.len(), at(d, p, enc_params(q.subrange(i, q.len() as int))), p + enc_params(q.subrange(i, q.len() as int)).len() == d.len(),
    ensures dec_params(d, p, q.take(i)) == Some(q),
    decreases q.len() - i
{
    let r = q.subrange(i, q.len() as int);
    if i == q.len() { assert(q.take(i) =~= q); }
    else {
        lemma_enc_params_front(r);
        let t = q.subrange(i + 1, q.len() as int);
        assert(r.drop_first() =~= t);
        lemma_at_split(d, p, enc_pv(r[0]), enc_params(t));
        assert(r[0] == q[i]);
        rt_param(d, p, q[i]);
        assert forall|j: int| 0 <= j < q.take(i).len() implies (#[trigger] q.take(i)[j]).vk() < q[i].vk() by { assert(q[j].vk() < q[i].vk()); }
        lemma_ins_last(q.take(i), q[i]);
        assert(q.take(i).push(q[i]) =~= q.take(i + 1));
        rt_params(d, p + 4 + q[i].v.len(), q, i + 1);
    }
}
/// A name, and where it ends
pub proof fn rt_name1(d: Seq<u8>, p: int, ls: Seq<Seq<u8>>)
    requires name_ok(ls), at(d, p, enc_name(ls)),
    ensures name_at(d, p, p) == Some(ls), name_end(d, p) == p + enc_name(ls).len(),
{ rt_name(d, p, p, ls); }
// ---- name compression (RFC 1035 section 4.1.4) ------------------------------------------------
/// The hash under which the labels of a name are remembered while a message is written
pub uninterp spec fn hsh(ls: Seq<Seq<u8>>) -> u64;
pub open spec fn suf(ls: Seq<Seq<u8>>, i: int) -> Seq<Seq<u8>> { ls.subrange(i, ls.len() as int) }
/// No two of these names have the same hash
pub open spec fn inj(u: ISet<Seq<Seq<u8>>>) -> bool { forall|a: Seq<Seq<u8>>, b: Seq<Seq<u8>>| #![trigger hsh(a), hsh(b)] u.contains(a) && u.contains(b) && hsh(a) == hsh(b) ==> a == b }
/// The name and all its parents are among these names
pub open spec fn sfx_in(ls: Seq<Seq<u8>>, u: ISet<Seq<Seq<u8>>>) -> bool { forall|j: int| 0 <= j <= ls.len() ==> u.contains(#[trigger] suf(ls, j)) }
/// A remembered position is one a pointer can hold, and the name there is the one with that hash
pub open spec fn names_ok(m: Map<u64, usize>, d: Seq<u8>, u: ISet<Seq<Seq<u8>>>) -> bool {
    forall|h: u64| #[trigger] m.dom().contains(h) ==> m[h] <= 0x3FFF && m[h] < d.len()
        && match name_at(d, m[h] as int, m[h] as int) { Some(ls) => u.contains(ls) && hsh(ls) == h, None => false }
}
/// What was written so far (`d`) is in step with the remembered names
pub open spec fn pre_c(m: Map<u64, usize>, d: Seq<u8>, u: ISet<Seq<Seq<u8>>>, off: int) -> bool { d.len() == off && inj(u) && names_ok(m, d, u) }
pub open spec fn post_name(ls: Seq<Seq<u8>>, m1: Map<u64, usize>, r: Seq<u8>, d: Seq<u8>, u: ISet<Seq<Seq<u8>>>, off: int) -> bool {
    names_ok(m1, d + r, u) && name_at(d + r, off, off) == Some(ls) && name_end(d + r, off) == off + r.len()
}
/// `b` stands at `p` in `d`
pub open spec fn ate(d: Seq<u8>, p: int, b: Seq<u8>) -> bool { 0 <= p && p + b.len() <= d.len() && forall|j: int| p <= j < p + b.len() ==> #[trigger] d[j] == b[j - p] }
pub proof fn lemma_ate(d: Seq<u8>, p: int, b: Seq<u8>, x: int, y: int)
    requires ate(d, p, b), 0 <= x <= y <= b.len(),
    ensures at(d, p + x, b.subrange(x, y)),
{ assert(d.subrange(p + x, p + y) =~= b.subrange(x, y)); }
/// The first `off` octets of the message `e` are in step with the remembered names
pub open spec fn c_in(m: Map<u64, usize>, e: Seq<u8>, u: ISet<Seq<Seq<u8>>>, off: int) -> bool { 0 <= off <= e.len() && pre_c(m, e.take(off), u, off) }
pub open spec fn c_own(ls: Seq<Seq<u8>>, off: int, j: int, h: u64, v: usize) -> bool { h == hsh(suf(ls, j)) && v == off + enc_labels(ls.take(j)).len() && v <= 0x3FFF }
/// Remembered are names from before, and the first `i` parents of this name where they are written
pub open spec fn c_ent(ls: Seq<Seq<u8>>, m0: Map<u64, usize>, m1: Map<u64, usize>, off: int, i: int) -> bool {
    forall|h: u64| #[trigger] m1.dom().contains(h) ==> (m0.dom().contains(h) && m1[h] == m0[h]) || exists|j: int| 0 <= j < i && #[trigger] c_own(ls, off, j, h, m1[h])
}
pub open spec fn ptr16(v: usize) -> u16 { (v as u16) | 0xC000 }
pub open spec fn c_at(ls: Seq<Seq<u8>>, m0: Map<u64, usize>, off: int, m1: Map<u64, usize>, r: Seq<u8>, i: int) -> bool {
    &&& 0 <= i <= ls.len() && c_ent(ls, m0, m1, off, i)
    &&& if i == ls.len() { r =~= enc_name(ls) } else { m1.dom().contains(hsh(suf(ls, i))) && r =~= enc_labels(ls.take(i)) + enc16(ptr16(m1[hsh(suf(ls, i))])) }
}
pub proof fn lemma_name_ext(d: Seq<u8>, x: Seq<u8>, p: int, s: int)
    requires name_at(d, p, s) is Some,
    ensures name_at(d + x, p, s) == name_at(d, p, s), name_end(d + x, p) == name_end(d, p),
    decreases s, d.len() - p
{
    let e = d + x;
    assert(forall|k: int| 0 <= k < d.len() ==> e[k] == d[k]);
    if d[p] == 0 { }
    else if d[p] < 64 {
        lemma_name_ext(d, x, p + 1 + d[p], s);
        assert(e.subrange(p + 1, p + 1 + d[p]) =~= d.subrange(p + 1, p + 1 + d[p]));
    } else {
        let t = (d[p] - 192) * 256 + d[p + 1];
        lemma_name_ext(d, x, t, t);
    }
}
pub proof fn lemma_names_ext(m: Map<u64, usize>, d: Seq<u8>, x: Seq<u8>, u: ISet<Seq<Seq<u8>>>)
    requires names_ok(m, d, u),
    ensures names_ok(m, d + x, u),
{
    assert forall|h: u64| #[trigger] m.dom().contains(h) implies m[h] <= 0x3FFF && m[h] < (d + x).len()
        && match name_at(d + x, m[h] as int, m[h] as int) { Some(ls) => u.contains(ls) && hsh(ls) == h, None => false } by { lemma_name_ext(d, x, m[h] as int, m[h] as int); }
}
/// Octets that hold no name are written
pub proof fn lemma_c_skip(m: Map<u64, usize>, e: Seq<u8>, u: ISet<Seq<Seq<u8>>>, off: int, n: int)
    requires c_in(m, e, u, off), 0 <= n, off + n <= e.len(),
    ensures c_in(m, e, u, off + n),
{
    let x = e.subrange(off, off + n);
    assert(e.take(off) + x =~= e.take(off + n));
    lemma_names_ext(m, e.take(off), x, u);
}
pub proof fn lemma_c_skips(e: Seq<u8>, u: ISet<Seq<Seq<u8>>>, off: int, n: int)
    requires 0 <= n, off + n <= e.len(),
    ensures forall|m: Map<u64, usize>| #[trigger] c_in(m, e, u, off) ==> c_in(m, e, u, off + n),
{
    assert forall|m: Map<u64, usize>| #[trigger] c_in(m, e, u, off) implies c_in(m, e, u, off + n) by { lemma_c_skip(m, e, u, off, n); }
}
pub proof fn lemma_ate_cut(e: Seq<u8>, p: int, b: Seq<u8>, n: int)
    requires ate(e, p, b), p + b.len() <= n <= e.len(),
    ensures ate(e.subrange(0, n), p, b),
{ }
/// Only what was written counts
pub proof fn lemma_c_cut(m: Map<u64, usize>, e: Seq<u8>, u: ISet<Seq<Seq<u8>>>, off: int, n: int)
    requires 0 <= off <= n <= e.len(),
    ensures c_in(m, e, u, off) == c_in(m, e.subrange(0, n), u, off), e.subrange(0, n).len() == n,
{ assert(e.take(off) =~= e.subrange(0, n).take(off)); }
pub proof fn lemma_c_start(e: Seq<u8>, u: ISet<Seq<Seq<u8>>>, off: int)
    requires inj(u), 0 <= off <= e.len(),
    ensures c_in(Map::empty(), e, u, off),
{ }
/// Labels and then a pointer to the rest of the name
pub proof fn lemma_c_ptr(d: Seq<u8>, p: int, s: int, ls: Seq<Seq<u8>>, i: int, t: int)
    requires name_ok(ls), 0 <= i <= ls.len(), at(d, p, enc_labels(ls.take(i)) + enc16((0xC000 + t) as u16)), 0 <= t < s, t <= 0x3FFF, name_at(d, t, t) == Some(suf(ls, i)),
    ensures name_at(d, p, s) == Some(ls), name_end(d, p) == p + enc_labels(ls.take(i)).len() + 2,
    decreases i
{
    let b = enc_labels(ls.take(i)) + enc16((0xC000 + t) as u16);
    if i == 0 {
        assert(ls.take(0) =~= Seq::empty());
        assert(suf(ls, 0) =~= ls);
        lemma_at_split(d, p, enc_labels(ls.take(0)), enc16((0xC000 + t) as u16));
        lemma_at_byte(d, p, enc16((0xC000 + t) as u16), 0);
        lemma_at_byte(d, p, enc16((0xC000 + t) as u16), 1);
    } else {
        let (l, r) = (ls[0], ls.drop_first());
        let c = enc_labels(r.take(i - 1)) + enc16((0xC000 + t) as u16);
        assert(ls.take(i).drop_first() =~= r.take(i - 1));
        lemma_enc_labels_front(ls.take(i));
        assert(label_ok(l));
        assert(b =~= seq![l.len() as u8] + (l + c));
        lemma_at_byte(d, p, b, 0);
        lemma_at_split(d, p, seq![l.len() as u8], l + c);
        lemma_at_split(d, p + 1, l, c);
        assert forall|k: int| 0 <= k < r.len() implies label_ok(#[trigger] r[k]) by { assert(r[k] == ls[k + 1]); }
        assert(suf(r, i - 1) =~= suf(ls, i));
        lemma_c_ptr(d, p + 1 + l.len(), s, r, i - 1, t);
        assert(seq![l] + r =~= ls);
    }
}
/// The labels before position `j` end where those from `j` on begin
pub proof fn lemma_labels_cut(ls: Seq<Seq<u8>>, j: int, i: int)
    requires 0 <= j <= i <= ls.len(),
    ensures enc_labels(ls.take(i)) == enc_labels(ls.take(j)) + enc_labels(suf(ls, j).take(i - j)),
    decreases i - j
{
    if i == j { assert(suf(ls, j).take(0) =~= Seq::empty()); assert(enc_labels(ls.take(i)) =~= enc_labels(ls.take(j)) + enc_labels(suf(ls, j).take(i - j))); }
    else {
        lemma_labels_cut(ls, j, i - 1);
        assert(ls.take(i).drop_last() =~= ls.take(i - 1));
        assert(suf(ls, j).take(i - j).drop_last() =~= suf(ls, j).take(i - 1 - j));
        assert(suf(ls, j).take(i - j).last() == ls.take(i).last());
        assert(enc_labels(ls.take(i)) =~= enc_labels(ls.take(j)) + enc_labels(suf(ls, j).take(i - j)));
    }
}
/// The parent `j` of a written name reads back where it stands
pub proof fn lemma_c_pos(ls: Seq<Seq<u8>>, e: Seq<u8>, off: int, r: Seq<u8>, i: int, j: int, t: int)
    requires name_ok(ls), 0 <= off, 0 <= j <= i <= ls.len(), at(e, off, r), i == ls.len() ==> r == enc_name(ls),
        i < ls.len() ==> 0 <= t < off && t <= 0x3FFF && r == enc_labels(ls.take(i)) + enc16((0xC000 + t) as u16) && name_at(e, t, t) == Some(suf(ls, i)),
    ensures ({ let p = off + enc_labels(ls.take(j)).len(); name_at(e, p, p) == Some(suf(ls, j)) && p < e.len() && name_end(e, p) == off + r.len() }),
{
    let a = enc_labels(ls.take(j));
    let rest = suf(ls, j);
    assert forall|k: int| 0 <= k < rest.len() implies label_ok(#[trigger] rest[k]) by { assert(rest[k] == ls[k + j]); }
    lemma_labels_cut(ls, j, i);
    if i == ls.len() {
        assert(ls.take(i) =~= ls); assert(rest.take(i - j) =~= rest);
        assert(r =~= a + enc_name(rest));
        lemma_at_split(e, off, a, enc_name(rest));
        rt_name(e, off + a.len(), off + a.len(), rest);
    } else {
        let c = enc_labels(rest.take(i - j)) + enc16((0xC000 + t) as u16);
        assert(r =~= a + c);
        lemma_at_split(e, off, a, c);
        assert(suf(rest, i - j) =~= suf(ls, i));
        lemma_c_ptr(e, off + a.len(), off + a.len(), rest, i - j, t);
    }
}
pub proof fn lemma_c_one(ls: Seq<Seq<u8>>, m0: Map<u64, usize>, off: int, m1: Map<u64, usize>, r: Seq<u8>, i: int, d: Seq<u8>, u: ISet<Seq<Seq<u8>>>)
    requires c_at(ls, m0, off, m1, r, i), pre_c(m0, d, u, off), name_ok(ls), sfx_in(ls, u),
    ensures post_name(ls, m1, r, d, u, off),
{
    hide(name_at); hide(name_end); hide(enc_labels); hide(name_ok); hide(enc_name); hide(enc16);
    let e = d + r;
    assert(at(e, off, r)) by { assert(e.subrange(off, off + r.len()) =~= r); }
    let hi = hsh(suf(ls, i));
    let mut t: int = 0;
    if i < ls.len() {
        assert(m0.dom().contains(hi) && m1[hi] == m0[hi]) by {
            if !(m0.dom().contains(hi) && m1[hi] == m0[hi]) {
                let j = choose|j: int| 0 <= j < i && #[trigger] c_own(ls, off, j, hi, m1[hi]);
                assert(u.contains(suf(ls, j)) && u.contains(suf(ls, i)));
                assert(suf(ls, j).len() != suf(ls, i).len());
            }
        }
        assert(u.contains(suf(ls, i)));
        t = m0[hi] as int;
        assert(name_at(d, t, t) == Some(suf(ls, i)));
        lemma_name_ext(d, r, t, t);
        let t16 = m0[hi] as u16;
        assert(t16 <= 0x3FFF ==> t16 | 0xC000 == 0xC000 + t16) by(bit_vector);
    }
    assert forall|h: u64| #[trigger] m1.dom().contains(h) implies m1[h] <= 0x3FFF && m1[h] < e.len()
        && match name_at(e, m1[h] as int, m1[h] as int) { Some(x) => u.contains(x) && hsh(x) == h, None => false } by {
        if m0.dom().contains(h) && m1[h] == m0[h] { lemma_name_ext(d, r, m0[h] as int, m0[h] as int); }
        else {
            let j = choose|j: int| 0 <= j < i && #[trigger] c_own(ls, off, j, h, m1[h]);
            lemma_c_pos(ls, e, off, r, i, j, t);
            assert(u.contains(suf(ls, j)));
        }
    }
    lemma_c_pos(ls, e, off, r, i, 0, t);
    assert(ls.take(0) =~= Seq::empty()); assert(suf(ls, 0) =~= ls);
    assert(enc_labels(Seq::empty()).len() == 0) by { reveal(enc_labels); }
}
/// What is written for a name reads back as that name, whatever the message around it
pub proof fn lemma_c_name(ls: Seq<Seq<u8>>, m0: Map<u64, usize>, off: int, m1: Map<u64, usize>, r: Seq<u8>, i: int)
    requires c_at(ls, m0, off, m1, r, i),
    ensures forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(m0, e, u, off) && ate(e, off, r) && name_ok(ls) && sfx_in(ls, u) ==> c_in(m1, e, u, off + r.len()) && name_at(e, off, off) == Some(ls) && name_end(e, off) == off + r.len(),
{
    hide(name_at); hide(name_end); hide(names_ok);
    assert forall|e: Seq<u8>, u: ISet<Seq<Seq<u8>>>| #[trigger] c_in(m0, e, u, off) && ate(e, off, r) && name_ok(ls) && sfx_in(ls, u) implies c_in(m1, e, u, off + r.len()) && name_at(e, off, off) == Some(ls) && name_end(e, off) == off + r.len() by {
        let d = e.take(off);
        assert(d + r =~= e.take(off + r.len()));
        lemma_c_one(ls, m0, off, m1, r, i, d, u);
        let x = e.subrange(off + r.len(), e.len() as int);
        assert((d + r) + x =~= e);
        lemma_name_ext(d + r, x, off, off);
    }
}
/// One more label is written; its name is remembered where a pointer can reach it
pub proof fn lemma_c_step(ls: Seq<Seq<u8>>, m0: Map<u64, usize>, m1: Map<u64, usize>, off: int, i: int)
    requires 0 <= i < ls.len(), c_ent(ls, m0, m1, off, i),
    ensures c_ent(ls, m0, m1, off, i + 1),
        forall|v: usize| v == off + enc_labels(ls.take(i)).len() && v <= 0x3FFF ==> c_ent(ls, m0, #[trigger] m1.insert(hsh(suf(ls, i)), v), off, i + 1),
{
    assert forall|h: u64| #[trigger] m1.dom().contains(h) implies (m0.dom().contains(h) && m1[h] == m0[h]) || exists|j: int| 0 <= j < i + 1 && #[trigger] c_own(ls, off, j, h, m1[h]) by {
        if !(m0.dom().contains(h) && m1[h] == m0[h]) { let j = choose|j: int| 0 <= j < i && #[trigger] c_own(ls, off, j, h, m1[h]); assert(0 <= j < i + 1); }
    }
    assert forall|v: usize| v == off + enc_labels(ls.take(i)).len() && v <= 0x3FFF implies c_ent(ls, m0, #[trigger] m1.insert(hsh(suf(ls, i)), v), off, i + 1) by {
        let m2 = m1.insert(hsh(suf(ls, i)), v);
        assert forall|h: u64| #[trigger] m2.dom().contains(h) implies (m0.dom().contains(h) && m2[h] == m0[h]) || exists|j: int| 0 <= j < i + 1 && #[trigger] c_own(ls, off, j, h, m2[h]) by {
            if h == hsh(suf(ls, i)) { assert(c_own(ls, off, i, h, m2[h])); }
            else {
                assert(m1.dom().contains(h)); assert(m2[h] == m1[h]);
                if !(m0.dom().contains(h) && m1[h] == m0[h]) { let j = choose|j: int| 0 <= j < i && #[trigger] c_own(ls, off, j, h, m1[h]); assert(0 <= j < i + 1); assert(c_own(ls, off, j, h, m2[h])); }
            }
        }
    }
}

// ---- record sets: lexicographic order of octet strings (RFC 4034 section 6.3)
pub open spec fn lexle(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
    if a.len() == 0 { true } else if b.len() == 0 { false }
    else if a[0] < b[0] { true } else if a[0] > b[0] { false }
    else { lexle(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)) }
}
pub open spec fn lexle_f() -> spec_fn(Seq<u8>, Seq<u8>) -> bool { |a: Seq<u8>, b: Seq<u8>| lexle(a, b) }
pub open spec fn sorted_lex(s: Seq<Seq<u8>>) -> bool { vstd::relations::sorted_by(s, lexle_f()) }
pub proof fn lemma_set_lex_refl(a: Seq<u8>) ensures lexle(a, a) decreases a.len() {
    if a.len() > 0 { lemma_set_lex_refl(a.subrange(1, a.len() as int)); }
}
pub proof fn lemma_set_lex_anti(a: Seq<u8>, b: Seq<u8>) requires lexle(a, b), lexle(b, a), ensures a == b decreases a.len() {
    if a.len() > 0 && b.len() > 0 {
        lemma_set_lex_anti(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int));
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(a[i] == a.subrange(1, a.len() as int)[i - 1]); assert(b[i] == b.subrange(1, b.len() as int)[i - 1]); } }
    }
    assert(a =~= b);
}
pub proof fn lemma_set_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires lexle(a, b), lexle(b, c), ensures lexle(a, c) decreases a.len() {
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_set_lex_trans(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int), c.subrange(1, c.len() as int));
    }
}
pub proof fn lemma_set_lex_total(a: Seq<u8>, b: Seq<u8>) ensures lexle(a, b) || lexle(b, a) decreases a.len() {
    if a.len() > 0 && b.len() > 0 { lemma_set_lex_total(a.subrange(1, a.len() as int), b.subrange(1, b.len() as int)); }
}
pub proof fn lemma_set_lex_order() ensures vstd::relations::total_ordering(lexle_f()) {
    let f = lexle_f();
    assert forall|a: Seq<u8>| #[trigger] f(a, a) by { lemma_set_lex_refl(a); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] f(a, b) && #[trigger] f(b, a) implies a == b by { lemma_set_lex_anti(a, b); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] f(a, b) && #[trigger] f(b, c) implies f(a, c) by { lemma_set_lex_trans(a, b, c); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #[trigger] f(a, b) || #[trigger] f(b, a) by { lemma_set_lex_total(a, b); }
}
pub open spec fn enc_set(pre: Seq<u8>, s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { enc_set(pre, s.drop_last()) + pre + enc16(s.last().len() as u16) + s.last() }
}
pub open spec fn set_total(n: nat, s: Seq<Seq<u8>>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { set_total(n, s.drop_last()) + n + 2 + s.last().len() }
}
pub proof fn lemma_set_sorted(s: Seq<Seq<u8>>)
    ensures sorted_lex(s.sort_by(lexle_f())), s.sort_by(lexle_f()).to_multiset() == s.to_multiset(), s.sort_by(lexle_f()).len() == s.len(),
{
    lemma_set_lex_order(); s.lemma_sort_by_ensures(lexle_f());
    s.to_multiset_ensures(); s.sort_by(lexle_f()).to_multiset_ensures();
    assert(s.sort_by(lexle_f()).to_multiset() =~= s.to_multiset());
}
/// The induction step over sequences with the same elements
pub proof fn lemma_set_peel<A>(a: Seq<A>, b: Seq<A>) -> (j: int)
    requires a.to_multiset() == b.to_multiset(), a.len() > 0,
    ensures 0 <= j < b.len(), b[j] == a.last(), a.drop_last().to_multiset() == b.remove(j).to_multiset(), a.len() == b.len(),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(a[a.len() - 1] == a.last());
    assert(a.contains(a.last()));
    assert(a.to_multiset().count(a.last()) > 0);
    assert(b.to_multiset().count(a.last()) > 0);
    assert(b.contains(a.last()));
    let j = choose|j: int| 0 <= j < b.len() && b[j] == a.last();
    assert(a.drop_last() =~= a.remove(a.len() - 1));
    assert(a.remove(a.len() - 1).to_multiset() =~= a.to_multiset().remove(a.last()));
    assert(b.remove(j).to_multiset() =~= b.to_multiset().remove(b[j]));
    j
}
pub proof fn lemma_set_total_remove(n: nat, b: Seq<Seq<u8>>, j: int)
    requires 0 <= j < b.len(), ensures set_total(n, b) == set_total(n, b.remove(j)) + n + 2 + b[j].len(), decreases b.len(),
{
    if j == b.len() - 1 { assert(b.remove(j) =~= b.drop_last()); }
    else { lemma_set_total_remove(n, b.drop_last(), j); assert(b.remove(j).drop_last() =~= b.drop_last().remove(j)); assert(b.remove(j).last() == b.last()); }
}
pub proof fn lemma_set_total(pre: Seq<u8>, a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires a.to_multiset() == b.to_multiset(), ensures set_total(pre.len(), a) == set_total(pre.len(), b), decreases a.len(),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    if a.len() > 0 {
        let j = lemma_set_peel(a, b);
        lemma_set_total_remove(pre.len(), b, j);
        lemma_set_total(pre, a.drop_last(), b.remove(j));
    }
}
pub proof fn lemma_set_total_step(n: nat, s: Seq<Seq<u8>>, i: int)
    requires 0 <= i < s.len(),
    ensures set_total(n, s.take(i + 1)) == set_total(n, s.take(i)) + n + 2 + s[i].len(), set_total(n, s.take(i + 1)) <= set_total(n, s), set_total(n, s.take(0)) == 0,
    decreases s.len() - i,
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i + 1 < s.len() { lemma_set_total_step(n, s, i + 1); assert(s.take(i + 2).drop_last() =~= s.take(i + 1)); } else { assert(s.take(i + 1) =~= s); }
}
pub proof fn lemma_set_enc_len(pre: Seq<u8>, s: Seq<Seq<u8>>) ensures enc_set(pre, s).len() == set_total(pre.len(), s) decreases s.len() {
    if s.len() > 0 { lemma_set_enc_len(pre, s.drop_last()); }
}
pub proof fn lemma_set_enc_step(pre: Seq<u8>, s: Seq<Seq<u8>>, i: int)
    requires 0 <= i < s.len(),
    ensures enc_set(pre, s.take(i + 1)) == enc_set(pre, s.take(i)) + pre + enc16(s[i].len() as u16) + s[i], enc_set(pre, s.take(0)).len() == 0,
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub open spec fn lex_pos(s: Seq<Seq<u8>>, x: Seq<u8>, i: int) -> bool {
    &&& 0 <= i <= s.len()
    &&& forall|k: int| 0 <= k < i ==> lexle(#[trigger] s[k], x)
    &&& forall|k: int| i <= k < s.len() ==> lexle(x, #[trigger] s[k])
}
/// The contract of `slice::binary_search` on octet strings (assumed)
pub trait VSearch { spec fn vs(&self) -> Seq<Seq<u8>>; fn v_binary_search(&self, x: &Vec<u8>) -> (r: Result<usize, usize>)
    ensures sorted_lex(self.vs()) ==> match r {
        Ok(i) => i < self.vs().len() && self.vs()[i as int] == x@,
        Err(i) => lex_pos(self.vs(), x@, i as int) && !self.vs().contains(x@) }; }
impl VSearch for Vec<Vec<u8>> { open spec fn vs(&self) -> Seq<Seq<u8>> { bytes_of(self@) }
    #[verifier::external_body] fn v_binary_search(&self, x: &Vec<u8>) -> (r: Result<usize, usize>) { unimplemented!() } }
/// The contract of `slice::sort` on octet strings (assumed)
pub trait VSort { spec fn vso(&self) -> Seq<Seq<u8>>; fn v_sort(&mut self)
    ensures sorted_lex(final(self).vso()), final(self).vso().to_multiset() == old(self).vso().to_multiset(); }
impl VSort for Vec<Vec<u8>> { open spec fn vso(&self) -> Seq<Seq<u8>> { bytes_of(self@) }
    #[verifier::external_body] fn v_sort(&mut self) { unimplemented!() } }
pub open spec fn zip2<T>(v: Seq<T>, k: Seq<Seq<u8>>) -> Seq<(T, Seq<u8>)> { Seq::new(v.len(), |i: int| (v[i], k[i])) }
pub open spec fn fsts<T>(z: Seq<(T, Seq<u8>)>) -> Seq<T> { z.map_values(|x: (T, Seq<u8>)| x.0) }
pub open spec fn snds<T>(z: Seq<(T, Seq<u8>)>) -> Seq<Seq<u8>> { z.map_values(|x: (T, Seq<u8>)| x.1) }
pub open spec fn sorted_with<T>(v0: Seq<T>, k: Seq<Seq<u8>>, v1: Seq<T>, z: Seq<(T, Seq<u8>)>) -> bool {
    zip2(v0, k).to_multiset() == z.to_multiset() && fsts(z) == v1 && sorted_lex(snds(z))
}
/// The contract of `slice::sort_by_key` and its kind with octet strings as keys (assumed): the
/// pairs of element and key are rearranged such that the keys ascend
#[verifier::external_body]
pub fn v_sort_by_keys<T>(v: &mut Vec<T>, keys: Vec<Vec<u8>>)
    requires keys@.len() == old(v)@.len(),
    ensures exists|z: Seq<(T, Seq<u8>)>| #[trigger] sorted_with(old(v)@, bytes_of(keys@), final(v)@, z),
{ unimplemented!() }
pub proof fn lemma_set_map<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> B)
    requires a.to_multiset() == b.to_multiset(), ensures a.map_values(f).to_multiset() == b.map_values(f).to_multiset(), decreases a.len(),
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    if a.len() > 0 {
        let j = lemma_set_peel(a, b);
        lemma_set_map(a.drop_last(), b.remove(j), f);
        let (ma, mb) = (a.map_values(f), b.map_values(f));
        ma.to_multiset_ensures(); mb.to_multiset_ensures();
        assert(a.drop_last().map_values(f) =~= ma.remove(a.len() - 1));
        assert(b.remove(j).map_values(f) =~= mb.remove(j));
        assert(ma.remove(a.len() - 1).to_multiset() =~= ma.to_multiset().remove(ma[a.len() - 1]));
        assert(mb.remove(j).to_multiset() =~= mb.to_multiset().remove(mb[j]));
        assert(ma[a.len() - 1] == f(a.last())); assert(mb[j] == f(b[j]));
        assert(ma.contains(ma[a.len() - 1])); assert(mb.contains(mb[j]));
        assert(ma.to_multiset() =~= ma.to_multiset().remove(ma[a.len() - 1]).insert(f(a.last())));
        assert(mb.to_multiset() =~= mb.to_multiset().remove(mb[j]).insert(f(a.last())));
    } else { assert(a.map_values(f) =~= b.map_values(f)); }
}
/// A set sorted by the octets of its records is in the one canonical order
pub proof fn lemma_set_sorted_with<T>(v0: Seq<T>, k: Seq<Seq<u8>>, v1: Seq<T>, f: spec_fn(T) -> Seq<u8>)
    requires exists|z: Seq<(T, Seq<u8>)>| #[trigger] sorted_with(v0, k, v1, z), k == v0.map_values(f),
    ensures v1.to_multiset() == v0.to_multiset(), v1.map_values(f) == v0.map_values(f).sort_by(lexle_f()),
{
    let z = choose|z: Seq<(T, Seq<u8>)>| #[trigger] sorted_with(v0, k, v1, z);
    let z0 = zip2(v0, k);
    z0.to_multiset_ensures(); z.to_multiset_ensures();
    lemma_set_map(z0, z, |x: (T, Seq<u8>)| x.0); lemma_set_map(z0, z, |x: (T, Seq<u8>)| x.1);
    assert(fsts(z0) =~= v0); assert(snds(z0) =~= k);
    assert forall|i: int| 0 <= i < z.len() implies snds(z)[i] == f(v1[i]) by {
        assert(z.contains(z[i])); assert(z.to_multiset().count(z[i]) > 0); assert(z0.to_multiset().count(z[i]) > 0); assert(z0.contains(z[i]));
        let j = choose|j: int| 0 <= j < z0.len() && z0[j] == z[i];
        assert(z0[j] == (v0[j], k[j])); assert(fsts(z)[i] == z[i].0);
    }
    assert(v1.map_values(f) =~= snds(z));
    lemma_set_unique(v1.map_values(f), k);
}
pub proof fn lemma_set_unique(b: Seq<Seq<u8>>, rb: Seq<Seq<u8>>)
    requires sorted_lex(b), b.to_multiset() == rb.to_multiset(), ensures b == rb.sort_by(lexle_f()),
{ lemma_set_sorted(rb); lemma_set_lex_order(); vstd::seq_lib::lemma_sorted_unique(b, rb.sort_by(lexle_f()), lexle_f()); }
/// Inserting where the search says keeps a set in order
pub proof fn lemma_set_insert(b0: Seq<Vec<u8>>, b1: Seq<Vec<u8>>, pos: int, x: Vec<u8>)
    requires sorted_lex(bytes_of(b0)), 0 <= pos <= b0.len(), b1 == b0.insert(pos, x),
        (pos < b0.len() && b0[pos]@ == x@) || lex_pos(bytes_of(b0), x@, pos),
    ensures sorted_lex(bytes_of(b1)), bytes_of(b1).to_multiset() == bytes_of(b0).to_multiset().insert(x@),
{
    let (s0, s1) = (bytes_of(b0), bytes_of(b1));
    assert(s1 =~= s0.insert(pos, x@));
    s0.to_multiset_ensures(); s1.to_multiset_ensures();
    assert(s1.remove(pos) =~= s0);
    assert(s1.remove(pos).to_multiset() =~= s1.to_multiset().remove(s1[pos]));
    assert(s1.contains(s1[pos]));
    assert(s1.to_multiset() =~= s0.to_multiset().insert(x@));
    lemma_set_lex_order();
    let f = lexle_f();
    assert forall|i: int, j: int| 0 <= i < j < s1.len() implies #[trigger] f(s1[i], s1[j]) by {
        let i0 = if i > pos { i - 1 } else { i }; let j0 = if j > pos { j - 1 } else { j };
        lemma_set_lex_refl(x@);
        if i < pos && j == pos { if pos < b0.len() && s0[pos] == x@ { assert(f(s0[i], s0[pos])); } }
        else if i == pos { if pos < b0.len() && s0[pos] == x@ { if j > pos + 1 { assert(f(s0[pos], s0[j - 1])); } } }
        else { assert(s1[i] == s0[i0] && s1[j] == s0[j0]); assert(f(s0[i0], s0[j0])); }
    }
}

// ---- key tags (RFC 4034 appendix B) and digests
pub open spec fn tag_sum(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { tag_sum(s.drop_last()) + if (s.len() - 1) % 2 == 0 { s.last() as nat * 256 } else { s.last() as nat } }
}
pub open spec fn rfc_tag(s: Seq<u8>) -> u16 { ((tag_sum(s) + (tag_sum(s) / 65536) % 65536) % 65536) as u16 }
pub proof fn lemma_tag_step(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures tag_sum(s.take(0)) == 0, i < s.len() ==> tag_sum(s.take(i + 1)) == tag_sum(s.take(i)) + if i % 2 == 0 { s[i] as nat * 256 } else { s[i] as nat },
{ if i < s.len() { assert(s.take(i + 1).drop_last() =~= s.take(i)); } }
pub proof fn lemma_tag_bound(s: Seq<u8>)
    ensures tag_sum(s) <= (s.len() + 1) * 0x8000, s.len() % 2 == 0 ==> tag_sum(s) <= s.len() * 0x8000,
    decreases s.len(),
{
    if s.len() > 0 { lemma_tag_bound(s.drop_last()); if s.len() > 1 { lemma_tag_bound(s.drop_last().drop_last()); } }
}
/// The octets ring's digest function `id` yields for `d` (uninterpreted)
pub uninterp spec fn dig(id: nat, d: Seq<u8>) -> Seq<u8>;
pub mod ring { pub mod digest {
    #[allow(unused_imports)] use vstd::prelude::*;
    pub struct Algorithm { pub id: u16 }
    pub struct Digest { pub b: Vec<u8> }
    pub const SHA1_FOR_LEGACY_USE_ONLY: Algorithm = Algorithm { id: 1 };
    pub const SHA256: Algorithm = Algorithm { id: 256 };
    pub const SHA384: Algorithm = Algorithm { id: 384 };
    pub const SHA512: Algorithm = Algorithm { id: 512 };
    #[verifier::external_body]
    pub fn digest(a: &Algorithm, d: &[u8]) -> (r: Digest) ensures r.b@ == super::super::dig(a.id as nat, d@) { unimplemented!() }
    /// An incremental digest (ring's contract, assumed)
    pub struct Context { pub id: u16, pub b: Vec<u8> }
    impl Context {
        #[verifier::external_body] pub fn new(a: &Algorithm) -> (r: Context) ensures r.id == a.id, r.b@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn update(&mut self, d: &[u8]) ensures final(self).id == old(self).id, final(self).b@ == old(self).b@ + d@ { unimplemented!() }
        #[verifier::external_body] pub fn finish(self) -> (r: Digest) ensures r.b@ == super::super::dig(self.id as nat, self.b@) { unimplemented!() }
    }
    impl Digest { pub fn v_as_ref(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() } }
} }

// ---- names as text
/// The octets of a str
pub uninterp spec fn stb(s: &str) -> Seq<u8>;
/// A text divided at every octet `c`
pub open spec fn splits(b: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases b.len() {
    if b.len() == 0 { seq![Seq::empty()] }
    else {
        let r = splits(b.drop_last(), c);
        if b.last() == c { r.push(Seq::empty()) } else { r.update(r.len() - 1, r.last().push(b.last())) }
    }
}
pub open spec fn nonempties(s: Seq<Seq<u8>>) -> Seq<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last().len() == 0 { nonempties(s.drop_last()) } else { nonempties(s.drop_last()).push(s.last()) }
}
/// The labels of a name given as text: the non-empty parts between dots
pub open spec fn text_labels(b: Seq<u8>) -> Seq<Seq<u8>> { nonempties(splits(b, 46)) }
pub open spec fn strb_of(v: Seq<&str>) -> Seq<Seq<u8>> { v.map_values(|x: &str| stb(x)) }
/// The contract of `str::split` with an ASCII character (assumed)
#[verifier::external_body]
pub fn v_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) requires c as u32 <= 127, ensures strb_of(r@) == splits(stb(s), c as u8) { unimplemented!() }
impl VAsBytes for str { open spec fn ab(&self) -> Seq<u8> { stb(self) } #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() } }
/// A text without octets has no characters
pub broadcast axiom fn axiom_str_empty(s: &str) ensures #[trigger] stb(s).len() == 0 <==> s@.len() == 0;
/// What `core::fmt` writes to (assumed: what is written is appended)
pub struct VFormatter { pub out: Ghost<Seq<u8>> }
pub struct VFmtError {}
pub type VFmtResult = Result<(), VFmtError>;
pub trait VDisp { spec fn db(&self) -> Seq<u8>; }
impl VDisp for String { open spec fn db(&self) -> Seq<u8> { sbytes(*self) } }
impl VDisp for str { open spec fn db(&self) -> Seq<u8> { stb(self) } }
impl<'a, T: VDisp + ?Sized> VDisp for &'a T { open spec fn db(&self) -> Seq<u8> { (**self).db() } }
impl VFormatter {
    #[verifier::external_body]
    pub fn v_put<const N: usize>(&mut self, b: &[u8; N]) -> (r: VFmtResult) ensures r is Ok ==> final(self).out@ == old(self).out@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn v_disp<T: VDisp + ?Sized>(&mut self, x: &T) -> (r: VFmtResult) ensures r is Ok ==> final(self).out@ == old(self).out@ + x.db() { unimplemented!() }
}
/// `ToString`: a name's text is what its `fmt` writes
pub trait VDisplay { spec fn disp(&self) -> Seq<u8>; fn fmt(&self, f: &mut VFormatter) -> (r: VFmtResult) ensures r is Ok ==> final(f).out@ == old(f).out@ + self.disp(); }
/// The text of the first `i` of the labels, with a dot behind each but the last
pub open spec fn disp_to(ls: Seq<Seq<u8>>, i: int) -> Seq<u8> decreases i {
    if i <= 0 { Seq::empty() } else { disp_to(ls, i - 1) + lossy(ls[i - 1]) + if i == ls.len() { Seq::empty() } else { seq![46u8] } }
}
pub open spec fn dotfree(l: Seq<u8>) -> bool { forall|i: int| 0 <= i < l.len() ==> l[i] != 46 }
pub open spec fn text_ok(ls: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).len() > 0 && dotfree(ls[i]) && is_utf8(ls[i]) }
pub proof fn lemma_text_split_len(b: Seq<u8>, c: u8) ensures splits(b, c).len() > 0 decreases b.len() { if b.len() > 0 { lemma_text_split_len(b.drop_last(), c); } }
/// A dot and a dot-free part add that part
pub proof fn lemma_text_split_part(a: Seq<u8>, l: Seq<u8>)
    requires dotfree(l), ensures splits(a.push(46) + l, 46) == splits(a, 46).push(l), decreases l.len(),
{
    let b = a.push(46) + l;
    lemma_text_split_len(a, 46);
    if l.len() == 0 { assert(l =~= Seq::<u8>::empty()); assert(b.drop_last() =~= a); assert(b.last() == 46); assert(splits(b, 46) =~= splits(a, 46).push(l)); }
    else {
        lemma_text_split_part(a, l.drop_last());
        assert(b.drop_last() =~= a.push(46) + l.drop_last()); assert(b.last() == l.last());
        assert(l.drop_last().push(l.last()) =~= l);
        assert(splits(b, 46) =~= splits(a, 46).push(l));
    }
}
pub proof fn lemma_text_split_one(l: Seq<u8>) requires dotfree(l), ensures splits(l, 46) == seq![l], decreases l.len(),
{
    if l.len() > 0 { lemma_text_split_one(l.drop_last()); assert(l.drop_last().push(l.last()) =~= l); } else { assert(l =~= Seq::<u8>::empty()); }
    assert(splits(l, 46) =~= seq![l]);
}
pub proof fn lemma_text_nonempties(s: Seq<Seq<u8>>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() > 0, ensures nonempties(s) == s, decreases s.len(),
{ if s.len() > 0 { lemma_text_nonempties(s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); } else { assert(nonempties(s) =~= s); } }
/// All but the last of the labels, each with its dot
pub proof fn lemma_text_disp(ls: Seq<Seq<u8>>, i: int)
    requires text_ok(ls), 0 < i <= ls.len(),
    ensures disp_to(ls, i) == (if i == ls.len() { lossy_join(ls, i) } else { lossy_join(ls, i).push(46) }), splits(lossy_join(ls, i), 46) == ls.take(i),
    decreases i,
{
    broadcast use axiom_lossy;
    assert(disp_to(ls, i) == disp_to(ls, i - 1) + lossy(ls[i - 1]) + if i == ls.len() { Seq::empty() } else { seq![46u8] });
    if i == 1 {
        assert(disp_to(ls, 0) == Seq::<u8>::empty());
        lemma_text_split_one(ls[0]); assert(ls.take(1) =~= seq![ls[0]]);
        assert(lossy_join(ls, 1) =~= ls[0]);
        assert(disp_to(ls, i) =~= if i == ls.len() { lossy_join(ls, i) } else { lossy_join(ls, i).push(46) });
    } else {
        lemma_text_disp(ls, i - 1);
        lemma_text_split_part(lossy_join(ls, i - 1), ls[i - 1]);
        assert(ls.take(i) =~= ls.take(i - 1).push(ls[i - 1]));
        assert(disp_to(ls, i) =~= if i == ls.len() { lossy_join(ls, i) } else { lossy_join(ls, i).push(46) });
    }
}
pub open spec fn lossy_join(ls: Seq<Seq<u8>>, i: int) -> Seq<u8> decreases i {
    if i <= 0 { Seq::empty() } else if i == 1 { ls[0] } else { lossy_join(ls, i - 1).push(46) + ls[i - 1] }
}
/// The printed form written with the dots in front of the labels
pub open spec fn disp_join(ls: Seq<Seq<u8>>, i: int) -> Seq<u8> decreases i {
    if i <= 0 { Seq::empty() } else if i == 1 { lossy(ls[0]) } else { disp_join(ls, i - 1) + seq![46u8] + lossy(ls[i - 1]) }
}
pub proof fn lemma_disp_join(ls: Seq<Seq<u8>>, i: int)
    requires 0 <= i <= ls.len(),
    ensures disp_to(ls, i) =~= (if i == 0 { Seq::empty() } else if i == ls.len() { disp_join(ls, i) } else { disp_join(ls, i) + seq![46u8] }),
    decreases i,
{
    if i > 0 {
        lemma_disp_join(ls, i - 1);
        assert(disp_to(ls, i) == disp_to(ls, i - 1) + lossy(ls[i - 1]) + if i == ls.len() { Seq::empty() } else { seq![46u8] });
        if i > 1 { assert(disp_join(ls, i) == disp_join(ls, i - 1) + seq![46u8] + lossy(ls[i - 1])); }
    }
}
/// Printing a name of dot-free text labels and reading it back gives the same labels
pub proof fn lemma_text_roundtrip(ls: Seq<Seq<u8>>)
    requires text_ok(ls), ensures text_labels(disp_to(ls, ls.len() as int)) == ls,
{
    if ls.len() == 0 { reveal_with_fuel(nonempties, 3); assert(disp_to(ls, 0) == Seq::<u8>::empty()); assert(splits(Seq::<u8>::empty(), 46) == seq![Seq::<u8>::empty()]); assert(seq![Seq::<u8>::empty()].drop_last() =~= Seq::<Seq<u8>>::empty()); assert(nonempties(seq![Seq::<u8>::empty()]) =~= ls); }
    else { lemma_text_disp(ls, ls.len() as int); assert(ls.take(ls.len() as int) =~= ls); lemma_text_nonempties(ls); }
}
pub proof fn lemma_text_step(s: Seq<Seq<u8>>, i: int)
    requires 0 <= i < s.len(),
    ensures nonempties(s.take(i + 1)) == (if s[i].len() == 0 { nonempties(s.take(i)) } else { nonempties(s.take(i)).push(s[i]) }), nonempties(s.take(0)) == Seq::<Seq<u8>>::empty(),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
} // mod vprelude
