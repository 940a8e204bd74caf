@mod buffer
@spec
impl<'a> DnsBuffer<'a> {
    /// A buffer's position lies inside its data
    pub open spec fn wf(&self) -> bool { self.pos <= self.data@.len() && self.data@.len() <= isize::MAX }
    /// Same data as `o`, position `n` bytes further
    pub open spec fn moved(&self, o: &Self, n: int) -> bool { self.wf() && self.data@ == o.data@ && self.pos == o.pos + n }
    /// Same data as `o`
    pub open spec fn same(&self, o: &Self) -> bool { self.wf() && self.data@ == o.data@ }
    pub open spec fn rest(&self) -> int { self.data@.len() - self.pos }
}
/// Where a name that started at `p0` ends: behind the first pointer, if one was followed
pub open spec fn org_ok(org: Option<usize>, d: Seq<u8>, p: int, p0: int) -> bool {
    match org {
        None => name_end(d, p) == name_end(d, p0),
        Some(o) => o + 1 == name_end(d, p0) && o < d.len(),
    }
}
@impl DnsBuffer::From<&[u8]>
    open spec fn f_pre(v: &'a [u8]) -> bool { true }
    open spec fn f_post(v: &'a [u8], r: Self) -> bool { r.wf() && r.pos == 0 && r.data@ == v@ }
@fn DnsBuffer::From<&[u8]>::from
@head
    proof { axiom_slice_len(value@); }
@fn DnsBuffer::sub_buffer
    requires old(self).wf(),
    ensures final(self).moved(old(self), 0),
        match r {
            Ok(b) => len <= old(self).rest() && b.wf() && b.pos == old(self).pos
                && b.data@ == old(self).data@.subrange(0, old(self).pos + len),
            Err(_) => len > old(self).rest(),
        },
@fn DnsBuffer::remaining
    requires self.wf(),
    ensures r == self.rest(),
@fn DnsBuffer::position
    ensures r == self.pos,
@fn DnsBuffer::set_position
    requires old(self).wf(),
    ensures final(self).same(old(self)),
        match r {
            Ok(_) => pos <= old(self).data@.len() && final(self).pos == pos,
            Err(_) => pos > old(self).data@.len() && final(self).pos == old(self).pos,
        },
@fn DnsBuffer::advance
    requires old(self).wf(),
    ensures match r {
            Ok(_) => len <= old(self).rest() && final(self).moved(old(self), len as int),
            Err(_) => len > old(self).rest() && final(self).moved(old(self), 0),
        },
@fn DnsBuffer::peek_bytes
    requires self.wf(),
    ensures match r {
            Ok(b) => len <= self.rest() && b@ == self.data@.subrange(self.pos as int, self.pos + len),
            Err(_) => len > self.rest(),
        },
@fn DnsBuffer::extract_bytes
    requires old(self).wf(),
    ensures match r {
            Ok(b) => len <= old(self).rest() && b@ == old(self).data@.subrange(old(self).pos as int, old(self).pos + len)
                && final(self).moved(old(self), len as int),
            Err(_) => len > old(self).rest() && final(self).moved(old(self), 0),
        },
@fn DnsBuffer::extract_u8
    requires old(self).wf(),
    ensures match r {
            Ok(b) => 1 <= old(self).rest() && b == old(self).data@[old(self).pos as int] && final(self).moved(old(self), 1),
            Err(_) => 1 > old(self).rest() && final(self).moved(old(self), 0),
        },
@fn DnsBuffer::extract_u16
    requires old(self).wf(),
    ensures match r {
            Ok(b) => 2 <= old(self).rest() && b == be16(old(self).data@, old(self).pos as int) && final(self).moved(old(self), 2),
            Err(_) => 2 > old(self).rest() && final(self).moved(old(self), 0),
        },
@fn DnsBuffer::extract_u32
    requires old(self).wf(),
    ensures match r {
            Ok(b) => 4 <= old(self).rest() && b == be32(old(self).data@, old(self).pos as int) && final(self).moved(old(self), 4),
            Err(_) => 4 > old(self).rest() && final(self).moved(old(self), 0),
        },
@fn DnsBuffer::extract_u16_as
    requires old(self).wf(),
        forall|x: u16| TwoBytesType::tf_pre(x),
    ensures
        2 <= old(self).rest() ==> final(self).moved(old(self), 2) && TwoBytesType::tf_post(be16(old(self).data@, old(self).pos as int), r),
        2 > old(self).rest() ==> final(self).moved(old(self), 0) && r is Err,
@fn DnsBuffer::extract_character_string
    requires old(self).wf(),
    ensures final(self).same(old(self)),
        match r {
            Ok(b) => dec1(K::Str, old(self).data@, old(self).pos as int) == Some((W::B(b@), final(self).pos as int)),
            Err(_) => dec1(K::Str, old(self).data@, old(self).pos as int) is None,
        },
@fn DnsBuffer::extract_string
    requires old(self).wf(),
    ensures final(self).same(old(self)),
        match r {
            Ok(b) => is_utf8(sbytes(b)) && dec1(K::Str, old(self).data@, old(self).pos as int) == Some((W::B(sbytes(b)), final(self).pos as int)),
            Err(_) => match dec1(K::Str, old(self).data@, old(self).pos as int) { Some((W::B(b), _)) => !is_utf8(b), _ => true },
        },
@fn DnsBuffer::extract_fqdn [muts=data,org_pos,start]
    requires old(self).wf(),
    ensures final(self).same(old(self)),
        match r {
            Ok(f) => name_at(old(self).data@, old(self).pos as int, old(self).pos as int) == Some(f.ls())
                && final(self).pos == name_end(old(self).data@, old(self).pos as int),
            Err(_) => name_at(old(self).data@, old(self).pos as int, old(self).pos as int) is None,
        },
@head
    proof { lemma_masks(); }
@loop 1
    invariant
        self.wf(), self.data@ == old(self).data@, old(self).wf(), start <= self.pos,
        name_at(self.data@, old(self).pos as int, old(self).pos as int) == opt_prepend(bytes_of(data@), name_at(self.data@, self.pos as int, start as int)),
        org_ok(org_pos, self.data@, self.pos as int, old(self).pos as int),
    decreases start, self.data@.len() - self.pos
@lhead 1
    proof { lemma_masks(); reveal_with_fuel(name_at, 2); reveal_with_fuel(name_end, 2); }
@fn DnsBuffer::as_slice
    ensures r@ == self.data@,
